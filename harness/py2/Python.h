// The bindings are written for Python 2 (cmake/targetex.cmake looks for it); here they meet the installed Python 3:
// text is bytes in Python 2, whose plain integers are Python 3's only kind; the comparing slot is gone.
// None can be counted here: a stand-in with a real reference count takes its place.
#pragma once
#include_next <Python.h>
#include <structmember.h>
#define PyInt_AsSsize_t PyLong_AsSsize_t
#define PyInt_FromSize_t PyLong_FromSize_t
#define PyInt_FromLong PyLong_FromLong
#define PyInt_AsLong PyLong_AsLong
#define PyInt_Check PyLong_Check
#define PyString_FromStringAndSize PyBytes_FromStringAndSize
#define PyString_FromString PyBytes_FromString
#define PyString_AsString PyBytes_AsString
#define PyString_Check PyBytes_Check
struct cmpfunc {
  template <class F> cmpfunc(F) {}
  operator PyAsyncMethods *() const { return nullptr; }
};
extern "C" PyObject *shimNone();
#undef Py_None
#define Py_None (shimNone())
#undef Py_RETURN_NONE
#define Py_RETURN_NONE return Py_INCREF(Py_None), Py_None
