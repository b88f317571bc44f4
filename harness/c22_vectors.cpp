// C22: vector arithmetic of scalar and SIMD classes.
#include "datas/vectors_simd.hpp"
#include "datas/vectors_stream.hpp"
#include "datas/vectors_string.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstring>
#include <sstream>
using namespace mon;

template <class T> static bool bitSame(T a, T b) { return a == b; }
static bool bitSame(float a, float b) {
  return (std::isnan(a) && std::isnan(b)) || !memcmp(&a, &b, 4);
}
template <class T> static T number(Rng &r, bool flt) {
  if (flt) {
    double v = (r.unit() * 2 - 1) * std::pow(10.0, int(r.below(9)) - 4);
    return T(r.chance(1, 6) ? int(r.below(9)) - 4 : v);
  }
  if (sizeof(T) < 4 || T(-1) > T(0))
    // (products of shorts are made as int)
    return sizeof(T) == 2 && T(-1) > T(0) ? T(r.below(46341)) : T(r.chance(1, 3) ? r.edgy(sizeof(T) * 8) : r.u32());
  return T(int(r.below(60001)) - 30000); // products of signed numbers stay in range
}
template <class V, int N> static std::string show(const V &v) {
  std::string s = "(";
  for (int i = 0; i < N; i++)
    s += fmt("%s%.9g", i ? " " : "", double(v._arr[i]));
  return s + ")";
}

// one binary operator in all its forms
#define BIN(op, what)                                                                                                  \
  {                                                                                                                    \
    const V a2 = A, b2 = B;                                                                                            \
    V r1 = A op B, r2 = A, r3 = A op s, r4 = A;                                                                        \
    auto *p2 = &(r2 op## = B);                                                                                         \
    auto *p4 = &(r4 op## = s);                                                                                         \
    for (int i = 0; i < N; i++) {                                                                                      \
      T want = T(a[i] op b[i]), wantS = T(a[i] op s);                                                                  \
      CHECK(bitSame(T(r1._arr[i]), want), what, "%s: %s " what " %s gives %s", name, show<V, N>(A).c_str(),            \
            show<V, N>(B).c_str(), show<V, N>(r1).c_str());                                                            \
      CHECK(bitSame(T(r2._arr[i]), want), what "=", "%s: %s " what "= %s gives %s", name, show<V, N>(A).c_str(),       \
            show<V, N>(B).c_str(), show<V, N>(r2).c_str());                                                            \
      CHECK(bitSame(T(r3._arr[i]), wantS), what " single", "%s: %s " what " %g gives %s", name, show<V, N>(A).c_str(), \
            double(s), show<V, N>(r3).c_str());                                                                        \
      CHECK(bitSame(T(r4._arr[i]), wantS), what "= single", "%s: %s " what "= %g gives %s", name,                      \
            show<V, N>(A).c_str(), double(s), show<V, N>(r4).c_str());                                                 \
      CHECK(bitSame(T(A._arr[i]), T(a2._arr[i])) && bitSame(T(B._arr[i]), T(b2._arr[i])), "operand changed", "%s " what, name); \
    }                                                                                                                  \
    CHECK((void *)p2 == (void *)&r2 && (void *)p4 == (void *)&r4, "returned object", "%s " what "=", name);            \
  }

template <class V, class T, int N> struct Arith {
  const char *name;
  Case &c;
  T a[4]{}, b[4]{}, s;
  V A, B;
  template <class W> static W make(const T *p);
  Arith(const char *n, Case &cs, bool flt) : name(n), c(cs) {
    for (int i = 0; i < N; i++) {
      a[i] = number<T>(c.rng, flt), b[i] = number<T>(c.rng, flt);
      if (!b[i])
        b[i] = 1;
      A._arr[i] = a[i], B._arr[i] = b[i];
    }
    s = number<T>(c.rng, flt);
    if (!s)
      s = 3;
    note(fmt("%s %s %s %g", n, show<V, N>(A).c_str(), show<V, N>(B).c_str(), double(s)));
    distinct(hashBytes(a, sizeof(T) * N, hashBytes(b, sizeof(T) * N, sizeof(V))));
    event(n);
  }
  void basics() {
    BIN(+, "+")
    BIN(-, "-")
    BIN(*, "*")
    // construction, access
    V z, one(s), copy(A);
    for (int i = 0; i < N; i++)
      CHECK(z._arr[i] == 0 && one._arr[i] == s && copy._arr[i] == a[i], "construction", "%s component %d", name, i);
    const V &ca = A;
    const int k = c.rng.below(N);
    CHECK(&A[k] == &A._arr[k] && &ca[k] == &A._arr[k] && A.X == a[0] && A.y == a[1] && &A.X == &A.x && (const void *)&A.X == &A._arr[0] && (const void *)&A.Y == &A._arr[1], "access", "%s component %d", name, k);
    // relations
    V near = A;
    CHECK(A == near && !(A != near), "equal", "%s: %s", name, show<V, N>(A).c_str());
    near._arr[k] = T(near._arr[k] + (std::fabs(double(a[k])) > 1e5 ? a[k] : T(1)));
    CHECK(A != near && !(A == near) && near != A, "unequal", "%s: %s and %s", name, show<V, N>(A).c_str(), show<V, N>(near).c_str());
  }
  void minus() {
    if (sizeof(T) == 2 && T(-1) > T(0)) // made as product of ints
      for (int i = 0; i < N; i++)
        a[i] = T(int64_t(a[i]) & 0x7fff), A._arr[i] = a[i];
    const V m = -A;
    for (int i = 0; i < N; i++)
      CHECK(bitSame(T(m._arr[i]), T(-a[i])), "minus", "%s: -%s gives %s", name, show<V, N>(A).c_str(), show<V, N>(m).c_str());
  }
  void divide() { BIN(/, "/") }
  void bits() {
    BIN(&, "&")
    BIN(|, "|")
  }
  void scalarShifts() {
    const int sh = c.rng.below(8);
    for (int i = 0; i < N; i++)
      a[i] = T(a[i] & 0x7f), A._arr[i] = a[i];
    V l = A << sh, r = A >> sh, l2 = A, r2 = A;
    l2 <<= sh, r2 >>= sh;
    for (int i = 0; i < N; i++)
      CHECK(T(l._arr[i]) == T(a[i] << sh) && T(r._arr[i]) == T(a[i] >> sh) && T(l2._arr[i]) == T(a[i] << sh) && T(r2._arr[i]) == T(a[i] >> sh),
            "shift", "%s: %s by %d gives %s %s", name, show<V, N>(A).c_str(), sh, show<V, N>(l).c_str(), show<V, N>(r).c_str());
    event("shifts");
  }
  template <class SV> void vectorShifts() {
    SV by;
    for (int i = 0; i < N; i++)
      by._arr[i] = c.rng.below(8);
    V l = A << by, r = A >> by, l2 = A, r2 = A;
    l2 <<= by, r2 >>= by;
    for (int i = 0; i < N; i++) {
      const int n = by._arr[i];
      CHECK(T(l._arr[i]) == T(a[i] << n) && T(r._arr[i]) == T(a[i] >> n) && T(l2._arr[i]) == T(a[i] << n) && T(r2._arr[i]) == T(a[i] >> n),
            "shift", "%s component %d: %g by %d", name, i, double(a[i]), n);
    }
  }
  void symmetry() {
    V v(s);
    CHECK(v.IsSymetrical(), "symmetry", "%s: %s is not symmetrical", name, show<V, N>(v).c_str());
    const int k = c.rng.below(N);
    v._arr[k] = T(s + (std::fabs(double(s)) > 1e5 ? s : T(1)));
    CHECK(!v.IsSymetrical(), "symmetry", "%s: %s is symmetrical", name, show<V, N>(v).c_str());
    event("symmetry");
  }
  void sign() {
    bool neg = false;
    for (int i = 0; i < N; i++)
      neg = neg || a[i] < 0;
    CHECK(A.Sign() == (neg ? -1 : 1), "sign", "%s: sign of %s is %d", name, show<V, N>(A).c_str(), A.Sign());
  }
  void convert() {
    // to other component types, keeping values of both
    for (int i = 0; i < N; i++)
      a[i] = T(c.rng.below(100)), A._arr[i] = a[i];
    auto f = A.template Convert<float>();
    auto u = A.template Convert<uint8>();
    auto l = A.template Convert<int32>();
    static_assert(std::is_same<typename std::decay<decltype(f._arr[0])>::type, float>::value, "");
    for (int i = 0; i < N; i++)
      CHECK(f._arr[i] == float(a[i]) && u._arr[i] == uint8(a[i]) && l._arr[i] == int32(a[i]), "convert", "%s component %d", name, i);
  }
  double dotRef(double &mag) {
    double d = 0;
    mag = 0;
    for (int i = 0; i < N; i++)
      d += double(a[i]) * b[i], mag += std::fabs(double(a[i]) * b[i]);
    return d;
  }
  void metric() {
    double mag, d = dotRef(mag);
    const float eps = 1e-6f;
    CHECK(std::fabs(A.Dot(B) - d) <= mag * eps + 1e-30, "dot", "%s: %s . %s is %.9g, not %.9g", name, show<V, N>(A).c_str(),
          show<V, N>(B).c_str(), double(A.Dot(B)), d);
    double len = 0;
    for (int i = 0; i < N; i++)
      len += double(a[i]) * a[i];
    len = std::sqrt(len);
    CHECK(std::fabs(A.Length() - len) <= len * eps + 1e-20, "length", "%s: length of %s is %.9g, not %.9g", name,
          show<V, N>(A).c_str(), double(A.Length()), len);
    V n = A;
    auto *p = &n.Normalize();
    CHECK((void *)p == (void *)&n, "returned object", "%s normalize", name);
    for (int i = 0; i < N; i++)
      CHECK(len < 1e-15 || std::fabs(n._arr[i] - a[i] / len) <= 3e-6, "normalize", "%s: %s normalizes to %s", name,
            show<V, N>(A).c_str(), show<V, N>(n).c_str());
    V z;
    z.Normalize();
    for (int i = 0; i < N; i++)
      CHECK(z._arr[i] == 0, "normalize zero", "%s: zero normalizes to %s", name, show<V, N>(z).c_str());
    event("metric");
  }
  void cross() {
    const V r = A.Cross(B);
    const double e[3] = {double(a[1]) * b[2] - double(a[2]) * b[1], double(a[2]) * b[0] - double(a[0]) * b[2],
                         double(a[0]) * b[1] - double(a[1]) * b[0]};
    for (int i = 0; i < 3; i++) {
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      const double mag = std::fabs(double(a[j]) * b[k]) + std::fabs(double(a[k]) * b[j]);
      CHECK(std::fabs(r._arr[i] - e[i]) <= mag * 1e-6 + 1e-30, "cross", "%s: %s x %s is %s", name, show<V, N>(A).c_str(),
            show<V, N>(B).c_str(), show<V, N>(r).c_str());
    }
    for (int i = 3; i < N; i++)
      CHECK(r._arr[i] == 0, "cross W", "%s: %s", name, show<V, N>(r).c_str());
    event("cross");
  }
  void texts() {
    std::ostringstream o, e;
    std::string t;
    std::wstring w;
    o << A;
    for (int i = 0; i < N; i++) {
      e << (i ? " " : "") << a[i];
      t += (i ? " " : "") + std::to_string(a[i]);
      w += (i ? L" " : L"") + std::to_wstring(a[i]);
    }
    CHECK(o.str() == e.str(), "stream", "%s: '%s', not '%s'", name, o.str().c_str(), e.str().c_str());
    CHECK(std::to_string(A) == t, "text", "%s: '%s', not '%s'", name, std::to_string(A).c_str(), t.c_str());
    CHECK(std::to_wstring(A) == w, "wide text", "%s: differs from '%s'", name, t.c_str());
    event("texts");
  }
};

template <class V, class SV, class T, int N> static void integral(Case &c, const char *name) {
  Arith<V, T, N> x(name, c, false);
  x.basics();
  x.minus();
  x.divide();
  x.bits();
  x.sign();
  x.symmetry();
  x.texts();
  x.scalarShifts();
  x.template vectorShifts<SV>();
  x.convert();
}
template <class V, int N> static void floating(Case &c, const char *name) {
  Arith<V, float, N> x(name, c, true);
  x.basics();
  x.minus();
  x.divide();
  x.metric();
  x.symmetry();
  x.texts();
  x.convert();
}
MON_SECTION(scalar, 12000, 240000) {
  switch (c.idx % 21) {
  case 0: return integral<CVector2, IVector2, int8, 2>(c, "int8x2");
  case 1: return integral<CVector, IVector, int8, 3>(c, "int8x3");
  case 2: return integral<CVector4, V4ScalarType<int32>, int8, 4>(c, "int8x4");
  case 3: return integral<UCVector2, IVector2, uint8, 2>(c, "uint8x2");
  case 4: return integral<UCVector, IVector, uint8, 3>(c, "uint8x3");
  case 5: return integral<UCVector4, V4ScalarType<int32>, uint8, 4>(c, "uint8x4");
  case 6: return integral<SVector2, IVector2, int16, 2>(c, "int16x2");
  case 7: return integral<SVector, IVector, int16, 3>(c, "int16x3");
  case 8: return integral<SVector4, V4ScalarType<int32>, int16, 4>(c, "int16x4");
  case 9: return integral<USVector2, IVector2, uint16, 2>(c, "uint16x2");
  case 10: return integral<USVector, IVector, uint16, 3>(c, "uint16x3");
  case 11: return integral<USVector4, V4ScalarType<int32>, uint16, 4>(c, "uint16x4");
  case 12: return integral<IVector2, IVector2, int32, 2>(c, "int32x2");
  case 13: return integral<IVector, IVector, int32, 3>(c, "int32x3");
  case 14: return integral<IVector4, V4ScalarType<int32>, int32, 4>(c, "int32x4");
  case 15: return integral<UIVector2, IVector2, uint32, 2>(c, "uint32x2");
  case 16: return integral<UIVector, IVector, uint32, 3>(c, "uint32x3");
  case 17: return integral<UIVector4, V4ScalarType<int32>, uint32, 4>(c, "uint32x4");
  case 18: return floating<Vector2, 2>(c, "floatx2");
  case 19: {
    floating<Vector, 3>(c, "floatx3");
    Arith<Vector, float, 3> x("floatx3", c, true);
    return x.cross();
  }
  default: return floating<Vector4, 4>(c, "floatx4");
  }
}

static uint32_t ub(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
MON_SECTION(simdFloat, 8000, 160000) {
  const char *name = "simd float";
  auto &r = c.rng;
  floating<Vector4A16, 4>(c, name);
  Arith<Vector4A16, float, 4> x(name, c, true);
  x.cross();
  const float *a = x.a, *b = x.b;
  Vector4A16 A = x.A, B = x.B;
  // bit operators
#define BITS(op, what)                                                                                                 \
  {                                                                                                                    \
    Vector4A16 r1 = A op B, r2 = A, r3 = A op x.s, r4 = A;                                                             \
    r2 op## = B, r4 op## = x.s;                                                                                        \
    for (int i = 0; i < 4; i++)                                                                                        \
      CHECK(ub(r1._arr[i]) == (ub(a[i]) op ub(b[i])) && ub(r2._arr[i]) == (ub(a[i]) op ub(b[i])) &&                    \
                ub(r3._arr[i]) == (ub(a[i]) op ub(x.s)) && ub(r4._arr[i]) == (ub(a[i]) op ub(x.s)),                    \
            what, "lane %d of %s " what, i, name);                                                                     \
  }
  BITS(&, "&")
  BITS(|, "|")
  BITS(^, "^")
  const Vector4A16 inv = ~A;
  for (int i = 0; i < 4; i++)
    CHECK(ub(inv._arr[i]) == ~ub(a[i]), "~", "lane %d", i);
  // order holds when it holds in all lanes
  bool lt = true, gt = true;
  for (int i = 0; i < 4; i++)
    lt = lt && a[i] < b[i], gt = gt && a[i] > b[i];
  CHECK((A < B) == lt && (A > B) == gt, "order", "%s %s", show<Vector4A16, 4>(A).c_str(), show<Vector4A16, 4>(B).c_str());
  Vector4A16 hi = A + (r.unit() + 0.01f + std::fabs(x.s) + 1e5f * 0);
  bool above = true;
  for (int i = 0; i < 4; i++)
    above = above && hi._arr[i] > a[i];
  if (above) {
    CHECK(A < hi && A <= hi && hi > A && hi >= A && !(A > hi) && !(hi < A), "order", "%s %s", show<Vector4A16, 4>(A).c_str(), show<Vector4A16, 4>(hi).c_str());
    event("ordered");
  }
  CHECK(A <= A && A >= A && !(A < A) && !(A > A), "order", "%s", show<Vector4A16, 4>(A).c_str());
  CHECK((A < x.s) == (A < Vector4A16(x.s)) && (A > x.s) == (A > Vector4A16(x.s)) && (A <= x.s) == (A <= Vector4A16(x.s)) && (A >= x.s) == (A >= Vector4A16(x.s)), "order", "single");
  // sign of any lane
  Vector4A16 sg = A;
  bool neg = false;
  for (int i = 0; i < 4; i++) {
    if (sg._arr[i] == 0)
      sg._arr[i] = 1;
    neg = neg || sg._arr[i] < 0;
  }
  CHECK(sg.Sign() == (neg ? -1 : 1), "sign", "%s", show<Vector4A16, 4>(sg).c_str());
  // dot in every lane
  const Vector4A16 dv = A.DotV(B);
  double mag, d = x.dotRef(mag);
  for (int i = 0; i < 4; i++)
    CHECK(std::fabs(dv._arr[i] - d) <= mag * 1e-6 + 1e-30, "dot lanes", "lane %d is %.9g, not %.9g", i, dv._arr[i], d);
  const Vector4A16 before = A, n1 = A.Normalized();
  Vector4A16 n2 = A;
  n2.Normalize();
  CHECK(!memcmp(&n1, &n2, 16) && !memcmp(&A, &before, 16), "normalized", "%s", show<Vector4A16, 4>(A).c_str());
  // conversions
  const float w = r.unit();
  const Vector v3(a[0], a[1], a[2]);
  const Vector4 v4(a[0], a[1], a[2], a[3]);
  const Vector4A16 f3(v3, w), f4(v4), f5(a[0], a[1], a[2], a[3]);
  const Vector back3 = f4;
  const Vector2 back2 = f4;
  const Vector2 v32 = v3;
  const Vector4 up = v3;
  CHECK(f3.X == a[0] && f3.Y == a[1] && f3.Z == a[2] && f3.W == w, "from vector", "%s", show<Vector4A16, 4>(f3).c_str());
  CHECK(!memcmp(&f4, a, 16) && !memcmp(&f5, a, 16) && !memcmp(&back3, a, 12) && !memcmp(&back2, a, 8) && !memcmp(&v32, a, 8) && !memcmp(&up, a, 12) && up.W == 0,
        "conversion", "%s", show<Vector4A16, 4>(f4).c_str());
  const IVector4A16 iv(Vector4A16(a[0], a[1], std::fmod(a[2], 1000.f) + 0.5f, a[3]));
  const float av[4] = {a[0], a[1], std::fmod(a[2], 1000.f) + 0.5f, a[3]};
  for (int i = 0; i < 4; i++)
    CHECK(iv._arr[i] == int(std::nearbyint(av[i])), "to integers", "%.9g gives %d", av[i], iv._arr[i]);
  // quaternions
  const Vector4A16 q = A.QConjugate();
  CHECK(q.X == -a[0] && q.Y == -a[1] && q.Z == -a[2] && q.W == a[3], "conjugate", "%s", show<Vector4A16, 4>(q).c_str());
  float u[4];
  double l = 0;
  for (int i = 0; i < 4; i++)
    u[i] = float(r.unit() * 2 - 1), l += double(u[i]) * u[i];
  l = std::sqrt(l);
  if (l > 0.1) {
    const int k = r.below(4);
    for (auto &f : u)
      f = float(f / l);
    u[k] = std::fabs(u[k]);
    Vector4A16 in(u[0], u[1], u[2], u[3]);
    in._arr[k] = 0;
    Vector4A16 o1 = in, o2 = in;
    k == 0 ? o1.QComputeElement<0>() : k == 1 ? o1.QComputeElement<1>() : k == 2 ? o1.QComputeElement<2>() : o1.QComputeElement();
    o2.QComputeElementVar(k);
    for (int i = 0; i < 4; i++) {
      const double tol = i == k ? (u[k] > 0.05 ? 1e-5 : 2e-3) : 0;
      CHECK((i == k && u[k] < 1e-3) || (std::fabs(o1._arr[i] - u[i]) <= tol && std::fabs(o2._arr[i] - u[i]) <= tol), "compute element",
            "element %d of %s: %s and %s", k, show<Vector4A16, 4>(in).c_str(), show<Vector4A16, 4>(o1).c_str(), show<Vector4A16, 4>(o2).c_str());
    }
    event("quaternions");
  }
  // tolerance of comparison
  const float eps = float(std::pow(10.0, -int(1 + r.below(5))));
  Vector4A16::SetEpsilon(eps);
  const int k = r.below(4);
  Vector4A16 p(float(r.unit()), float(r.unit()), 0, 1), in = p, out = p;
  const float dir = r.chance(1, 2) ? 1.f : -1.f;
  in._arr[k] += dir * eps * 0.7f;
  out._arr[k] += dir * eps * 1.5f;
  CHECK(p == in && in == p && !(p != in) && p <= in && p >= in, "tolerance", "%s and %s at %g", show<Vector4A16, 4>(p).c_str(), show<Vector4A16, 4>(in).c_str(), eps);
  CHECK(p != out && out != p && !(p == out), "tolerance", "%s and %s at %g", show<Vector4A16, 4>(p).c_str(), show<Vector4A16, 4>(out).c_str(), eps);
  Vector4A16::SetEpsilon(FLT_EPSILON);
  event("tolerance");
}

template <class V, class SVt, class T> static void simdInt(Case &c, const char *name) {
  auto &r = c.rng;
  Arith<V, T, 4> x(name, c, false);
  x.basics();
  x.bits();
  x.texts();
  x.scalarShifts();
  const T *a = x.a, *b = x.b;
  V A, B;
  Arith<V, T, 4> y(name, c, false);
  a = y.a, b = y.b;
  A = y.A, B = y.B;
  // all bit patterns; right shift keeps the sign of signed lanes
  const int sh = r.below(32);
  V rs = A >> sh, ls = A << sh, e = A, rs2 = A, ls2 = A, nt = ~A, ex = A ^ B;
  e ^= B;
  rs2 >>= sh, ls2 <<= sh;
  for (int i = 0; i < 4; i++)
    CHECK(T(rs._arr[i]) == T(a[i] >> sh) && uint32_t(ls._arr[i]) == uint32_t(a[i]) << sh && T(e._arr[i]) == T(a[i] ^ b[i]) && T(ex._arr[i]) == T(a[i] ^ b[i]) &&
              rs2._arr[i] == rs._arr[i] && ls2._arr[i] == ls._arr[i] && T(nt._arr[i]) == T(~a[i]),
          "bits", "%s lane %d: %x by %d", name, i, uint32_t(a[i]), sh);
  V f(SVt(a[0], a[1], a[2], a[3])), g(a[0], a[1], a[2], a[3]);
  CHECK(!memcmp(&f, a, 16) && !memcmp(&g, a, 16), "conversion", "%s", show<V, 4>(f).c_str());
  // to floats; unsigned lanes up to the top bit
  V m = A & T(0x7fffffff);
  const Vector4A16 fl(m);
  for (int i = 0; i < 4; i++)
    CHECK(fl._arr[i] == float(m._arr[i]), "to floats", "%s lane %d: %g gives %g", name, i, double(m._arr[i]), fl._arr[i]);
  IVector4A16 si = A;
  UIVector4A16 ui = A;
  CHECK(!memcmp(&si, &A, 16) && !memcmp(&ui, &A, 16), "signedness", "%s", name);
  x.convert();
}
MON_SECTION(simdInts, 6000, 120000) {
  if (c.idx & 1)
    simdInt<IVector4A16, IVector4, int32>(c, "simd int");
  else
    simdInt<UIVector4A16, UIVector4, uint32>(c, "simd uint");
}
MON_MAIN
