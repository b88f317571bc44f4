// C18: path splitting.
#include "datas/fileinfo.hpp"
#include "mon.hpp"
#include <memory>
using namespace mon;

template <class C> static std::basic_string<C> conv(const std::string &s) {
  return std::basic_string<C>(s.begin(), s.end());
}
template <class C> static std::string narrow(const C &v) { return std::string(v.begin(), v.end()); }

static std::string randomPath(Rng &r) {
  static const char *const parts[] = {"a",    "b.c", ".hid", "..",  ".",    "x.tar.gz", "name.",  "Program Data", "C:",
                                      "home", "usr", "",     "...", "f.e.", "\xc5\xbe.\xc4\x8d", "long-folder-name.with.dots", "-"};
  std::string p;
  size_t n = r.below(6);
  if (r.chance(1, 2))
    p += r.chance(1, 3) ? '\\' : '/';
  for (size_t i = 0; i < n; i++) {
    if (r.chance(1, 5)) {
      size_t l = r.below(8);
      for (size_t k = 0; k < l; k++)
        p += r.pick(std::string("abz.. -_7"));
    } else
      p += parts[r.below(sizeof(parts) / sizeof(*parts))];
    if (i + 1 < n || r.chance(1, 3))
      p += r.chance(1, 3) ? '\\' : '/';
  }
  if (r.chance(1, 60)) {
    std::string many;
    for (unsigned k = 30 + r.below(600); k; k--) {
      many += r.pick(std::string("abz."));
      many += r.chance(1, 9) ? "//" : "/";
    }
    p = r.chance(1, 2) ? many + p : p + "/" + many;
    event("many-parts");
  }
  if (r.chance(1, 10))
    p += "/" + std::string(1 + r.below(300), 'q') + ".ext";
  if (r.chance(1, 300)) {
    const size_t more = 1 + r.below(r.chance(1, 3) ? 140000 : 3000);
    std::string big;
    for (unsigned k = 1 + r.below(12); k; k--)
      big += std::string(r.below(1 + unsigned(more / 6)), 'w') + r.pick(std::string("/\\.-"));
    p = r.chance(1, 2) ? big + p : p + big;
    event("long-paths");
  }
  return p;
}

struct Ref {
  std::string full, folder, name, ext;
  std::vector<std::string> parts;
};
static Ref reference(std::string p) {
  Ref o;
  for (auto &c : p)
    if (c == '\\')
      c = '/';
  o.full = p;
  std::string file;
  for (char c : p)
    if (file += c, c == '/')
      o.folder += file, file.clear();
  // the extension starts at the last dot of the file name, unless the whole path is a dot name
  size_t dot = file.size();
  for (size_t i = 0; i < file.size(); i++)
    if (file[i] == '.' && o.folder.size() + i > 0)
      dot = i;
  if (dot != file.size() && o.folder.empty() && file.find_last_of('.') == 0)
    dot = file.size();
  o.name = file.substr(0, dot);
  o.ext = file.substr(dot);
  std::string cur;
  for (size_t i = 0; i < p.size(); i++) {
    if (p[i] != '/')
      cur += p[i];
    else if (i)
      o.parts.push_back(cur), cur.clear();
  }
  if (!cur.empty())
    o.parts.push_back(cur);
  return o;
}

template <class C> static void compare(const FileInfo<C> &f, const std::string &p, const char *how) {
  const Ref e = reference(p);
  auto same = [&](const char *what, auto got, const std::string &want) {
    CHECK(narrow(got) == want, what, "%s of '%s' (%s) is '%s', not '%s'", what, esc(p).c_str(), how, esc(narrow(got)).c_str(),
          esc(want).c_str());
  };
  same("full path", f.GetFullPath(), e.full);
  same("folder", f.GetFolder(), e.folder);
  same("file name", f.GetFilename(), e.name);
  same("extension", f.GetExtension(), e.ext);
  same("file name with extension", f.GetFilenameExt(), e.name + e.ext);
  same("full path without extension", f.GetFullPathNoExt(), e.folder + e.name);
  auto x = f.Explode();
  bool eq = x.size() == e.parts.size();
  std::string got;
  for (size_t i = 0; i < x.size(); i++) {
    got += "[" + std::string(x[i].begin(), x[i].end()) + "]";
    eq = eq && std::string(x[i].begin(), x[i].end()) == e.parts[i];
  }
  CHECK(eq, "explode", "parts of '%s' (%s) are %s", esc(p).c_str(), how, esc(got).c_str());
  if (e.folder.find('.') != e.folder.npos)
    event("dots-in-folders");
  if (!e.ext.empty())
    event("extensions");
  if (x.empty())
    event("no-parts");
}

template <class C> static void one(Case &c, const char *kind) {
  auto &r = c.rng;
  using F = FileInfo<C>;
  const std::string p = randomPath(r);
  note(fmt("%s '%s'", kind, esc(p).c_str()));
  // path in memory of exactly its size
  std::unique_ptr<C[]> raw(new C[p.size()]);
  for (size_t i = 0; i < p.size(); i++)
    raw[i] = C((unsigned char)p[i] < 128 || sizeof(C) == 1 ? p[i] : 'n');
  std::string q = p;
  if (sizeof(C) > 1)
    for (auto &ch : q)
      if ((unsigned char)ch >= 128)
        ch = 'n';
  es::basic_string_view<C> in(raw.get(), p.size());
  switch (r.below(5)) {
  case 0: {
    F f(in);
    raw.reset();
    compare(f, q, "constructed");
    break;
  }
  case 1: {
    F f;
    compare(f, "", "default");
    f.Load(in);
    compare(f, q, "loaded");
    break;
  }
  case 2: {
    F f;
    std::string before = randomPath(r);
    for (auto &ch : before)
      if ((unsigned char)ch >= 128)
        ch = 'n';
    auto w = conv<C>(before);
    f.Load(w);
    f.Load(in);
    compare(f, q, "loaded over");
    event("reload");
    // over itself: one of its own parts
    const Ref e = reference(q);
    switch (r.below(5)) {
    case 0: f.Load(f.GetFolder()), compare(f, e.folder, "loaded from its folder"); break;
    case 1: f.Load(f.GetFilenameExt()), compare(f, e.name + e.ext, "loaded from its file name"); break;
    case 2: f.Load(f.GetFullPathNoExt()), compare(f, e.folder + e.name, "loaded without its extension"); break;
    case 3: f.Load(f.GetExtension()), compare(f, e.ext, "loaded from its extension"); break;
    default: f.Load(f.GetFullPath()), compare(f, q, "loaded from itself");
    }
    event("own-parts");
    break;
  }
  case 3: {
    std::unique_ptr<F> f(new F(in));
    F g(*f), h;
    h = *f;
    f.reset();
    compare(g, q, "copied");
    compare(h, q, "assigned");
    event("copies");
    break;
  }
  default: {
    std::vector<F> v;
    for (int i = 0; i < 5; i++) // moves on growth
      v.emplace_back(in);
    F m(std::move(v[2]));
    v.erase(v.begin());
    compare(m, q, "moved");
    compare(v[0], q, "moved in vector");
    event("moves");
  }
  }
  distinct(hashBytes(q.data(), q.size(), sizeof(C)));
  event(kind);
}
MON_SECTION(narrow, 20000, 400000) { one<char>(c, "char"); }
MON_SECTION(wide, 8000, 150000) { one<wchar_t>(c, "wchar_t"); }

// catching a branch: where the other path already walks through the first part, the branch is put there
template <class C> static void branch(Case &c) {
  auto &r = c.rng;
  // parts that do not contain each other
  std::vector<std::string> pool{"home", "user", "dev", "pkg.1", "\x01qq", "Zed x", "w", "k~k"};
  for (size_t i = pool.size() - 1; i; i--)
    std::swap(pool[i], pool[r.below(i + 1)]);
  const bool abs = r.chance(1, 2), known = r.chance(2, 3), drive = r.chance(1, 2);
  std::string fp = abs ? "/" : "";
  size_t n = 1 + r.below(3);
  for (size_t i = 0; i < n; i++)
    fp += pool[i] + (i + 1 < n || r.chance(1, 6) ? "/" : "");
  std::string pre = drive ? "C:/" : r.chance(1, 2) ? "/" : "", rest;
  size_t m = r.below(3);
  for (size_t i = 0; i < m; i++)
    pre += pool[4 + i] + "/";
  if (r.chance(1, 8)) { // long paths
    for (size_t i = 20 + r.below(200); i; i--)
      pre += "far/";
    event("branch-long");
  }
  if (known) {
    rest = pool[0] + "/";
    for (size_t i = 1; i < n && r.chance(1, 2); i++)
      rest += pool[i] + "/";
    if (r.chance(1, 4)) { // the first time counts
      for (size_t i = r.chance(1, 2) ? 0 : r.len(3, 60); i; i--)
        rest += "zz/";
      rest += pool[0] + "/";
      event("branch-twice");
    }
  }
  const std::string other = pre + rest;
  FileInfo<C> f(conv<C>(fp));
  auto o = conv<C>(other);
  std::unique_ptr<C[]> raw(new C[o.size()]);
  std::copy(o.begin(), o.end(), raw.get());
  note(fmt("'%s' at '%s'", esc(fp).c_str(), esc(other).c_str()));
  auto got = narrow(f.CatchBranch(es::basic_string_view<C>(raw.get(), o.size())));
  const Ref e = reference(fp);
  const std::string want = known ? pre + fp.substr(abs) : other + e.name + e.ext;
  CHECK(got == want, "branch", "'%s' caught at '%s': '%s', not '%s'", esc(fp).c_str(), esc(other).c_str(), esc(got).c_str(), esc(want).c_str());
  // nothing to catch
  FileInfo<C> none(conv<C>(r.chance(1, 2) ? "" : "/"));
  CHECK(narrow(none.CatchBranch(o)) == other, "empty branch", "empty path caught at '%s'", esc(other).c_str());
  event(known ? "branch-found" : "branch-new");
  distinct(hashBytes(got.data(), got.size(), 77));
}
MON_SECTION(branches, 6000, 100000) {
  if (c.rng.chance(1, 3))
    branch<wchar_t>(c);
  else
    branch<char>(c);
}
MON_MAIN
