// C07: reflected writes stay inside the addressed member, whatever the id, index or text.
#include "refl_text.hpp"
using namespace mon;
using ET = Reflector::ErrorType;
// any size a float can hold
static double wideNumber(Rng &r) {
  double d = r.chance(1, 2) ? r.uniform(-1e6, 1e6) : ldexp(r.uniform(-1, 1), int(r.range(-120, 127)));
  return fabs(d) > 1e-35 ? d : 0;
}

struct Region {
  size_t b = 0, e = 0;
  uint64 bits = ~0ull; // for bit field members: which bits of the word may change
  bool valid = false;
};
struct Wrap {
  Reflector &r;
};

static std::string diff(const std::string &a, const std::string &b, const Region &g, bool bitwise) {
  for (size_t i = 0; i < a.size(); i++) {
    unsigned char x = (unsigned char)(a[i] ^ b[i]);
    if (!x)
      continue;
    if (g.valid && i >= g.b && i < g.e) {
      if (!bitwise)
        continue;
      size_t sh = (i - g.b) * 8;
      if (!(x & ~(unsigned char)(g.bits >> sh)))
        continue;
    }
    std::string nm = "padding";
    for (auto &m : rcMembers())
      if (i >= m.off && i < m.off + m.size * (m.n ? m.n : 1))
        nm = m.name;
    return fmt("byte %zu (%s) %02x -> %02x", i, nm.c_str(), (unsigned char)a[i], (unsigned char)b[i]);
  }
  return "";
}

static size_t rndIndex(Rng &r, size_t n) {
  switch (r.below(6)) {
  case 0: return n;
  case 1: return n + r.below(5);
  case 2: return r.chance(1, 3) ? size_t(r.u64()) : size_t(r.below(300));
  default: return n ? r.below(n) : 0;
  }
}

static MK elemNumKind(const Mem &m) { return m.kind; }

MON_SECTION(confine, 6000, 300000) {
  quietPrinter();
  auto &r = c.rng;
  ObjBox box(r);
  auto &ms = rcMembers();
  Reflector &direct = *box.o;
  ReflectedInstance inst(GetReflectedClass<RC>(), box.o);
  ReflectorPureWrap pure(inst);
  ReflectorWrap<RC> wrap(*box.o);
  std::string log;
  for (int k = 0; k < 12; k++) {
    Reflector &o = r.chance(1, 2) ? direct : r.chance(1, 2) ? static_cast<Reflector &>(pure) : wrap;
    size_t id = r.chance(1, 12) ? ms.size() + r.below(300) : r.below(ms.size());
    const Mem *m = id < ms.size() ? &ms[id] : nullptr;
    bool byHash = m && r.chance(1, 2);
    JenHash hash = m ? JenHash(es::string_view(m->hasAlias && r.chance(1, 2) ? m->alias : m->name)) : JenHash(0u);
    if (!m && r.chance(1, 2)) {
      byHash = true;
      std::string nm = r.text(r.below(6));
      bool clash = false;
      for (auto &x : ms)
        clash = clash || x.name == nm || x.alias == nm;
      if (clash)
        continue;
      hash = JenHash(es::string_view(nm));
    }
    int op = int(r.below(8));
    Region g;
    bool bitwise = false;
    ET err = ET::None;
    std::string desc;
    std::string before = box.raw();
    auto str0 = box.strings();
    size_t sub = 0, el = 0;
    if (op < 3) {
      Exact t(genText(r, m));
      desc = fmt("set(%s, '%s')", m ? m->name.c_str() : "?", esc(t.str()).c_str());
      note(log + desc);
      es::string_view sv(t.p, t.n);
      err = byHash ? o.SetReflectedValue(hash, sv) : o.SetReflectedValue(id, sv);
      if (m && m->kind != MK::Class && m->kind != MK::Bits && m->kind != MK::CStr) {
        g.valid = true;
        g.b = m->off;
        g.e = m->off + m->size * (m->n ? m->n : 1);
      }
      if (!m)
        CHECK(err == ET::InvalidDestination, "unknown-set", "%s -> %s", desc.c_str(), errName(err));
      event(err == ET::None ? "text-accepted" : "text-rejected");
    } else if (op == 3) {
      size_t n = m ? (m->n ? m->n : m->kind == MK::Flags ? m->size * 8 : m->vn) : 0;
      sub = rndIndex(r, n);
      Mem tmp;
      const Mem *tm = m;
      if (m) {
        tmp = *m;
        tmp.n = 0;
        if (!m->n && m->kind == MK::Vec) {
          tmp.kind = m->vkind;
          tmp.vn = 0;
        }
        if (!m->n && m->kind == MK::Flags)
          tmp.kind = MK::Bool;
        tm = &tmp;
      }
      Exact t(genText(r, tm));
      desc = fmt("set(%s, '%s', %zu)", m ? m->name.c_str() : "?", esc(t.str()).c_str(), sub);
      note(log + desc);
      es::string_view sv(t.p, t.n);
      err = byHash ? o.SetReflectedValue(hash, sv, sub) : o.SetReflectedValue(id, sv, sub);
      if (m && sub < n && m->kind != MK::Class && m->kind != MK::Bits && m->kind != MK::CStr) {
        g.valid = true;
        if (m->n || m->kind == MK::Flags) {
          g.b = m->off + (m->n ? m->size * sub : 0);
          g.e = g.b + m->size;
          if (!m->n) {
            bitwise = true;
            g.bits = 1ull << sub;
          }
        } else {
          g.b = m->off + m->vsize * sub;
          g.e = g.b + m->vsize;
        }
      }
      if (!m || sub >= n)
        CHECK(err != ET::None, "bad-index-accepted", "%s -> None", desc.c_str());
      event(m && sub < n ? "indexed-in" : "indexed-out");
    } else if (op == 4) {
      size_t n = m ? m->n : 0;
      sub = rndIndex(r, n);
      el = rndIndex(r, m ? m->vn : 0);
      Mem tmp;
      const Mem *tm = m;
      if (m) {
        tmp = *m;
        tmp.n = 0;
        if (m->kind == MK::Vec)
          tmp.kind = m->vkind;
        tm = &tmp;
      }
      Exact t(genText(r, tm));
      desc = fmt("set(%s, '%s', %zu, %zu)", m ? m->name.c_str() : "?", esc(t.str()).c_str(), sub, el);
      note(log + desc);
      es::string_view sv(t.p, t.n);
      err = byHash ? o.SetReflectedValue(hash, sv, sub, el) : o.SetReflectedValue(id, sv, sub, el);
      if (m && m->n && m->kind == MK::Vec && sub < n && el < m->vn) {
        g.valid = true;
        g.b = m->off + m->size * sub + m->vsize * el;
        g.e = g.b + m->vsize;
        event("element-in");
      } else {
        CHECK(err != ET::None, "bad-element-accepted", "%s -> None", desc.c_str());
        event("element-out");
      }
    } else if (op == 5) {
      size_t n = m ? (m->n ? m->n : m->kind == MK::Vec ? m->vn : 1) : 0;
      sub = rndIndex(r, n);
      int which = int(r.below(3));
      uint64 v = r.edgy(64);
      double d = wideNumber(r);
      desc = fmt("setnum%d(%s, %llx, %zu)", which, m ? m->name.c_str() : "?", (unsigned long long)v, sub);
      note(log + desc);
      if (which == 0)
        err = byHash ? o.SetReflectedValueInt(hash, int64(v), sub) : o.SetReflectedValueInt(id, int64(v), sub);
      else if (which == 1)
        err = byHash ? o.SetReflectedValueUInt(hash, v, sub) : o.SetReflectedValueUInt(id, v, sub);
      else
        err = byHash ? o.SetReflectedValueFloat(hash, d, sub) : o.SetReflectedValueFloat(id, d, sub);
      bool ok = false;
      if (m && sub < n) {
        MK want = which == 0 ? MK::Int : which == 1 ? MK::UInt : MK::Float;
        size_t esz = m->size, eoff = m->off + sub * m->size;
        MK have = elemNumKind(*m);
        if (have == MK::Vec && !m->n) {
          have = m->vkind;
          esz = m->vsize;
          eoff = m->off + sub * m->vsize;
        }
        ok = have == want;
        if (ok) {
          g.valid = true;
          g.b = eoff;
          g.e = eoff + esz;
          char want8[8];
          if (which < 2)
            memcpy(want8, &v, 8);
          else if (esz == 4) {
            float f = float(d);
            memcpy(want8, &f, 4);
          } else
            memcpy(want8, &d, 8);
          CHECK(!memcmp((char *)box.block + g.b, want8, esz), "number-not-stored", "%s", desc.c_str());
        }
      }
      CHECK((err == ET::None) == ok, "number-code", "%s -> %s, want %s", desc.c_str(), errName(err), ok ? "None" : "error");
      event(ok ? "numeric-in" : "numeric-out");
    } else if (op == 6 && m && (m->kind == MK::Class || m->kind == MK::Bits)) {
      // through a nested class
      size_t n = m->n ? m->n : 1;
      sub = rndIndex(r, n);
      desc = fmt("sub(%s, %zu)", m->name.c_str(), sub);
      note(log + desc);
      ReflectedInstance si = byHash ? o.GetReflectedSubClass(hash, sub) : o.GetReflectedSubClass(id, sub);
      bool ok = sub < n && m->clsRegistered;
      CHECKR(present(si) == ok, "subclass-presence", "%s present %d want %d", desc.c_str(), int(present(si)), ok);
      if (ok) {
        ReflectorPureWrap pw(si);
        size_t base = m->off + m->size * sub;
        Exact t(r.chance(1, 3) ? genArray(r) : genNumber(r));
        es::string_view sv(t.p, t.n);
        if (m->kind == MK::Bits) {
          static const std::map<std::string, std::vector<size_t>> widths{
              {"Bits8", {3, 4, 1}}, {"Bits16", {2, 5, 9}}, {"Bits32", {31, 1}}, {"Bits64", {20, 1, 33, 9}}};
          const auto &w = widths.at(m->cls);
          const size_t nb = w.size();
          size_t mi = rndIndex(r, nb);
          desc += fmt(".bits(%zu,'%s')", mi, esc(t.str()).c_str());
          note(log + desc);
          err = pw.SetReflectedValue(mi, sv);
          if (mi < nb) {
            size_t pos = 0;
            for (size_t i = 0; i < mi; i++)
              pos += w[i];
            g.valid = bitwise = true;
            g.b = base;
            g.e = base + m->size;
            g.bits = ((1ull << w[mi]) - 1) << pos;
          } else
            CHECK(err != ET::None, "unknown-set", "%s", desc.c_str());
          event("bitmember-sets");
        } else {
          size_t mi = rndIndex(r, 3);
          desc += fmt(".m(%zu,'%s')", mi, esc(t.str()).c_str());
          note(log + desc);
          err = pw.SetReflectedValue(mi, sv);
          static const size_t so[] = {offsetof(SubR, sx), offsetof(SubR, sy), offsetof(SubR, sz)}, ss[] = {4, 4, 3};
          if (mi >= 3)
            CHECK(err != ET::None, "unknown-set", "%s", desc.c_str());
          else if (!strcmp(m->cls, "SubR")) {
            g.valid = true;
            g.b = base + so[mi];
            g.e = g.b + ss[mi];
          } else if (mi == 0) {
            g.valid = true;
            g.b = base;
            g.e = base + 2;
          }
          event("nested-sets");
        }
      }
    } else {
      sub = rndIndex(r, m ? m->n + m->vn : 0);
      el = rndIndex(r, m ? m->vn : 0);
      desc = fmt("get(%s,%zu,%zu)", m ? m->name.c_str() : "?", sub, el);
      note(log + desc);
      Reflector::KVPairFormat kf;
      kf.aliasName = r.chance(1, 2);
      kf.formatValue = r.chance(1, 2);
      size_t total = 0;
      if (byHash) {
        total += o.GetReflectedValue(hash).size() + o.GetReflectedValue(hash, sub).size() +
                 o.GetReflectedValue(hash, sub, el).size() + o.GetReflectedPair(hash, kf).value.size() + o.IsArray(hash) +
                 o.IsReflectedSubClass(hash) + present(o.GetReflectedSubClass(hash, sub));
      } else {
        total += o.GetReflectedValue(id).size() + o.GetReflectedValue(id, sub).size() +
                 o.GetReflectedValue(id, sub, el).size() + o.GetReflectedPair(id, kf).value.size() + o.IsArray(id) +
                 o.IsReflectedSubClass(id) + present(o.GetReflectedSubClass(id, sub));
      }
      if (!m)
        CHECK(total == 0, "unknown-get", "%s gives something", desc.c_str());
      event("gets");
    }
    std::string d = diff(before, box.raw(), g, bitwise);
    CHECKR(d.empty(), "outside-changed", "%s -> %s: %s", desc.c_str(), errName(err), d.c_str());
    auto str1 = box.strings();
    for (size_t i = 0; i < 3; i++) {
      bool touched = m && m->kind == MK::Str && (m->n != 0) == (i != 0);
      CHECK(touched || str0[i] == str1[i], "string-changed", "%s changed string %zu", desc.c_str(), i);
    }
    log += desc + "; ";
    if (log.size() > 1500)
      log.clear();
    distinct(desc);
    if (k == 3)
      sample(desc + " -> " + errName(err));
  }
}

// Every index of every member (one case per member) through every setter that takes an index.
MON_SECTION(everyindex, 76, 76) {
  quietPrinter();
  auto &r = c.rng;
  auto &ms = rcMembers();
  size_t id = c.idx;
  if (id >= ms.size())
    return;
  const Mem &m = ms[id];
  ObjBox box(r);
  Reflector &direct = *box.o;
  ReflectedInstance inst(GetReflectedClass<RC>(), box.o);
  ReflectorPureWrap pure(inst);
  size_t n = m.n ? m.n : m.kind == MK::Flags ? m.size * 8 : m.kind == MK::Vec ? m.vn : 1;
  for (size_t sub = 0; sub <= n; sub++)
    for (int how = 0; how < 14; how++) {
      bool byHash = how & 1;
      Reflector &o = r.chance(1, 2) ? direct : static_cast<Reflector &>(pure);
      JenHash hash(es::string_view(m.hasAlias && r.chance(1, 2) ? m.alias : m.name));
      std::string before = box.raw();
      auto str0 = box.strings();
      Region g;
      bool bitwise = false;
      ET err = ET::None;
      int op = how / 2;
      std::string desc = fmt("op %d %s %s[%zu]", op, byHash ? "by name" : "by position", m.name.c_str(), sub);
      size_t esz = m.size, eoff = m.off + sub * m.size;
      MK have = m.kind;
      if (have == MK::Vec && !m.n) {
        have = m.vkind;
        esz = m.vsize;
        eoff = m.off + sub * m.vsize;
      }
      if (op < 3) {
        if (!m.n && m.kind == MK::Flags && sub)
          continue;
        // a value whose every byte differs from what is there
        uint64 v = 0;
        double d = wideNumber(r);
        size_t lim = m.n ? m.n : m.kind == MK::Vec ? m.vn : 1;
        char old[8]{};
        if (sub < lim && esz <= 8)
          memcpy(old, before.data() + eoff, esz);
        memcpy(&v, old, 8);
        v = ~v;
        note(desc);
        if (op == 0)
          err = byHash ? o.SetReflectedValueInt(hash, int64(v), sub) : o.SetReflectedValueInt(id, int64(v), sub);
        else if (op == 1)
          err = byHash ? o.SetReflectedValueUInt(hash, v, sub) : o.SetReflectedValueUInt(id, v, sub);
        else
          err = byHash ? o.SetReflectedValueFloat(hash, d, sub) : o.SetReflectedValueFloat(id, d, sub);
        bool ok = sub < lim && have == (op == 0 ? MK::Int : op == 1 ? MK::UInt : MK::Float);
        if (ok) {
          g.valid = true;
          g.b = eoff;
          g.e = eoff + esz;
          char want[8];
          float f = float(d);
          if (op < 2)
            memcpy(want, &v, 8);
          else if (esz == 4)
            memcpy(want, &f, 4);
          else
            memcpy(want, &d, 8);
          CHECK(!memcmp((char *)box.block + g.b, want, esz), "number-not-stored", "%s", desc.c_str());
          event("every-index-numbers");
        }
        CHECK((err == ET::None) == ok, "number-code", "%s -> %s, want %s", desc.c_str(), errName(err), ok ? "None" : "error");
      } else if (op < 5) {
        Mem tmp = m;
        tmp.n = 0;
        if (!m.n && m.kind == MK::Vec) {
          tmp.kind = m.vkind;
          tmp.vn = 0;
        }
        if (!m.n && m.kind == MK::Flags)
          tmp.kind = MK::Bool;
        Exact t(genText(r, &tmp));
        desc += " '" + esc(t.str()) + "'";
        note(desc);
        es::string_view sv(t.p, t.n);
        err = byHash ? o.SetReflectedValue(hash, sv, sub) : o.SetReflectedValue(id, sv, sub);
        if (sub < n && m.kind != MK::Class && m.kind != MK::Bits && m.kind != MK::CStr) {
          g.valid = true;
          g.b = eoff;
          g.e = eoff + esz;
          if (!m.n && m.kind == MK::Flags) {
            g.b = m.off;
            g.e = m.off + m.size;
            bitwise = true;
            g.bits = 1ull << sub;
          }
          event("every-index-texts");
        }
        CHECK(sub < n || err != ET::None, "bad-index-accepted", "%s -> None", desc.c_str());
      } else if (op == 5) {
        size_t el = r.below(m.vn + 1);
        Mem tmp = m;
        tmp.n = 0;
        if (m.kind == MK::Vec)
          tmp.kind = m.vkind;
        Exact t(genText(r, &tmp));
        desc += fmt("[%zu] '%s'", el, esc(t.str()).c_str());
        note(desc);
        es::string_view sv(t.p, t.n);
        err = byHash ? o.SetReflectedValue(hash, sv, sub, el) : o.SetReflectedValue(id, sv, sub, el);
        if (m.n && m.kind == MK::Vec && sub < n && el < m.vn) {
          g.valid = true;
          g.b = m.off + m.size * sub + m.vsize * el;
          g.e = g.b + m.vsize;
          event("every-index-elements");
        } else
          CHECK(err != ET::None, "bad-element-accepted", "%s -> None", desc.c_str());
      } else {
        size_t lim = m.n ? m.n : 1;
        bool ok = sub < lim && (m.kind == MK::Class || m.kind == MK::Bits) && m.clsRegistered;
        note(desc);
        ReflectedInstance si = byHash ? o.GetReflectedSubClass(hash, sub) : o.GetReflectedSubClass(id, sub);
        CHECK(present(si) == ok, "subclass-presence", "%s present %d want %d", desc.c_str(), int(present(si)), ok);
        if (ok) {
          CHECK((char *)instOf(si) == (char *)box.block + eoff, "subclass-place", "%s is %td bytes in, want %zu", desc.c_str(),
                (char *)instOf(si) - (char *)box.block, eoff);
          event("every-index-classes");
        }
      }
      std::string d = diff(before, box.raw(), g, bitwise);
      CHECK(d.empty(), "outside-changed", "%s -> %s: %s", desc.c_str(), errName(err), d.c_str());
      if (!d.empty())
        return;
      auto str1 = box.strings();
      for (size_t i = 0; i < 3; i++) {
        bool touched = m.kind == MK::Str && (m.n != 0) == (i != 0) && (!m.n || op > 4 || sub + 1 == i);
        CHECK(touched || str0[i] == str1[i], "string-changed", "%s changed string %zu", desc.c_str(), i);
      }
      eval(1);
    }
  distinct(m.name);
}

// Bit field objects of every width alone in their own exact heap block.
template <class B> static void bits(Case &c, std::vector<size_t> w, const char *nm) {
  auto &r = c.rng;
  refRegister();
  quietPrinter();
  Exact blk(sizeof(B));
  std::string init = r.bytes(sizeof(B));
  memcpy(blk.p, init.data(), init.size());
  ReflectedInstance inst(GetReflectedClass<B>(), blk.p);
  ReflectorPureWrap o(inst);
  for (int k = 0; k < 8; k++) {
    uint64 before = 0, after = 0;
    memcpy(&before, blk.p, sizeof(B));
    size_t i = rndIndex(r, w.size()), pos = 0;
    Exact t(r.chance(1, 8) ? genScalar(r) : genNumber(r));
    note(fmt("%s %zu '%s'", nm, i, esc(t.str()).c_str()));
    ET e = o.SetReflectedValue(i, es::string_view(t.p, t.n));
    (void)o.GetReflectedValue(i);
    memcpy(&after, blk.p, sizeof(B));
    uint64 mask = 0;
    if (i < w.size()) {
      for (size_t j = 0; j < i; j++)
        pos += w[j];
      mask = (w[i] == 64 ? ~0ull : (1ull << w[i]) - 1) << pos;
    }
    CHECK(((before ^ after) & ~mask) == 0, "bits-outside", "%s member %zu '%s' -> %s: %llx -> %llx", nm, i,
          esc(t.str()).c_str(), errName(e), (unsigned long long)before, (unsigned long long)after);
    CHECK((i < w.size()) || e == ET::InvalidDestination, "bits-unknown", "%s %zu", nm, i);
    distinct(fmt("%s %zu %s", nm, i, t.str().c_str()));
    event("bit-sets");
  }
}
MON_SECTION(bitobjects, 1500, 60000) {
  switch (c.idx % 4) {
  case 0: return bits<Bits8>(c, {3, 4, 1}, "Bits8");
  case 1: return bits<Bits16>(c, {2, 5, 9}, "Bits16");
  case 2: return bits<Bits32>(c, {31, 1}, "Bits32");
  default: return bits<Bits64>(c, {20, 1, 33, 9}, "Bits64");
  }
}
MON_MAIN
