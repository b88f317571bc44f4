// C03: stream navigation against a byte-array model.
#include "datas/binreader.hpp"
#include "datas/binwritter.hpp"
#include "mon.hpp"
#include <map>
#include <memory>
#include <sstream>
using namespace mon;

struct Model {
  size_t pos = 0, org = 0, save = 0;
};

struct B4 { char d[4]; };
struct B12 { char d[12]; };

static void readerRun(Case &c, BinReaderRef &rd, const std::string &d) {
  auto &r = c.rng;
  Model m;
  std::string log;
  int n = int(20 + r.below(60));
  for (int i = 0; i < n; i++) {
    size_t N = d.size();
    char what[80];
    switch (r.below(13)) {
    case 0:
    case 1: { // read
      size_t k = r.below(std::min<size_t>(N - m.pos, r.chance(1, 30) ? N : 40) + 1);
      std::string b(k, 0), want = d.substr(m.pos, k);
      rd.ReadBuffer(&b[0], k);
      m.pos += k;
      snprintf(what, sizeof what, "read%zu", k);
      CHECKR(b == want, "read-content", "%s %s got %s want %s", log.c_str(), what, hex(b).c_str(),
             hex(want).c_str());
      break;
    }
    case 2: { // absolute (to the origin)
      size_t p = r.below(N + 1);
      if (p < m.org)
        p = m.org;
      snprintf(what, sizeof what, "seek%zu", p - m.org);
      rd.Seek(p - m.org);
      m.pos = p;
      break;
    }
    case 3: {
      int64_t k = r.range(-int64_t(m.pos), int64_t(N - m.pos));
      snprintf(what, sizeof what, "seekcur%lld", (long long)k);
      rd.Seek(size_t(k), std::ios_base::cur);
      m.pos = size_t(int64_t(m.pos) + k);
      break;
    }
    case 4: {
      size_t k = r.below(N + 1);
      snprintf(what, sizeof what, "seekend-%zu", k);
      rd.Seek(size_t(0) - k, std::ios_base::end);
      m.pos = N - k;
      break;
    }
    case 5:
    case 6: {
      int64_t k = r.range(-int64_t(m.pos), int64_t(N - m.pos));
      snprintf(what, sizeof what, "skip%lld", (long long)k);
      rd.Skip(int(k));
      m.pos = size_t(int64_t(m.pos) + k);
      break;
    }
    case 7: {
      snprintf(what, sizeof what, "push");
      m.save = m.pos;
      size_t g = rd.Push();
      CHECKR(g == m.pos, "push-result", "%s got %zu want %zu", log.c_str(), g, m.pos);
      break;
    }
    case 8:
      snprintf(what, sizeof what, "pop");
      rd.Pop();
      m.pos = m.save;
      break;
    case 9: {
      size_t o = r.below(N + 1);
      bool sk = r.chance(1, 2);
      snprintf(what, sizeof what, "origin%zu%s", o, sk ? "+seek" : "");
      if (r.chance(1, 5)) {
        rd.ResetRelativeOrigin(sk);
        o = 0;
      } else
        rd.SetRelativeOrigin(o, sk);
      m.org = o;
      if (sk)
        m.pos = o;
      break;
    }
    case 10: {
      int al = 1 << (r.chance(1, 12) ? 8 + r.below(9) : r.below(8));
      snprintf(what, sizeof what, "pad%d", al);
      size_t rel = m.pos - m.org;
      size_t pad = size_t(0) - rel & size_t(al - 1);
      if (m.pos + pad > N) {
        continue;
      }
      rd.ApplyPadding(al);
      m.pos += pad;
      break;
    }
    case 11: {
      snprintf(what, sizeof what, "skipT");
      if (m.pos + 12 > N)
        continue;
      if (r.chance(1, 2)) {
        rd.Skip<B4>();
        m.pos += 4;
      } else {
        rd.Skip<B12>();
        m.pos += 12;
      }
      break;
    }
    default: {
      snprintf(what, sizeof what, "size");
      size_t g = rd.GetSize();
      CHECKR(g == N - m.org, "reader-size", "%s got %zu want %zu-%zu", log.c_str(), g, N, m.org);
      event("size-queries");
      break;
    }
    }
    log += what;
    log += ' ';
    note(log);
    event("reader-ops");
    size_t t = rd.Tell();
    CHECKR(t == m.pos - m.org, "reader-tell", "%s tell %zu want %zu (origin %zu)", log.c_str(), t,
           m.pos - m.org, m.org);
    CHECKR(!rd.IsEOF(), "reader-eof", "%s unexpected eof", log.c_str());
  }
  // read beyond the end is noticed, what is there arrives
  rd.ResetRelativeOrigin(false);
  size_t p = r.below(d.size() + 1);
  rd.Seek(p);
  std::string b(d.size() - p + 5, 'x');
  rd.ReadBuffer(&b[0], b.size());
  CHECK(rd.IsEOF() && b == d.substr(p) + "xxxxx", "read-past-end", "%s", log.c_str());
  distinct(log);
  sample(log);
}

MON_SECTION(reader_memory, 1500, 60000) {
  std::string d = c.rng.bytes(16 + c.rng.len(400, 70000));
  std::stringstream ss(d);
  BinReaderRef rd(ss);
  readerRun(c, rd, d);
}
MON_SECTION(reader_file, 300, 6000) {
  std::string d = c.rng.bytes(16 + c.rng.below(c.idx % 4 ? 400 : 30000));
  std::string path = S().scratch + fmt("/r%llu", (unsigned long long)c.idx);
  writeFile(path, d);
  {
    BinReader rd(path);
    readerRun(c, rd, d);
  }
  unlink(path.c_str());
  event("reader-files");
}

static void writerRun(Case &c, BinWritterRef &wr, std::function<std::string()> content, bool sparse) {
  auto &r = c.rng;
  Model m;
  std::string d, log;
  auto put = [&](const std::string &b) {
    if (b.empty())
      return;
    if (d.size() < m.pos)
      d.resize(m.pos, 0);
    if (d.size() < m.pos + b.size())
      d.resize(m.pos + b.size());
    d.replace(m.pos, b.size(), b);
    m.pos += b.size();
  };
  int n = int(20 + r.below(60));
  for (int i = 0; i < n; i++) {
    size_t N = d.size();
    char what[80];
    switch (r.below(13)) {
    case 0:
    case 1:
    case 2: {
      std::string b = r.bytes(r.len(40, 20000));
      snprintf(what, sizeof what, "write%zu", b.size());
      wr.WriteBuffer(b.data(), b.size());
      put(b);
      break;
    }
    case 3: {
      size_t p = r.below(N + 1);
      if (sparse && r.chance(1, 6))
        p = N + r.below(50);
      if (p < m.org)
        p = m.org;
      if (p > N && !sparse)
        continue;
      snprintf(what, sizeof what, "seek%zu", p - m.org);
      wr.Seek(p - m.org);
      m.pos = p;
      break;
    }
    case 4: {
      if (m.pos > N)
        continue;
      int64_t k = r.range(-int64_t(m.pos), int64_t(N - m.pos));
      snprintf(what, sizeof what, "seekcur%lld", (long long)k);
      wr.Seek(size_t(k), std::ios_base::cur);
      m.pos = size_t(int64_t(m.pos) + k);
      break;
    }
    case 5: {
      snprintf(what, sizeof what, "seekend");
      wr.Seek(0, std::ios_base::end);
      m.pos = N;
      break;
    }
    case 6: { // forward skip writes zeros
      size_t k = r.chance(1, 3) ? r.len(200, 30000) : 32 * r.below(4) + r.below(3);
      snprintf(what, sizeof what, "skip%zu", k);
      wr.Skip(int(k));
      if (k)
        put(std::string(k, 0));
      break;
    }
    case 7: {
      size_t k = r.below(m.pos + 1);
      snprintf(what, sizeof what, "skip-%zu", k);
      wr.Skip(-int(k));
      m.pos -= k;
      break;
    }
    case 8: {
      snprintf(what, sizeof what, "push");
      m.save = m.pos;
      size_t g = wr.Push();
      CHECKR(g == m.pos, "push-result", "%s got %zu want %zu", log.c_str(), g, m.pos);
      break;
    }
    case 9:
      if (m.save > N)
        continue;
      snprintf(what, sizeof what, "pop");
      wr.Pop();
      m.pos = m.save;
      break;
    case 10: {
      size_t o = r.below(N + 1);
      bool sk = r.chance(1, 2);
      snprintf(what, sizeof what, "origin%zu%s", o, sk ? "+seek" : "");
      if (r.chance(1, 5)) {
        wr.ResetRelativeOrigin(sk);
        o = 0;
      } else
        wr.SetRelativeOrigin(o, sk);
      m.org = o;
      if (sk)
        m.pos = o;
      break;
    }
    case 11: {
      int al = 1 << (r.chance(1, 12) ? 8 + r.below(9) : r.below(8));
      snprintf(what, sizeof what, "pad%d", al);
      size_t pad = size_t(0) - (m.pos - m.org) & size_t(al - 1);
      wr.ApplyPadding(al);
      if (pad)
        put(std::string(pad, 0));
      event("writer-paddings");
      break;
    }
    default: {
      if (m.pos > N)
        continue;
      snprintf(what, sizeof what, "size");
      size_t g = wr.GetSize();
      CHECKR(g == N - m.org, "writer-size", "%s got %zu want %zu-%zu", log.c_str(), g, N, m.org);
      break;
    }
    }
    log += what;
    log += ' ';
    note(log);
    event("writer-ops");
    size_t t = wr.Tell();
    CHECKR(t == m.pos - m.org, "writer-tell", "%s tell %zu want %zu (origin %zu)", log.c_str(), t,
           m.pos - m.org, m.org);
  }
  std::string got = content();
  size_t diff = 0;
  while (diff < got.size() && diff < d.size() && got[diff] == d[diff])
    diff++;
  CHECK(got == d, "writer-content", "%s sizes %zu/%zu first difference %zu", log.c_str(),
        got.size(), d.size(), diff);
  distinct(log);
  sample(log);
}
MON_SECTION(writer_memory, 1500, 60000) {
  std::stringstream ss;
  BinWritterRef wr(ss);
  wr.WriteBuffer("", 0);
  writerRun(c, wr, [&] { return ss.str(); }, false);
}
MON_SECTION(writer_file, 300, 6000) {
  std::string path = S().scratch + fmt("/w%llu", (unsigned long long)c.idx);
  std::unique_ptr<BinWritter> wr(new BinWritter(path));
  writerRun(c, *wr,
            [&] {
              wr.reset();
              return readFile(path);
            },
            true);
  unlink(path.c_str());
  event("writer-files");
}
// Positions, sizes, origins and paddings beyond 2 and 4 GB, on sparse files:
// the model is the list of pieces written, everything else reads as zero.
MON_SECTION(huge, 60, 1500) {
  auto &r = c.rng;
  std::string path = S().scratch + fmt("/h%llu", (unsigned long long)c.idx);
  std::map<uint64_t, std::string> pieces; // not overlapping
  uint64_t pos = 0, org = 0, save = 0, size = 0;
  std::string log;
  auto put = [&](const std::string &b) {
    pieces[pos] = b;
    pos += b.size();
    size = std::max(size, pos);
  };
  auto far = [&]() -> uint64_t { // around the powers of two that matter
    static const uint64_t C[] = {1ull << 31, 1ull << 32, 3ull << 31, 1ull << 33, 5ull << 30};
    return C[r.below(5)] + uint64_t(r.range(-300, 300));
  };
  auto freeAt = [&](uint64_t p, uint64_t n) {
    for (auto &e : pieces)
      if (p < e.first + e.second.size() && e.first < p + n)
        return false;
    return true;
  };
  {
    BinWritter wr(path);
    for (int i = 0; i < 25; i++) {
      switch (r.below(7)) {
      case 0:
      case 1: {
        uint64_t p = far();
        if (p < org)
          p = org;
        wr.Seek(p - org);
        pos = p;
        log += fmt("seek%llu ", (unsigned long long)(p - org));
        break;
      }
      case 2:
        org = r.chance(1, 3) ? 0 : far();
        wr.SetRelativeOrigin(org);
        pos = org;
        log += fmt("origin%llu ", (unsigned long long)org);
        break;
      case 3: {
        size_t al = size_t(1) << r.below(9), pad = size_t(0) - (pos - org) & (al - 1);
        if (pos < org || !freeAt(pos, pad))
          break;
        wr.ApplyPadding(int(al));
        log += fmt("pad%zu ", al);
        if (pad)
          put(std::string(pad, 0));
        break;
      }
      case 4:
        if (r.chance(1, 2)) {
          save = pos;
          wr.Push();
          log += "push ";
        } else {
          wr.Pop();
          pos = save;
          log += "pop ";
        }
        break;
      default: {
        std::string b = r.bytes(1 + r.below(60));
        if (!freeAt(pos, b.size()))
          break;
        wr.WriteBuffer(b.data(), b.size());
        log += fmt("write%zu ", b.size());
        put(b);
      }
      }
      note(log);
      uint64_t t = wr.Tell();
      CHECKR(t == pos - org, "huge-writer-tell", "%s tell %llu want %llu", log.c_str(), (unsigned long long)t,
             (unsigned long long)(pos - org));
    }
    wr.Seek(0, std::ios_base::end);
    uint64_t g = wr.GetSize();
    CHECK(g == size - org, "huge-writer-size", "%s got %llu want %llu", log.c_str(), (unsigned long long)g,
          (unsigned long long)(size - org));
  }
  struct stat st;
  CHECK(!stat(path.c_str(), &st) && uint64_t(st.st_size) == size, "huge-file-size", "%s", log.c_str());
  {
    BinReader rd(path);
    org = r.chance(1, 2) || size < 2 ? 0 : r.below(size);
    rd.SetRelativeOrigin(org);
    uint64_t g = rd.GetSize();
    CHECK(g == size - org, "huge-reader-size", "%s got %llu want %llu", log.c_str(), (unsigned long long)g,
          (unsigned long long)(size - org));
    for (auto &e : pieces) {
      uint64_t p = e.first;
      const std::string &b = e.second;
      if (p < org)
        continue;
      switch (r.below(3)) {
      case 0: rd.Seek(p - org); break;
      case 1: rd.Seek(size_t(0) - size_t(size - p), std::ios_base::end); break;
      default: {
        uint64_t now = rd.Tell() + org;
        if (p > now && p - now < 0x7fffffff)
          rd.Skip(int(p - now));
        else
          rd.Seek(size_t(p - now), std::ios_base::cur);
      }
      }
      CHECK(rd.Tell() == p - org, "huge-reader-tell", "%s tell %llu want %llu", log.c_str(),
            (unsigned long long)rd.Tell(), (unsigned long long)(p - org));
      CHECK(rd.Push() == p, "huge-push", "%s", log.c_str());
      std::string got(b.size(), 'x');
      rd.ReadBuffer(&got[0], got.size());
      CHECK(got == b, "huge-content", "%s at %llu got %s want %s", log.c_str(), (unsigned long long)p,
            hex(got).c_str(), hex(b).c_str());
      size_t al = size_t(1) << r.below(6), after = size_t(p + b.size() - org);
      after += size_t(0) - after & (al - 1);
      rd.ApplyPadding(int(al));
      CHECK(rd.Tell() == after, "huge-padding", "%s pad %zu at %llu", log.c_str(), al, (unsigned long long)p);
      rd.Pop();
      CHECK(rd.Tell() == p - org, "huge-pop", "%s", log.c_str());
      int back = int(std::min<uint64_t>(p, 0x7fffffff));
      rd.Skip(-back);
      CHECK(rd.Tell() + org == p - uint64_t(back), "huge-skip-back", "%s", log.c_str());
      event(p >> 32 ? "beyond-4GB" : p >> 31 ? "beyond-2GB" : "below-2GB");
    }
  }
  unlink(path.c_str());
  distinct(log);
  sample(log);
}
MON_MAIN
