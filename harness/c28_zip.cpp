// C28: stored ZIP archives as a file system, and the ZIP structures.
#include "datas/binreader.hpp"
#include "datas/binwritter_stream.hpp"
#include "datas/zip_vfs.hpp"
#include "formats/ZIP_ostream.inl"
#include "mon.hpp"
#include <atomic>
#include <cstring>
#include <memory>
#include <sstream>
#include <thread>
using namespace mon;

struct Bytes {
  std::string s;
  Bytes &u16(uint64_t v) { return num(v, 2); }
  Bytes &u32(uint64_t v) { return num(v, 4); }
  Bytes &u64(uint64_t v) { return num(v, 8); }
  Bytes &raw(const std::string &o) {
    s += o;
    return *this;
  }
  Bytes &num(uint64_t v, int n) {
    for (int i = 0; i < n; i++)
      s += char(v >> (8 * i));
    return *this;
  }
};

struct Entry {
  std::string name, content, extra;
  size_t header, end; // of the local header and of the data
  bool listed() const { return !content.empty(); }
};
struct Archive {
  std::string bytes;
  std::vector<Entry> entries;
  std::vector<size_t> boundaries; // where blocks start or the archive ends
};

static std::string anyName(Rng &r, int k) {
  std::string s = "f" + std::to_string(k);
  for (int n = r.below(3); n > 0; n--)
    s = r.text(1 + r.below(8), "abc.-_ ") + "/" + s;
  if (r.chance(1, 3))
    s += "." + r.text(1 + r.below(4), "abcxyz");
  if (r.chance(1, 10))
    s += r.bytes(1 + r.below(5));
  if (r.chance(1, 30))
    s += std::string(300 + r.len(300, 60000), 'n');
  return s;
}
static std::string local(Rng &r, const std::string &name, const std::string &content, const std::string &extra, int method = 0, int flags = -1) {
  Bytes b;
  b.raw("PK\3\4").u16(r.below(50)).u16(flags >= 0 ? flags : r.chance(1, 2) ? 0 : 1 << 11).u16(method).u32(r.u32()).u32(r.u32());
  b.u32(content.size()).u32(content.size()).u16(name.size()).u16(extra.size()).raw(name).raw(extra).raw(content);
  return b.s;
}
static std::string central(Rng &r, const Entry &e) {
  const std::string comment = r.chance(1, 2) ? "" : r.bytes(r.len(40, 65535));
  Bytes b;
  b.raw("PK\1\2").u16(r.u32()).u16(20).u16(0).u16(0).u32(r.u32()).u32(r.u32());
  b.u32(e.content.size()).u32(e.content.size()).u16(e.name.size()).u16(e.extra.size()).u16(comment.size());
  b.u16(0).u16(r.u32()).u32(r.u32()).u32(e.header).raw(e.name).raw(e.extra).raw(comment);
  return b.s;
}

static Archive make(Rng &r) {
  Archive a;
  const auto block = [&](const std::string &b) {
    a.boundaries.push_back(a.bytes.size());
    a.bytes += b;
  };
  const int n = r.len(12, 300);
  for (int k = 0; k < n; k++) {
    Entry e;
    e.name = anyName(r, k);
    e.content = r.chance(1, 6) ? "" : r.bytes(1 + r.len(r.chance(1, 8) ? 5000 : 80, 200000));
    if (r.chance(1, 8)) // content that looks like blocks
      e.content = "PK\1\2" + e.content + std::string("PK\3\4\0\0", 6);
    if (e.content.empty() && r.chance(1, 2))
      e.name += "/";
    e.extra = r.chance(1, 2) ? "" : r.bytes(r.len(30, 65535));
    e.header = a.bytes.size();
    block(local(r, e.name, e.content, e.extra));
    e.end = a.bytes.size();
    a.entries.push_back(e);
  }
  if (r.chance(1, 6)) {
    const std::string d = r.bytes(r.len(40, 65535));
    block(Bytes().raw("PK\6\x8").u32(d.size()).raw(d).s);
    event("extra-data");
  }
  for (auto &e : a.entries)
    block(central(r, e));
  if (r.chance(1, 6)) {
    const std::string d = r.bytes(r.len(40, 65535));
    block(Bytes().raw("PK\5\5").u16(d.size()).raw(d).s);
    event("signatures");
  }
  if (r.chance(1, 4)) {
    const std::string d = r.chance(1, 2) ? "" : r.bytes(r.len(40, 65535));
    block(Bytes().raw("PK\6\6").u64(44 + d.size()).u16(45).u16(45).u32(0).u32(0).u64(n).u64(n).u64(1).u64(2).raw(d).s);
    block(Bytes().raw("PK\6\7").u32(0).u64(r.u64()).u32(1).s);
    event("zip64-records");
  }
  if (r.chance(5, 6)) {
    const std::string d = r.chance(1, 2) ? "" : r.bytes(r.len(60, 65535));
    block(Bytes().raw("PK\5\6").u16(0).u16(0).u16(n).u16(n).u32(r.u32()).u32(r.u32()).u16(d.size()).raw(d).s);
  }
  a.boundaries.push_back(a.bytes.size());
  return a;
}

static std::string drain(const ZIPVFSFile &f, size_t limit) {
  BinReaderRef rd = f;
  std::string s;
  rd.ReadContainer(s, rd.GetSize() < limit ? rd.GetSize() : limit);
  return s;
}

// the archive lists exactly the given entries, with their content
static void judge(Rng &r, const ZIPVFS &vfs, const std::vector<const Entry *> &want, size_t offset, const char *what) {
  CHECK(vfs.size() == want.size() && vfs.empty() == want.empty(), "listing", "%s: lists %zu files, not %zu", what, vfs.size(), want.size());
  std::vector<ZIPVFSFile> kept;
  for (auto e : want) {
    auto i = vfs.find(e->name);
    CHECK(i != vfs.end(), "listing", "%s: file %s is not listed", what, esc(e->name).c_str());
    if (i == vfs.end())
      continue;
    CHECK(i->second.second == e->content.size(), "listing", "%s: size of %s", what, esc(e->name).c_str());
    (void)offset;
    ZIPVFSFile f = r.chance(1, 3) ? vfs.Get(e->name) : r.chance(1, 2) ? vfs.Get(i) : vfs.Get(vfs.at(e->name));
    const std::string got = drain(f, e->content.size() + 10);
    CHECK(got == e->content, "content", "%s: content of %s is %s, not %s", what, esc(e->name).c_str(), hex(got).c_str(), hex(e->content).c_str());
    event("files");
    if (r.chance(1, 2)) {
      // files may be kept, moved about and read piecewise while others are opened
      f.buffer.clear();
      f.reader.Seek(0);
      kept.push_back(std::move(f));
    } else
      kept.push_back(vfs.Get(i));
  }
  for (size_t k = 0; k < kept.size(); k++) {
    std::string all;
    ZIPVFSFile f = r.chance(1, 2) ? vfs.Get(want[r.below(want.size())]->name) : std::move(kept[k]);
    if (kept[k].buffer.rdbuf()->in_avail() > 0) {
      f = std::move(kept[k]); // in the place of another file
      event("replaced-files");
    }
    const std::string &c = want[k]->content;
    while (all.size() < c.size()) {
      std::string part;
      f.reader.ReadContainer(part, std::min<size_t>(1 + r.below(9), c.size() - all.size()));
      all += part;
      if (all.size() > 200) {
        f.reader.Seek(c.size() - std::min<size_t>(c.size(), 5));
        part.clear();
        f.reader.ReadContainer(part, std::min<size_t>(c.size(), 5));
        CHECK(c.substr(c.size() - part.size()) == part, "moved file", "%s: end of a kept file differs", what);
        break;
      }
    }
    CHECK(c.compare(0, all.size(), all) == 0, "moved file", "%s: kept file %s reads as %s, not %s", what, esc(want[k]->name).c_str(),
          hex(all).c_str(), hex(c).c_str());
    event("kept-files");
  }
  for (const char *miss : {"", "no such file"}) {
    bool refused = false;
    try {
      vfs.Get(std::string(miss));
    } catch (const std::out_of_range &) {
      refused = true;
    }
    CHECK(refused, "missing", "%s: a file that is not there is not refused", what);
  }
}

static std::vector<const Entry *> within(const Archive &a, size_t cut) {
  std::vector<const Entry *> v;
  for (auto &e : a.entries)
    if (e.listed() && e.end <= cut)
      v.push_back(&e);
  return v;
}

MON_SECTION(archives, 400, 40000) {
  Rng &r = c.rng;
  const Archive a = make(r);
  distinct(hashBytes(a.bytes.data(), a.bytes.size()));
  if (c.idx < 3)
    sample("archive of " + std::to_string(a.entries.size()) + " entries in " + std::to_string(a.bytes.size()) + " bytes");
  const auto all = within(a, a.bytes.size());
  if (r.chance(1, 3)) {
    const std::string path = S().scratch + "/a.zip";
    writeFile(path, a.bytes);
    BinReader rd(path);
    ZIPVFS vfs(rd);
    judge(r, vfs, all, 0, "file");
    event("in-files");
  } else {
    std::istringstream str(a.bytes);
    ZIPVFS vfs((BinReaderRef(str)));
    judge(r, vfs, all, 0, "memory");
    event("in-memory");
  }
}

// cut anywhere: whole archives or a refusal
MON_SECTION(cut, 300, 20000) {
  Rng &r = c.rng;
  const Archive a = make(r);
  for (int k = 0; k < 12; k++) {
    size_t cut = r.below(a.bytes.size() + 1);
    if (r.chance(1, 3)) {
      cut = a.boundaries[r.below(a.boundaries.size())];
      const size_t by = r.below(6);
      if (r.chance(1, 2))
        cut = std::min(cut + by, a.bytes.size());
      else
        cut -= std::min(cut, by);
    }
    bool whole = false;
    for (size_t b : a.boundaries)
      whole |= b == cut;
    const std::string bytes = a.bytes.substr(0, cut);
    const bool file = r.chance(1, 4);
    const std::string path = S().scratch + "/cut.zip";
    std::unique_ptr<BinReader> rd;
    std::istringstream str(bytes);
    if (file) {
      writeFile(path, bytes);
      rd.reset(new BinReader(path));
    }
    try {
      ZIPVFS vfs(file ? BinReaderRef(*rd) : BinReaderRef(str));
      CHECK(whole, "cut", "an archive cut at %zu, inside of a block, is accepted with %zu files", cut, vfs.size());
      if (whole)
        judge(r, vfs, within(a, cut), 0, "cut archive");
      event("whole-cuts");
    } catch (const std::exception &e) {
      CHECK(!whole, "cut", "an archive cut between blocks at %zu is refused: %s", cut, e.what());
      event("refused-cuts");
    }
  }
}

// damaged headers: no crash, no endless loop, nothing listed outside of the file
MON_SECTION(hostile, 400, 40000) {
  Rng &r = c.rng;
  Archive a = make(r);
  if (a.bytes.empty())
    return;
  for (int k = 0; k < 10; k++) {
    std::string bytes = a.bytes;
    for (int n = 1 + r.below(3); n > 0; n--) {
      const size_t at = r.chance(3, 4) ? a.boundaries[r.below(a.boundaries.size())] + r.below(46) : r.below(bytes.size());
      if (at >= bytes.size())
        continue;
      if (r.chance(1, 2))
        bytes[at] = char(r.u32());
      else {
        static const uint32_t values[] = {0xffffffff, 0x80000000, 0x7fffffff, 0xfffffff0, 0xffffffc0, 0, 1, 0x10000};
        uint32_t v = values[r.below(8)];
        if (r.chance(1, 3)) // a step back to where the block began
          v = uint32_t(-int32_t(r.below(at + 60)));
        memcpy(&bytes[at], &v, std::min<size_t>(4, bytes.size() - at));
      }
    }
    std::istringstream str(bytes);
    try {
      ZIPVFS vfs((BinReaderRef(str)));
      for (auto i = vfs.begin(); i != vfs.end(); ++i) {
        const size_t from = i->second.first, len = i->second.second;
        CHECK(from <= bytes.size() && len <= bytes.size() - from, "outside", "a listed file of %zu bytes at %zu lies outside of an archive of %zu",
              len, from, bytes.size());
        if (from <= bytes.size() && len <= bytes.size() - from) {
          const ZIPVFSFile f = vfs.Get(i);
          CHECK(drain(f, len + 10) == bytes.substr(from, len), "content", "content of a file of a damaged archive");
        }
      }
      event("damage-accepted");
    } catch (const std::exception &) {
      event("damage-refused");
    }
  }
}

// what is not supported is refused
MON_SECTION(unsupported, 100, 2000) {
  Rng &r = c.rng;
  std::string bytes;
  for (int n = r.below(3); n > 0; n--)
    bytes += local(r, "ok" + std::to_string(n), "content", "");
  const bool encrypted = r.chance(1, 2), nameless = !encrypted && r.chance(1, 4);
  static const int methods[] = {1, 2, 6, 8, 9, 12, 14, 98};
  const int method = encrypted || nameless ? 0 : methods[r.below(8)];
  bytes += local(r, nameless ? "" : "bad", "content", "", method, encrypted ? 1 | (r.u32() & 0xfffe) : r.u32() & 0xfffe);
  std::istringstream str(bytes);
  bool refused = false;
  try {
    ZIPVFS vfs((BinReaderRef(str)));
  } catch (const std::runtime_error &e) {
    refused = true;
    CHECK(*e.what(), "unsupported", "no message");
  }
  CHECK(refused, "unsupported", "a %s file is accepted", encrypted ? "encrypted" : nameless ? "nameless" : "compressed");
  event(encrypted ? "encrypted" : nameless ? "nameless" : "compressed");
}

// many threads take files at once
MON_SECTION(threads, 40, 3000) {
  Rng &r = c.rng;
  Archive a;
  do
    a = make(r);
  while (within(a, a.bytes.size()).size() < 2);
  const auto all = within(a, a.bytes.size());
  const std::string path = S().scratch + "/t.zip";
  writeFile(path, a.bytes);
  const bool file = r.chance(1, 2);
  std::unique_ptr<BinReader> rd;
  std::istringstream str(a.bytes);
  if (file)
    rd.reset(new BinReader(path));
  const ZIPVFS vfs(file ? BinReaderRef(*rd) : BinReaderRef(str));
  const int n = 2 + r.below(5);
  std::atomic<int> wrong{0}, ready{0}, switches{0}, last{-1};
  std::vector<std::thread> ts;
  const uint64_t seed = r.u64();
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      Rng q(seed + t * 77);
      ready++;
      while (ready < n)
        std::this_thread::yield();
      for (int k = 0; k < 25; k++) {
        const Entry &e = *all[q.below(all.size())];
        std::string got;
        switch (q.below(3)) {
        case 0: {
          auto f = vfs.Get(e.name);
          got = drain(f, e.content.size() + 10);
          break;
        }
        case 1: {
          auto f = vfs.Get(vfs.find(e.name));
          got = drain(f, e.content.size() + 10);
          break;
        }
        default: {
          auto f = vfs.Get(vfs.at(e.name));
          got = drain(f, e.content.size() + 10);
        }
        }
        wrong += got != e.content;
        switches += last.exchange(t) != t;
      }
    });
  for (auto &t : ts)
    t.join();
  CHECK(!wrong, "threads", "%d of %d files taken by %d threads at once have wrong content", int(wrong), n * 25, n);
  event("threaded-files", n * 25);
  event("thread-switches", switches);
  distinct(seed ^ switches);
}

/* the structures alone */
template <class C> static void roundTrip(Rng &r, const std::string &bytes, const char *name, const std::function<std::string(const C &)> &print) {
  const std::string rest = r.bytes(8);
  std::istringstream in(bytes + rest);
  BinReaderRef rd(in);
  C h;
  memset(static_cast<void *>(&h), int(r.u32()), sizeof h);
  rd.Read(h);
  CHECK(rd.Tell() == bytes.size(), "structure", "%s: reading takes %zu bytes, not %zu", name, rd.Tell(), bytes.size());
  CHECK(print(h) == bytes, "structure", "%s: fields %s of %s", name, hex(print(h)).c_str(), hex(bytes).c_str());
  std::ostringstream out;
  BinWritterRef wr(out);
  wr.Write(h);
  CHECK(out.str() == bytes, "structure", "%s: %s is written as %s", name, hex(bytes).c_str(), hex(out.str()).c_str());
  event(name);
}
template <class T> static uint64_t raw(const T &v) {
  uint64_t o = 0;
  memcpy(&o, &v, sizeof v);
  return o;
}
MON_SECTION(structures, 100, 10000) {
  Rng &r = c.rng;
  roundTrip<ZIPLocalFile>(r, r.bytes(30), "ZIPLocalFile", [](const ZIPLocalFile &h) {
    return Bytes().u32(h.id).u16(h.extractVersion).u16(raw(h.flags)).u16(raw(h.compression)).u16(h.lastModFileTime).u16(h.lastModFileDate)
        .u32(h.crc).u32(h.compressedSize).u32(h.uncompressedSize).u16(h.fileNameSize).u16(h.extraFieldSize).s;
  });
  roundTrip<ZIPFile>(r, r.bytes(46), "ZIPFile", [](const ZIPFile &h) {
    return Bytes().u32(h.id).u16(h.madeBy).u16(h.extractVersion).u16(raw(h.flags)).u16(raw(h.compression)).u16(h.lastModFileTime)
        .u16(h.lastModFileDate).u32(h.crc).u32(h.compressedSize).u32(h.uncompressedSize).u16(h.fileNameSize).u16(h.extraFieldSize)
        .u16(h.fileCommentSize).u16(h.diskNumberStart).u16(h.internalFileAttrs).u32(h.externalFileAttrs).u32(h.localHeaderOffset).s;
  });
  roundTrip<ZIPSignature>(r, r.bytes(6), "ZIPSignature", [](const ZIPSignature &h) { return Bytes().u32(h.id).u16(h.dataSize).s; });
  roundTrip<ZIPCentralDir>(r, r.bytes(22), "ZIPCentralDir", [](const ZIPCentralDir &h) {
    return Bytes().u32(h.id).u16(h.diskNumber).u16(h.startDiskNumber).u16(h.numDiskEntries).u16(h.numDirEntries).u32(h.dirSize)
        .u32(h.dirOffset).u16(h.commentSize).s;
  });
  roundTrip<ZIP64CentralDir>(r, r.bytes(56), "ZIP64CentralDir", [](const ZIP64CentralDir &h) {
    return Bytes().u32(h.id).u64(h.dirRecord).u16(h.madeBy).u16(h.extractVersion).u32(h.diskNumber).u32(h.startDiskNumber)
        .u64(h.numDiskEntries).u64(h.numDirEntries).u64(h.dirSize).u64(h.dirOffset).s;
  });
  roundTrip<ZIP64CentralDirLocator>(r, r.bytes(20), "ZIP64CentralDirLocator", [](const ZIP64CentralDirLocator &h) {
    return Bytes().u32(h.id).u32(h.diskNumber).u64(h.centralDirOffset).u32(h.numDisks).s;
  });
  // the numbers of methods and the bits of flags are the published ones
  static const struct { ZIPCompressionMethod m; int code; } METHODS[] = {
      {ZIPCompressionMethod::Store, 0}, {ZIPCompressionMethod::Shrunk, 1}, {ZIPCompressionMethod::Reduce1, 2}, {ZIPCompressionMethod::Reduce2, 3},
      {ZIPCompressionMethod::Reduce3, 4}, {ZIPCompressionMethod::Reduce4, 5}, {ZIPCompressionMethod::Implode, 6},
      {ZIPCompressionMethod::Tokenize, 7}, {ZIPCompressionMethod::Deflate, 8}, {ZIPCompressionMethod::Deflate64, 9},
      {ZIPCompressionMethod::BZIP2, 12}, {ZIPCompressionMethod::LZMA, 14}, {ZIPCompressionMethod::CMPSC, 16}, {ZIPCompressionMethod::TERSE, 18},
      {ZIPCompressionMethod::IBM_LZ77, 19}, {ZIPCompressionMethod::JPEG, 96}, {ZIPCompressionMethod::WavPack, 97},
      {ZIPCompressionMethod::PPMd, 98}, {ZIPCompressionMethod::AEx, 99}};
  static const struct { ZIPLocalFlag f; int bit; } FLAGS[] = {
      {ZIPLocalFlag::Encrypted, 0}, {ZIPLocalFlag::CFlag0, 1}, {ZIPLocalFlag::CFlag1, 2}, {ZIPLocalFlag::DataDescriptor, 3},
      {ZIPLocalFlag::EnhancedDeflate, 4}, {ZIPLocalFlag::PatchedData, 5}, {ZIPLocalFlag::StronkEncryption, 6},
      {ZIPLocalFlag::StringsInUTF8, 11}, {ZIPLocalFlag::StronkEncryptSpecific, 13}};
  const auto &me = METHODS[r.below(sizeof METHODS / sizeof *METHODS)];
  const uint16_t flags = uint16_t(r.u32());
  std::istringstream in(local(r, "name", "text", "", me.code, flags));
  BinReaderRef rd(in);
  ZIPLocalFile h;
  rd.Read(h);
  CHECK(h.compression == me.m, "method", "stored method %d is not read as itself", me.code);
  for (auto &f : FLAGS)
    CHECK(h.flags[f.f] == bool(flags >> f.bit & 1), "flag", "bit %d of flags %04x", f.bit, flags);
  event("methods");
}
MON_MAIN
