// Many kinds of work with the library, each on objects of its own; used by C40 and C43.
// Spared and Box come from the user.
#pragma once
/* settings and sinks */
REFLECTOR_CREATE(Level, ENUM, 1, CLASS, Low, Middle, High = 7);
struct Prefs : SettingsManager<Prefs> {
  bool enabled = false;
  std::string folder;
  Level level = Level::Low;
  double ratios[3]{};
};
REFLECTOR_CREATE(Prefs, 1, EXTENDED, (AD, enabled, "is-enabled", "Turns it on."), (A, folder, "where"), (D, level, "How much."), (, ratios));
#ifndef WORK_PRIVATE // sinks and logs belong to the whole process
static uint64_t gSunk;
static void sink(const char *s) {
  for (; *s; s++)
    gSunk = gSunk * 1000003 + uint8_t(*s);
}
struct SinkError {};
static bool gSinkFails;
static void failingSink(const char *) {
  if (gSinkFails)
    throw SinkError();
}
// keeps sinks and logs as they were, however the work ends
struct Quiet {
  Quiet() {
    printer >> 0; // what a failed line left
    gSunk = 0;
  }
  ~Quiet() {
    gSinkFails = false;
    Prefs::GetLogger().close();
    Prefs::GetLogger().clear();
  }
};

#endif

/* the work; each returns what it has seen */
struct Env {
  std::string root;               // a folder with a tree of files
  std::string archive, document, stored, database;
  uint64 at;
};
static std::string fileWork(Rng r, const Env &e) {
  std::string seen;
  const std::string path = e.root + "/out" + std::to_string(r.below(3));
  std::vector<uint32> nums(r.len(20, 20000));
  for (auto &n : nums)
    n = r.u32();
  const std::string text = r.bytes(r.len(50, 50000));
  {
    BinWritter wr(path);
    wr.Write<uint32>(7);
    wr.WriteContainerWCount(nums);
    wr.WriteContainerWCount(text);
    if (r.chance(1, 3)) {
      BinWritter second(std::move(wr));
      second.Write<uint8>(9);
    }
  }
  std::vector<BinReader> readers;
  for (int k = 0; k < 3; k++) {
    BinReader rd(path);
    readers.push_back(std::move(rd));
  }
  for (auto &rd : readers) {
    uint32 id;
    std::vector<uint32> got;
    std::string words;
    rd.Read(id);
    rd.ReadContainer(got);
    rd.ReadContainer(words);
    seen += std::to_string(id) + std::to_string(got == nums && words == text) + std::to_string(rd.GetSize() - rd.Tell());
    rd.Seek(4);
    try {
      rd.ReadContainer(words, 1000000); // far behind the end
    } catch (const std::bad_alloc &) {
      throw;
    } catch (const std::exception &) {
    }
    seen += std::to_string(words.size());
  }
  for (auto bad : {"/none", "", "/out0/x", "/missing/y"})
    try {
      if (r.chance(1, 2)) {
        BinReader rd(e.root + bad);
        seen += "opened";
      } else {
        BinWritter wr(e.root + (*bad == '/' && bad[1] == 'n' ? "/" : bad));
        seen += "opened";
      }
    } catch (const es::FileNotFoundError &) {
      seen += "N";
    } catch (const es::FileInvalidAccessError &) {
      seen += "A";
    }
  readers[0].Open(path);
  return seen + std::to_string(readers[0].GetSize());
}
static std::string scanWork(Rng r, const Env &e) {
  std::string seen;
  DirectoryScanner sc;
  if (r.chance(1, 2))
    sc.AddFilter("a");
  sc.Scan(e.root + "/tree");
  sc.Scan(e.root + "/tree/none");
  sc.Scan(e.root + "/tree/f0"); // a file
  DirectoryScanner other = sc;
  if (r.chance(1, 2))
    sc.Clear();
  sc.Scan(e.root + "/tree/d0/");
  std::vector<std::string> all(sc.Files());
  all.insert(all.end(), other.begin(), other.end());
  std::sort(all.begin(), all.end());
  for (auto &f : all)
    seen += f.substr(e.root.size()) + ";";
  return seen;
}
#ifndef WORK_PRIVATE
static std::string printWork(Rng r, const Env &) {
  Quiet q;
  printer.AddPrinterFunction(failingSink, r.chance(1, 2));
  printer.AddPrinterFunction(sink, false);
  for (int n = 1 + r.below(20); n > 0; n--) {
    const std::string text = r.text(r.len(60, 30000));
    gSinkFails = r.chance(1, 6);
    try {
      switch (r.below(4)) {
      case 0: printline(text << r.u32()); break;
      case 1: printwarning(r.u32() << text << 1.5); break;
      case 2: printerror(text.c_str()); break;
      case 3: printer << text << " " >> 1; break;
      }
    } catch (const SinkError &) {
      gSunk += 5;
    }
  }
  return std::to_string(gSunk);
}
#endif
static std::string queueWork(Rng r, const Env &) {
  const size_t n = r.below(40);
  const bool throws = r.chance(1, 2);
  std::vector<std::string> out(n);
  std::atomic<int> ran{0};
  RunThreadedQueue(n, [&](size_t i) {
    out[i] = std::string(100 + i, char('a' + i % 26));
    ran++;
    if (throws && i % 3 == 0)
      throw std::runtime_error(out[i]);
  });
  std::string seen = std::to_string(ran);
  for (auto &o : out)
    seen += std::to_string(o.size()) + o.back();
  return seen;
}
static std::string textWork(Rng r, const Env &) {
  Box box(r);
  std::string seen;
  ReflectedInstance ref;
  Reflector &ri = *box.o;
  for (int n = 1 + r.below(30); n > 0; n--) {
    const size_t i = r.below(ri.GetNumReflectedValues());
    const std::string t = genText(r, &ioMembers()[i]);
    seen += std::to_string(bool(ri.SetReflectedValue(i, t)));
    seen += ri.GetReflectedValue(i);
    auto p = ri.GetReflectedPair(r.below(ri.GetNumReflectedValues()));
    seen += std::string(p.name) + p.value;
  }
  return seen;
}
static std::string binaryWork(Rng r, const Env &e) {
  Box box(r), back(r);
  std::stringstream str;
  BinWritterRef wr(str);
  std::string seen = std::to_string(ReflectorBinUtil::Save(*box.o, wr));
  BinReaderRef rd(str);
  seen += std::to_string(ReflectorBinUtil::Load(*back.o, rd));
  seen += diffIO(*box.o, *back.o, false);
  std::string cut = str.str().substr(0, r.below(str.str().size() + 1));
  std::istringstream bad(cut);
  BinReaderRef brd(bad);
  try {
    seen += std::to_string(ReflectorBinUtil::Load(*back.o, brd));
  } catch (const std::bad_alloc &) {
    throw;
  } catch (const std::exception &) {
    seen += "E";
  }
  return seen;
}
static std::string xmlWork(Rng r, const Env &) {
  Box box(r), back(r);
  pugi::xml_document doc;
  std::string seen;
  ReflectorXMLUtil::flag_type fl;
  if (r.chance(1, 2))
    fl += ReflectorXMLUtil::Flags_ClassNode;
  if (r.chance(1, 2))
    fl += ReflectorXMLUtil::Flags_StringAsAttribute;
  const bool v2 = r.chance(2, 3);
  auto node = v2 ? ReflectorXMLUtil::SaveV2a(*box.o, doc.append_child("x"), fl) : ReflectorXMLUtil::Save(*box.o, doc.append_child("x"), true);
  std::ostringstream out;
  doc.save(out);
  seen += std::to_string(out.str().size());
  pugi::xml_document again;
  std::string text = out.str();
  for (int k = r.below(3); k > 0; k--)
    text[r.below(text.size())] = "<>&\"ab"[r.below(6)];
  again.load_buffer(text.data(), text.size());
  if (v2)
    ReflectorXMLUtil::LoadV2(*back.o, again.first_child(), r.chance(1, 2));
  else
    ReflectorXMLUtil::Load(*back.o, again.first_child(), r.chance(1, 2));
  return seen + diffIO(*box.o, *back.o, true);
}
static std::string databaseWork(Rng r, const Env &) {
  ioRegister();
  std::string seen;
  std::stringstream str;
  {
    ReflectorIO io;
    io.AddClass<SubR>();
    if (r.chance(1, 2))
      io.AddClass<IO>();
    if (r.chance(1, 2))
      io.AddEnum<EnB>();
    io.AddEnum<EnBits>();
    BinWritterRef wr(str);
    seen += std::to_string(io.Save(wr));
  }
  ReflectorIO io;
  for (int k = 0; k < 2; k++) {
    str.clear();
    str.seekg(0);
    BinReaderRef rd(str);
    seen += std::to_string(io.Load(rd));
  }
  ReflectorIO copy = io;
  io = ReflectorIO();
  std::ostringstream out;
  BinWritterRef wr(out);
  seen += std::to_string(copy.Save(wr)) + std::to_string(hashBytes(out.str().data(), out.str().size()));
  std::string bad = str.str().substr(0, r.below(8));
  std::istringstream bin(bad);
  BinReaderRef brd(bin);
  return seen + std::to_string(copy.Load(brd));
}
static std::string settingsWork(Rng r, const Env &e) {
#ifndef WORK_PRIVATE
  Quiet q;
  RegisterReflectedTypes<Level, Prefs>();
#endif
  Prefs p;
  p.folder = r.text(r.len(40, 5000));
  p.level = Level(r.below(2));
  for (auto &v : p.ratios)
    v = r.below(100) / 4.;
  std::string seen;
#ifndef WORK_PRIVATE
  for (int k = 1 + r.below(3); k > 0; k--) {
    p.CreateLog(e.root + (r.chance(1, 4) ? "/none/log" : "/log"));
    seen += std::to_string(p.GetLogger().is_open());
    printline("logged " << k);
  }
#endif
  std::ostringstream help;
  p.GetHelp(help);
  return seen + help.str();
}
static std::string zipWork(Rng r, const Env &e) {
  std::string bytes = e.archive, seen;
  if (r.chance(1, 2))
    bytes.resize(r.below(bytes.size() + 1));
  for (int k = r.chance(1, 2) ? 0 : r.below(4); k > 0 && !bytes.empty(); k--)
    bytes[r.below(bytes.size())] = char(r.u32());
  std::istringstream in(bytes);
  try {
    BinReaderRef rd(in);
    ZIPVFS zip(rd);
    seen += std::to_string(zip.size());
    std::vector<ZIPVFSFile> open;
    for (auto it = zip.begin(); it != zip.end(); ++it)
      open.push_back(zip.Get(it));
    for (auto &f : open) {
      BinReaderRef fr = f;
      std::string s;
      fr.ReadContainer(s, fr.GetSize());
      seen += esc(s);
    }
    try {
      zip.Get(std::string("not in it"));
    } catch (const std::out_of_range &) {
      seen += "R";
    }
  } catch (const std::bad_alloc &) {
    throw;
  } catch (const std::exception &ex) {
    seen += ex.what();
  }
  return seen;
}
static std::string documentWork(Rng r, const Env &e) {
  std::string seen;
  const std::string path = e.root + "/doc.xml";
  pugi::xml_document doc;
  auto n = doc.append_child("root");
  for (int k = r.below(40); k > 0; k--)
    n.append_child(r.text(1 + r.below(5), "abc").c_str()).append_attribute("a") = r.text(r.below(30)).c_str();
  XMLToFile(path, doc);
  auto back = XMLFromFile(path);
  seen += std::to_string(XMLCollectChildren(back.first_child()).size());
  for (auto bad : {"/nothing.xml", "/tree", "/tree/f0"})
    try {
      XMLFromFile(e.root + bad);
      seen += "L";
    } catch (const es::FileNotFoundError &) {
      seen += "N";
    } catch (const es::InvalidHeaderError &) {
      seen += "H";
    } catch (const std::runtime_error &ex) {
      seen += "X";
    }
  try {
    XMLToFile(e.root + "/missing/x.xml", doc);
  } catch (const es::FileInvalidAccessError &) {
    seen += "A";
  }
  try {
    throw XMLMissingNodeException("some name which is long", n);
  } catch (const XMLBaseException &ex) {
    seen += ex.what();
  }
  return seen;
}
static std::string pathWork(Rng r, const Env &e) {
  std::string seen;
  const std::string p = e.root + "/made/" + r.text(r.below(9), "ab/") + "/" + r.text(1 + r.len(10, 200), "ab.c/");
  AFileInfo i(p);
  for (auto &part : i.Explode())
    seen += std::string(part.begin(), part.end()) + "|";
  seen += i.CatchBranch("made/other");
  mkdirs(e.root + "/made/" + r.text(r.below(6), "xy/") + "/");
  mkdirs(e.root + "/made/", std::vector<std::string>{"q/1", "q/2/3", "w"}, [](const std::string &s) { return s; });
  const std::string u = r.text(1 + r.len(30, 3000));
  auto w = es::ToUTF1632(u);
  seen += std::to_string(es::ToUTF8(w) == u);
  try {
    es::ToUTF1632(std::string("\xff\xfe bad"));
    seen += "C";
  } catch (const std::range_error &) {
    seen += "U";
  }
  return seen.substr(0, seen.size());
}

class Thing : public uni::Base {
public:
  virtual std::string Value() const = 0;
};
struct ThingImpl : Thing {
  std::string v;
  ThingImpl(std::string v_ = {}) : v(v_) {}
  std::string Value() const override { return v; }
  operator uni::Element<const Thing>() const { return {this, false}; }
};
struct ThingMaker {
  std::string v;
  operator uni::Element<const Thing>() const { return uni::ToElement(std::unique_ptr<const Thing>(new ThingImpl(v))); }
};
struct Stored : uni::VectorList<Thing, ThingImpl> {};
struct Made : uni::VectorList<Thing, ThingMaker> {};
struct Poly : uni::PolyVectorList<Thing, ThingImpl> {};
static std::string listWork(Rng r, const Env &) {
  std::string seen;
  Stored a;
  Made b;
  Poly c;
  for (int n = r.below(20); n > 0; n--) {
    const std::string v = r.text(40);
    a.storage.emplace_back(v);
    b.storage.push_back({v});
    c.storage.emplace_back(std::unique_ptr<ThingImpl>(new ThingImpl(v)));
  }
  for (auto t : a)
    seen += t->Value();
  for (auto t : b)
    seen += t->Value();
  for (auto t : c)
    seen += t->Value();
  std::unique_ptr<Stored> owned(new Stored(a));
  auto el = uni::ToElement(std::move(owned));
  uni::BaseElement base = std::move(el);
  // linked storage that grows out of its memory
  std::vector<std::string> keep;
  Exact block(64 * 4);
  using V = std::vector<uint32, es::allocator_hybrid<uint32>>;
  V v;
  uint32 *p = reinterpret_cast<uint32 *>(block.p);
  for (int k = 0; k < 64; k++)
    p[k] = k;
  es::allocator_hybrid_base::LinkStorage(v, p, 64);
  V copy = v;
  for (int n = r.below(100); n > 0; n--)
    v.push_back(n);
  V moved = std::move(v);
  if (r.chance(1, 2))
    es::allocator_hybrid_base::DisposeStorage(moved);
  return seen + std::to_string(copy.size()) + std::to_string(moved.size());
}
static std::string errorWork(Rng r, const Env &) {
  std::string seen;
  const std::string path = r.text(r.len(50, 5000));
  for (int k = 0; k < 6; k++)
    try {
      try {
        switch (k) {
        case 0: throw es::FileNotFoundError(path);
        case 1: throw es::FileInvalidAccessError(path);
        case 2: throw es::InvalidHeaderError(uint32(r.u32()));
        case 3: throw es::InvalidVersionError(r.u32());
        case 4: throw es::FileNotFoundError();
        case 5: throw es::InvalidHeaderError(es::string_view(path));
        }
      } catch (const std::runtime_error &ex) {
        auto kept = std::current_exception();
        std::rethrow_exception(kept);
      }
    } catch (const std::bad_alloc &) {
      throw;
    } catch (const std::exception &ex) {
      seen += ex.what();
    }
  return seen;
}

#ifdef WORK_PRIVATE
#include "work_private.inc"
#endif
static const struct Work {
  const char *name;
  std::string (*work)(Rng, const Env &);
  uint64_t run(const Rng &r, const Env &e) const {
    const std::string seen = work(r, e);
    return hashBytes(seen.data(), seen.size());
  }
} WORK[] = {{"files", fileWork},        {"scans", scanWork},       
#ifndef WORK_PRIVATE
 {"printer", printWork},
#endif
    {"queues", queueWork},
            {"text-members", textWork}, {"binary", binaryWork},    {"xml", xmlWork},          {"databases", databaseWork},
            {"settings", settingsWork}, {"archives", zipWork},     {"documents", documentWork}, {"paths", pathWork},
            {"lists", listWork},        {"errors", errorWork}
#ifdef WORK_PRIVATE
, PRIVATE_WORK
#endif
};
static const size_t NWORK = sizeof WORK / sizeof *WORK;

static Env prepare(Case &c) {
  Rng &r = c.rng;
  Env e;
  e.root = S().scratch + fmt("/g%llu", (unsigned long long)c.idx);
  ::mkdir(e.root.c_str(), 0755);
  std::vector<std::string> dirs{e.root + "/tree"};
  ::mkdir(dirs[0].c_str(), 0755);
  for (int k = 0; k < 6; k++) {
    dirs.push_back(dirs[r.below(dirs.size())] + "/d" + std::to_string(k));
    ::mkdir(dirs.back().c_str(), 0755);
  }
  ::mkdir((dirs[0] + "/d0").c_str(), 0755);
  for (int k = 0; k < 10; k++)
    writeFile(dirs[k ? r.below(dirs.size()) : 0] + "/f" + std::to_string(k) + (k % 3 == 1 ? ".a" : ""), "text");
  std::ostringstream zip;
  BinWritterRef wr(zip);
  for (int k = 1 + r.below(6); k > 0; k--) {
    const std::string name = "n" + std::to_string(k) + r.text(r.below(50), "abc/"), data = r.bytes(1 + r.len(40, 20000));
    ZIPLocalFile h{};
    h.id = ZIPLocalFile::ID;
    h.compressedSize = h.uncompressedSize = data.size();
    h.fileNameSize = name.size();
    wr.Write(h);
    wr.WriteContainer(name);
    wr.WriteContainer(data);
  }
  e.archive = zip.str();
  return e;
}
