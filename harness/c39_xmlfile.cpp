// C39: XML documents go to files and come back as asked for; errors are told apart.
#include "datas/pugiex.hpp"
#include "mon.hpp"
#include <memory>
#include <sys/stat.h>
using namespace mon;

// Model of a document.
struct Node {
  char kind = 'e'; // element, text, cdata, comment, instruction
  std::string name, value;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Node> kids;
};
static std::string utf8(uint32_t c) {
  std::string o;
  if (c < 0x80)
    o += char(c);
  else if (c < 0x800)
    o += char(0xc0 | c >> 6), o += char(0x80 | (c & 63));
  else if (c < 0x10000)
    o += char(0xe0 | c >> 12), o += char(0x80 | (c >> 6 & 63)), o += char(0x80 | (c & 63));
  else
    o += char(0xf0 | c >> 18), o += char(0x80 | (c >> 12 & 63)), o += char(0x80 | (c >> 6 & 63)), o += char(0x80 | (c & 63));
  return o;
}
// Latin: only characters which every encoding has.
static std::string chars(Rng &r, size_t n, bool latin) {
  std::string o;
  while (n--)
    switch (r.below(8)) {
    case 0: o += r.pick(std::vector<std::string>{"<", ">", "&", "\"", "'", "]", "&amp;", "-"}); break;
    case 1: o += utf8(uint32_t(0xa1 + r.below(0x5e))); break;
    case 2: o += latin ? "z" : utf8(uint32_t(0x100 + r.below(0x1000))); break;
    case 3: o += latin ? "y" : utf8(uint32_t(0x10000 + r.below(0x100000))); break;
    case 4: o += " "; break;
    default: o += char('a' + r.below(26));
    }
  return o;
}
static std::string name(Rng &r) { return std::string(1, char('a' + r.below(3))) + r.text(r.below(4), "ab_.-09"); }
static std::string word(Rng &r, bool latin) { return "x" + chars(r, r.len(15, 20000), latin) + "x"; }
static Node make(Rng &r, int depth, bool latin) {
  Node n;
  n.name = name(r);
  for (size_t k = r.below(4); k--;)
    n.attrs.push_back({fmt("%s%zu", name(r).c_str(), k), chars(r, r.len(20, 20000), latin)});
  bool text = false;
  for (size_t k = depth ? r.below(5) : 0; k--;) {
    Node c;
    switch (r.below(8)) {
    case 0:
      if (text)
        continue; // texts next to each other become one
      c.kind = 't', c.value = word(r, latin);
      text = true;
      break;
    case 1:
      c.kind = 'd', c.value = word(r, latin);
      while (c.value.find("]]>") != c.value.npos)
        c.value.erase(c.value.find("]]>"), 1);
      text = false;
      break;
    case 2:
      c.kind = 'c', c.value = "c" + r.text(r.below(9), "abc <&");
      text = false;
      break;
    case 3:
      c.kind = 'p', c.name = "pi", c.value = "v" + r.text(r.below(6));
      text = false;
      break;
    default: c = make(r, depth - 1, latin); text = false;
    }
    n.kids.push_back(c);
  }
  return n;
}
static void build(pugi::xml_node p, const Node &n) {
  pugi::xml_node x;
  switch (n.kind) {
  case 'e':
    x = p.append_child(n.name.c_str());
    for (auto &a : n.attrs)
      x.append_attribute(a.first.c_str()) = a.second.c_str();
    for (auto &k : n.kids)
      build(x, k);
    break;
  case 't': p.append_child(pugi::node_pcdata).set_value(n.value.c_str()); break;
  case 'd': p.append_child(pugi::node_cdata).set_value(n.value.c_str()); break;
  case 'c': p.append_child(pugi::node_comment).set_value(n.value.c_str()); break;
  default:
    x = p.append_child(pugi::node_pi);
    x.set_name(n.name.c_str());
    x.set_value(n.value.c_str());
  }
}
// What is to be seen when read with the flags.
static std::string show(const Node &n, bool comments, bool pi, bool cdata) {
  switch (n.kind) {
  case 't': return "T(" + n.value + ")";
  case 'd': return cdata ? "D(" + n.value + ")" : "";
  case 'c': return comments ? "C(" + n.value + ")" : "";
  case 'p': return pi ? "P(" + n.name + "," + n.value + ")" : "";
  }
  std::string o = "E(" + n.name;
  for (auto &a : n.attrs)
    o += "|" + a.first + "=" + a.second;
  o += ":";
  for (auto &k : n.kids)
    o += show(k, comments, pi, cdata);
  return o + ")";
}
static std::string show(pugi::xml_node n) {
  switch (n.type()) {
  case pugi::node_pcdata: return "T(" + std::string(n.value()) + ")";
  case pugi::node_cdata: return "D(" + std::string(n.value()) + ")";
  case pugi::node_comment: return "C(" + std::string(n.value()) + ")";
  case pugi::node_pi: return "P(" + std::string(n.name()) + "," + n.value() + ")";
  case pugi::node_declaration: return "X()";
  case pugi::node_doctype: return "Y(" + std::string(n.value()) + ")";
  case pugi::node_null: return "0";
  default:;
  }
  std::string o = "E(" + std::string(n.name());
  for (auto a : n.attributes())
    o += "|" + std::string(a.name()) + "=" + a.value();
  o += ":";
  for (auto k : n.children())
    o += show(k);
  return o + ")";
}

struct PF { XMLParseFlag f; unsigned p; };
static const PF parseFlags[] = {
    {XMLParseFlag::PI, pugi::parse_pi}, {XMLParseFlag::Comments, pugi::parse_comments}, {XMLParseFlag::CDATA, pugi::parse_cdata},
    {XMLParseFlag::WhiteSpacePCDATA, pugi::parse_ws_pcdata}, {XMLParseFlag::Escapes, pugi::parse_escapes},
    {XMLParseFlag::EOL, pugi::parse_eol}, {XMLParseFlag::WConvAttribute, pugi::parse_wconv_attribute},
    {XMLParseFlag::WNormAttribute, pugi::parse_wnorm_attribute}, {XMLParseFlag::Declaration, pugi::parse_declaration},
    {XMLParseFlag::DocType, pugi::parse_doctype}, {XMLParseFlag::WhiteSpavePCDATASingle, pugi::parse_ws_pcdata_single},
    {XMLParseFlag::TrimPCDATA, pugi::parse_trim_pcdata}, {XMLParseFlag::Fragment, pugi::parse_fragment},
    {XMLParseFlag::EmbedPCDATA, pugi::parse_embed_pcdata}};
struct FF { XMLFormatFlag f; unsigned p; };
static const FF formatFlags[] = {
    {XMLFormatFlag::Indent, pugi::format_indent}, {XMLFormatFlag::WriteBOM, pugi::format_write_bom}, {XMLFormatFlag::Raw, pugi::format_raw},
    {XMLFormatFlag::NoDeclaration, pugi::format_no_declaration}, {XMLFormatFlag::NoEscapes, pugi::format_no_escapes},
    {XMLFormatFlag::SaveFileText, pugi::format_save_file_text}, {XMLFormatFlag::IndentAttributes, pugi::format_indent_attributes},
    {XMLFormatFlag::NoEmptyElementTaggs, pugi::format_no_empty_element_tags},
    {XMLFormatFlag::SkipControlChars, pugi::format_skip_control_chars}};
struct EN { XMLEncoding e; pugi::xml_encoding p; const char *bom; };
static const EN encodings[] = {
    {XMLEncoding::Auto, pugi::encoding_auto, ""}, {XMLEncoding::UTF8, pugi::encoding_utf8, "efbbbf"},
    {XMLEncoding::UTF16_LE, pugi::encoding_utf16_le, "fffe"}, {XMLEncoding::UTF16_BE, pugi::encoding_utf16_be, "feff"},
    {XMLEncoding::UFT16, pugi::encoding_utf16, "fffe"}, {XMLEncoding::UTF32_LE, pugi::encoding_utf32_le, "fffe0000"},
    {XMLEncoding::UTF32_be, pugi::encoding_utf32_be, "0000feff"}, {XMLEncoding::UTF32, pugi::encoding_utf32, "fffe0000"},
    {XMLEncoding::Wchar, pugi::encoding_wchar, "fffe0000"}, {XMLEncoding::Latin1, pugi::encoding_latin1, ""}};

struct StrWriter : pugi::xml_writer {
  std::string s;
  void write(const void *d, size_t n) override { s.append((const char *)d, n); }
};

MON_SECTION(files, 1500, 30000) {
  Rng &r = c.rng;
  auto &en = encodings[r.below(10)];
  Node root = make(r, int(1 + r.below(4)), en.e == XMLEncoding::Latin1);
  pugi::xml_document doc;
  build(doc, root);
  std::string path = S().scratch + fmt("/x%llu %s.xml", (unsigned long long)c.idx, r.chance(1, 2) ? "\xc3\xa9" : "e");
  distinct(show(root, true, true, true));
  note(show(root, true, true, true));
  // 1: written with defaults, read with defaults
  XMLToFile(path, doc);
  {
    auto got = XMLFromFile(path);
    std::string want = show(root, false, false, true);
    CHECK(show(got.document_element()) == want, "default-round-trip", "got %s want %s", show(got.document_element()).c_str(), want.c_str());
    bool all = r.chance(1, 2);
    auto fl = XMLDefaultParseFlags;
    if (all) {
      fl += XMLParseFlag::Comments;
      fl += XMLParseFlag::PI;
      auto got2 = XMLFromFile(path, fl);
      want = show(root, true, true, true);
      CHECK(show(got2.document_element()) == want, "all-round-trip", "got %s want %s", show(got2.document_element()).c_str(), want.c_str());
    }
    StrWriter w;
    doc.save(w);
    CHECK(readFile(path) == w.s, "default-format", "got %s want %s", esc(readFile(path)).c_str(), esc(w.s).c_str());
    event("round-trips");
  }
  // 2: each flag, encoding and indentation means what it says
  XMLFormatFlags ff;
  unsigned pf = 0;
  for (auto &f : formatFlags)
    if (r.chance(1, 3)) {
      ff += f.f;
      pf |= f.p;
    }
  const char *indent = r.pick(std::vector<const char *>{"\t", "", "  ", " "});
  XMLToFile(path, doc, ff, indent, en.e);
  std::string bytes = readFile(path);
  StrWriter w;
  doc.save(w, indent, pf, en.p);
  CHECK(bytes == w.s, "format", "flags %x encoding %d: got %s want %s", pf, int(en.p), esc(bytes).c_str(), esc(w.s).c_str());
  if (pf & pugi::format_write_bom) {
    std::string bom = en.e == XMLEncoding::Auto ? "efbbbf" : en.bom;
    CHECK(hex(bytes).compare(0, bom.size(), bom) == 0, "bom", "encoding %d: %s", int(en.p), hex(bytes.substr(0, 8)).c_str());
    event("boms");
  }
  event("formats");
  // 3: read back in the encoding it has
  XMLParseFlags rf;
  unsigned prf = 0;
  for (auto &f : parseFlags)
    if (r.chance(1, 2)) {
      rf += f.f;
      prf |= f.p;
    }
  pugi::xml_document direct;
  auto res = direct.load_file(path.c_str(), prf, en.p);
  try {
    auto got = XMLFromFile(path, rf, en.e);
    CHECK(bool(res), "accepted", "flags %x: %s", prf, esc(bytes).c_str());
    CHECK(show(got) == show(direct), "flags", "flags %x: got %s want %s", prf, show(got).c_str(), show(direct).c_str());
    event("reads");
  } catch (std::runtime_error &e) {
    CHECK(!res, "refused", "flags %x: %s for %s", prf, e.what(), esc(bytes).c_str());
  }
  if (!(pf & pugi::format_no_escapes)) {
    auto got = XMLFromFile(path, XMLDefaultParseFlags, en.e);
    std::string want = show(root, false, false, true), have = show(got.document_element());
    // indentation does not add texts; raw output adds none either
    CHECK(have == want, "encoding-round-trip", "encoding %d flags %x: got %s want %s", int(en.p), pf, have.c_str(), want.c_str());
    event("encodings");
  }
  // 4: children
  auto el = doc.document_element();
  std::string nm = r.chance(1, 4) ? "" : r.chance(1, 2) && !root.kids.empty() ? r.pick(root.kids).name : name(r);
  std::string padded = nm + "zz";
  auto kids = XMLCollectChildren(el, es::string_view(padded.data(), nm.size()));
  size_t k = 0;
  for (auto ch : el.children())
    if (nm.empty() || ch.name() == nm) {
      CHECK(k < kids.size() && kids[k] == ch, "children", "child %zu named '%s'", k, nm.c_str());
      k++;
    }
  CHECK(kids.size() == k, "children-count", "%zu want %zu", kids.size(), k);
  CHECK(XMLCollectChildren({}).empty(), "no-children", "of no node");
  event("children");
  // 5: errors naming nodes
  pugi::xml_node any = kids.empty() ? el : kids[0];
  std::string mn = "m" + r.text(3);
  auto has = [&](const std::exception &e, const std::string &what) {
    std::string t = e.what();
    std::string nn = any.name();
    CHECK(t.find("XML node " + nn + " at offset ") == 0 && t.size() > what.size() && t.substr(t.size() - what.size()) == what, "node-error",
          "%s", t.c_str());
  };
  has(XMLMissingNodeException(mn, any), "Missing child " + mn);
  has(XMLMissingNodeAttributeException(mn, any), "Missing attribute " + mn);
  has(XMLEmptyData(any), "Missing data");
  unlink(path.c_str());
}

static const char *const statusNames[] = {
    "status_ok", "status_file_not_found", "status_io_error", "status_out_of_memory", "status_internal_error", "status_unrecognized_tag",
    "status_bad_pi", "status_bad_comment", "status_bad_cdata", "status_bad_doctype", "status_bad_pcdata", "status_bad_start_element",
    "status_bad_attribute", "status_bad_end_element", "status_end_element_mismatch", "status_append_invalid_root",
    "status_no_document_element"};
static const char *const broken[] = {
    "<a", "<a>", "<a></b>", "<a b></a>", "<a b=c/>", "<a b='1/>", "<?", "<?xml ", "<!-- x", "<![CDATA[ x", "<!DOCTYPE a", "<a/></a>",
    "<a>&", "<", "<1/>", "<a></a", "<a b='1'c='2'/>", "<!x>", "</a>", "<a><!-- -- </a>", "<?pi ?x", "<a ", "<![CDATA[]]", "<!DOCTYPE a [ <!x"};

MON_SECTION(broken_files, 1500, 30000) {
  Rng &r = c.rng;
  std::string text;
  if (r.chance(1, 3))
    text = broken[r.below(sizeof broken / sizeof *broken)];
  else {
    Node root = make(r, 3, false);
    pugi::xml_document doc;
    build(doc, root);
    StrWriter w;
    doc.save(w);
    text = w.s;
    for (size_t n = 1 + r.below(3); n--;)
      switch (r.below(4)) {
      case 0: text = text.substr(0, r.below(text.size() + 1)); break;
      case 1: text.insert(r.below(text.size() + 1), r.pick(std::vector<std::string>{"<", ">", "<a>", "</a>", "<!", "<?", "&", "'"})); break;
      case 2:
        if (!text.empty())
          text.erase(r.below(text.size()), 1 + r.below(4));
        break;
      default:
        if (!text.empty())
          text[r.below(text.size())] = "<>/'\"= a"[r.below(8)];
      }
  }
  if (r.chance(1, 10))
    text = r.chance(1, 2) ? "" : r.chance(1, 2) ? "  \n" : "<!-- only -->";
  std::string path = S().scratch + fmt("/b%llu.xml", (unsigned long long)c.idx);
  writeFile(path, text);
  note(esc(text));
  distinct(text);
  pugi::xml_document direct;
  auto res = direct.load_file(path.c_str());
  try {
    auto got = XMLFromFile(path);
    CHECK(bool(res), "broken-accepted", "%s", esc(text).c_str());
    CHECK(show(got) == show(direct), "broken-content", "%s", esc(text).c_str());
    event("still-fine");
  } catch (es::FileNotFoundError &e) {
    violation("broken-kind", "an existing file was not found: " + esc(text));
  } catch (es::InvalidHeaderError &e) {
    CHECK(res.status == pugi::status_no_document_element, "broken-kind", "%s", esc(text).c_str());
    event("no-document");
  } catch (std::runtime_error &e) {
    CHECK(!res && res.status != pugi::status_no_document_element, "broken-kind", "%s", esc(text).c_str());
    std::string t = e.what();
    CHECK(t.find(path) != t.npos && t.find(std::string("[") + statusNames[res.status] + "]") != t.npos &&
              t.find("offset " + std::to_string(res.offset)) != t.npos,
          "broken-message", "'%s' for %s at %td", t.c_str(), statusNames[res.status], res.offset);
    event("broken");
    event(statusNames[res.status]);
  }
  unlink(path.c_str());
  // files which are not there, or cannot be
  std::string none = path + (r.chance(1, 2) ? ".none" : "/none");
  try {
    XMLFromFile(none);
    violation("missing", "a missing file was read");
  } catch (es::FileNotFoundError &e) {
    CHECK(std::string(e.what()).find(none) != std::string::npos, "missing-name", "%s", e.what());
    event("missing");
  } catch (std::exception &e) {
    violation("missing-kind", e.what());
  }
  pugi::xml_document d2;
  d2.append_child("a");
  for (auto &bad : {path + "/no/file.xml", S().scratch})
    try {
      XMLToFile(bad, d2);
      violation("unwritable", "no error for " + bad);
    } catch (es::FileInvalidAccessError &e) {
      CHECK(std::string(e.what()).find(bad) != std::string::npos, "unwritable-name", "%s", e.what());
      event("unwritable");
    } catch (std::exception &e) {
      violation("unwritable-kind", e.what());
    }
  try {
    XMLFromFile(S().scratch);
    violation("folder", "a folder was read");
  } catch (std::runtime_error &e) {
    event("folders");
  }
}
MON_MAIN
