// Script interpreter over order builders, orders and ordering strategies.  usage: order SCRIPT OUT
#include "common.hh"
#include "sdd/sdd.hh"
#include "sdd/order/strategies/flatten.hh"
#include "sdd/order/strategies/force.hh"
#include "sdd/order/strategies/force_hypergraph.hh"
#include "sdd/order/strategies/identifiers_per_hierarchy.hh"
#ifdef JSON
#include "sdd/tools/order.hh"
#endif
#ifndef CONF
#define CONF 0
#endif
#if CONF == 0
struct conf : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<unsigned int>; };
#ifdef JSON
// identifiers of the JSON scripts: texts that need care in JSON (quotes, backslashes, control characters, accents), large numbers
static const char* const odd[] = {"", "\"", "\\", "a\nb", "\\\"", "[1,2]", "\xc3\xa9", ",", "\t", "\x1f", " ", "\\u0041"};
static std::string ident(int i) { return (i < 12 ? std::string(odd[i]) : "x") + (i == 0 ? "" : std::to_string(i)); }
static int index_of(const std::string& t) { for (int i = 0; i < 500; ++i) if (ident(i) == t) return i; return 99998; }
static std::string quote(const std::string& t) { std::string s = "\""; char u[8]; for (char k : t) { if (k == '"' || k == '\\') { s += '\\'; s += k; } else if ((unsigned char)k < 32) { std::snprintf(u, sizeof u, "\\u%04X", k); s += u; } else s += k; } return s + "\""; }
static std::string leaf(int i, int) { return quote(ident(i)); }
#else
static std::string ident(int i) { return i == 0 ? std::string() : "x" + std::to_string(i); }
static int index_of(const std::string& s) { return s.empty() ? 0 : std::stoi(s.substr(1)); }
#endif
#else
struct conf : sdd::default_configuration { using Identifier = unsigned int; using Values = sdd::values::bitset<64>; using variable_type = unsigned char; };
#ifdef JSON
static unsigned ident(int i) { return i % 3 == 0 ? (unsigned)i : i % 3 == 1 ? 2147483000u + (unsigned)i : 4000000000u + (unsigned)i; }
static int index_of(unsigned t) { for (int i = 0; i < 500; ++i) if (ident(i) == t) return i; return 99998; }
// small numbers may be written as strings
static std::string leaf(int i, int how) { const auto t = std::to_string(ident(i)); return how && i % 3 == 0 ? "\"" + t + "\"" : t; }
#else
static unsigned ident(int i) { return (unsigned)i; }
static int index_of(unsigned i) { return (int)i; }
#endif
#endif
using I = conf::Identifier; using OB = sdd::order_builder<conf>; using O = sdd::order<conf>; using OI = sdd::order_identifier<conf>;

static std::map<int, OB> bs; static std::map<int, O> os; static std::map<int, std::unique_ptr<sdd::force::hypergraph<conf>>> hs;
static int id_of(const OI& i) { if (i.is_artificial() != (i.artificial() != 0)) return 99999; return i.is_artificial() ? -(int)i.artificial() : index_of(i.user()); }
static std::string tree(const OB& b) {
  std::string s = "["; OB x = b; bool f = true;
  while (!x.empty()) { s += (f ? "[" : ",[") + std::to_string(id_of(x.identifier())) + "," + tree(x.nested()) + "]"; f = false; x = x.next(); }
  return s + "]"; }
static std::string tree(const O& o) {
  std::string s = "["; O x = o; bool f = true;
  while (!x.empty()) { s += (f ? "[" : ",[") + std::to_string(id_of(x.identifier())) + "," + std::to_string(x.position()) + "," + std::to_string((long)x.variable()) + "," + tree(x.nested()) + "]"; f = false; x = x.next(); }
  return s + "]"; }
template <typename M, typename V> void set(M& m, int d, V&& v) { auto it = m.find(d); if (it == m.end()) m.emplace(d, std::forward<V>(v)); else it->second = std::forward<V>(v); }
static void put_b(ev& e) { std::string s = "["; bool f = true; for (auto& x : bs) { s += (f ? "[" : ",[") + std::to_string(x.first) + "," + tree(x.second) + "]"; f = false; } e.raw("all", s + "]"); }
static void put_o(ev& e) { std::string s = "["; bool f = true; for (auto& x : os) { s += (f ? "[" : ",[") + std::to_string(x.first) + "," + tree(x.second) + "]"; f = false; } e.raw("allo", s + "]"); }
static int quoted(const std::string& w) { auto a = w.find('"'), b = w.rfind('"'); if (a == std::string::npos || b <= a) return -1; auto t = w.substr(a + 1, b - a - 1);
#if CONF == 0
  return index_of(t);
#else
  return std::stoi(t);
#endif
}

#ifdef JSON
// reads JSON (arrays, strings, numbers only); the result as [[identifier or -1, elements]...]
struct reader {
  const std::string& t; std::size_t p = 0; bool bad = false;
  void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r')) ++p; }
  bool is(char k) { ws(); if (p < t.size() && t[p] == k) { ++p; return true; } return false; }
  std::string item() {
    ws(); if (p < t.size() && t[p] == '[') return "[-1," + array() + "]";
    if (is('"')) { std::string r; for (;;) { if (p >= t.size() || (unsigned char)t[p] < 32) { bad = true; return "[]"; } char k = t[p++]; if (k == '"') break;
        if (k == '\\') { if (p >= t.size()) { bad = true; return "[]"; } k = t[p++]; if (k == 'n') k = '\n'; else if (k == 't') k = '\t'; else if (k == 'r') k = '\r'; else if (k == 'b') k = '\b'; else if (k == 'f') k = '\f'; else if (k == 'u') { k = (char)std::stoi(t.substr(p, 4), nullptr, 16); p += 4; } else if (k != '"' && k != '\\' && k != '/') { bad = true; return "[]"; } }
        r += k; }
#if CONF == 0
      return "[" + std::to_string(index_of(r)) + ",[]]"; }
    bad = true; return "[]"; }
#else
      bad = true; return "[]"; }
    std::size_t q = p; while (q < t.size() && std::isdigit((unsigned char)t[q])) ++q;
    if (q == p) { bad = true; return "[]"; }
    const std::string n = t.substr(p, q - p); p = q; return "[" + std::to_string(index_of((unsigned)std::stoul(n))) + ",[]]"; }
#endif
  std::string array() {
    if (!is('[')) { bad = true; return "[]"; }
    std::string s = "["; bool f = true; if (is(']')) return "[]";
    do { s += (f ? "" : ",") + item(); f = false; if (bad) return "[]"; } while (is(','));
    if (!is(']')) bad = true;
    return s + "]"; }
  std::string all() { std::string s = array(); ws(); if (p != t.size()) bad = true; return bad ? "[]" : s; }
};
// builder and JSON text from a script: numbers, and ( ) around nested elements
static OB jbuild(const std::vector<int>& w, std::size_t& p) { OB r; while (p < w.size()) { int i = w[p++]; if (i == -2) break; if (p < w.size() && w[p] == -1) { ++p; OB n = jbuild(w, p); r = r << OB(ident(i), n); } else r = r << OB(ident(i)); } return r; }
static std::string jtext(const std::vector<int>& w, std::size_t& p, int how) { static const char* const sp[] = {"", " ", "\n", "\t "}; std::string s = "["; bool f = true; while (p < w.size()) { int i = w[p++]; if (i == -2) break; s += f ? sp[how % 4] : std::string(sp[how % 3]) + "," + sp[how % 2]; f = false; if (i == -1) s += jtext(w, p, how); else if (i == -3) s += "\"seven\""; else s += leaf(i, how & 4); } return s + sp[how % 3] + "]"; }
static bool load(ev& e, int d, const std::string& text) {
  std::istringstream in(text); bool set_ = false;
  try { auto r = sdd::tools::load_order<conf>(in); if (r) { set(bs, d, *r); set_ = true; e.str("x", "").raw("r", tree(*r)); } else e.str("x", "none").raw("r", "[]"); }
  catch (const std::exception&) { e.str("x", "refused").raw("r", "[]"); }
  return set_; }
#endif

static bool run(cmd& c) {
  const std::string op = c.word();
  ev e; e.str("e", op);
  bool b = false, o = false;
  if (op == "start") { bs.clear(); os.clear(); hs.clear(); }
  else if (op == "bnew") { int d = c.num(); e.num("d", d); set(bs, d, OB()); b = true; }
  else if (op == "blist") { int d = c.num(), how = c.num(); auto l = c.nums(); e.num("d", d).list("l", l); std::vector<I> v; for (int i : l) v.push_back(ident(i));
    if (how == 0 && v.size() == 2) set(bs, d, OB{v[0], v[1]}); else if (how == 0 && v.size() == 3) set(bs, d, OB{v[0], v[1], v[2]}); else set(bs, d, OB(v.begin(), v.end())); b = true; }
  else if (op == "bone") { int d = c.num(), how = c.num(), i = c.num(); e.num("d", d).num("i", i); const I x = ident(i); set(bs, d, how ? OB(x) : OB(ident(i))); b = true; }
  else if (op == "bnest") { int d = c.num(), how = c.num(), i = c.num(), a = c.num(); e.num("d", d).num("i", i).num("a", a); const I x = ident(i); set(bs, d, how ? OB(x, bs.at(a)) : OB(ident(i), bs.at(a))); b = true; }
  else if (op == "bpush") { int d = c.num(), i = c.num(); e.num("d", d).num("i", i); OB& r = bs.at(d).push(ident(i)); if (&r != &bs.at(d)) e.str("x", "ref"); b = true; }
  else if (op == "bpushn") { int d = c.num(), i = c.num(), a = c.num(); e.num("d", d).num("i", i).num("a", a); bs.at(d).push(ident(i), bs.at(a)); b = true; }
  else if (op == "bcat") { int d = c.num(), a = c.num(), n = c.num(); e.num("d", d).num("a", a).num("n", n); OB r = bs.at(a) << bs.at(n); set(bs, d, r); b = true; }
  else if (op == "bcopy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); OB x(bs.at(a)); set(bs, d, x); b = true; }
  else if (op == "bdel") { int d = c.num(); e.num("d", d); bs.erase(d); b = true; }
  else if (op == "bobs") { int d = c.num(); const OB& x = bs.at(d); e.num("d", d).boolean("empty", x.empty()).num("size", (long long)x.size()).num("height", x.empty() ? 0 : (long long)x.height()); }
  else if (op == "onew") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a);
    try { O x(bs.at(a)); set(os, d, x); e.str("x", "").num("dup", -1); } catch (const sdd::duplicate_identifier_error<conf>& ex) { const sdd::order_error& base = ex; e.str("x", "dup").num("dup", quoted(base.what())); } o = true; }
  else if (op == "onext" || op == "onest") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); O x = op == "onext" ? os.at(a).next() : os.at(a).nested(); set(os, d, std::move(x)); o = true; }
  else if (op == "ocopy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); O x(os.at(a)); set(os, d, x); o = true; }
  else if (op == "odel") { int d = c.num(); e.num("d", d); os.erase(d); o = true; }
  else if (op == "oobs") { int d = c.num(); const O& x = os.at(d); std::vector<I> f; x.flat(std::back_inserter(f)); std::vector<I> g(f.size()); x.flat(g.begin()); std::vector<int> l, l2; for (auto& i : f) l.push_back(index_of(i)); for (auto& i : g) l2.push_back(index_of(i));
    e.num("d", d).boolean("empty", x.empty()).list("flat", l).list("flat2", l2);
    // the text, with identifiers and indentation as numbers
    std::ostringstream t; t << x; std::istringstream in(t.str()); std::string line, txt = "["; bool first = true, bad = false;
    while (std::getline(in, line)) { std::size_t sp = 0; while (sp < line.size() && line[sp] == ' ') ++sp; auto p = line.rfind(" (");
      // an empty identifier leaves nothing between the indentation and the variable
      if (p == std::string::npos || line.back() != ')') { bad = true; break; }
      long ind = (long)sp; std::string name; if (p >= sp) name = line.substr(sp, p - sp); else ind = (long)p;
#if CONF == 0
      long i = name.empty() ? 0 : name[0] == '@' ? -std::stol(name.substr(1)) : index_of(name);
#else
      long i = name[0] == '@' ? -std::stol(name.substr(1)) : std::stol(name);
#endif
      std::string v = line.substr(p + 2, line.size() - p - 3);
      long var = sizeof(conf::variable_type) == 1 ? (long)(unsigned char)v[0] : std::stol(v);
      txt += (first ? "[" : ",[") + std::to_string(ind) + "," + std::to_string(i) + "," + std::to_string(var) + "]"; first = false; }
    e.boolean("text", sizeof(conf::variable_type) != 1 && !bad).raw("lines", sizeof(conf::variable_type) != 1 ? txt + "]" : "[]").num("hash", 0); }
  else if (op == "onode") { int d = c.num(), i = c.num(); e.num("d", d).num("i", i);
    try { const auto& n = os.at(d).node(ident(i)); const auto& m = os.at(d).node_from_position(n.position());
      e.str("x", &n == &m ? "" : "pos").num("id", id_of(n.identifier())).num("pos", n.position()).num("var", n.variable()).list("path", n.path()).num("next", n.next() ? (int)n.next()->position() : -1).num("nested", n.nested() ? (int)n.nested()->position() : -1); }
    catch (const sdd::identifier_not_found_error<conf>& ex) { const sdd::order_error& base = ex; e.str("x", "unknown").num("id", quoted(base.what())); } }
  else if (op == "ocont") { int d = c.num(), n = c.num(); e.num("d", d).num("n", n); const O& x = os.at(d); std::string s = "["; bool f = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (x.contains(i, j)) { s += (f ? "[" : ",[") + std::to_string(i) + "," + std::to_string(j) + "]"; f = false; } e.raw("in", s + "]"); }
  else if (op == "ocmp") { std::string eq = "["; bool f = true, bad = false; for (auto& x : os) for (auto& y : os) { const bool q = x.second == y.second; if (q && std::hash<O>()(x.second) != std::hash<O>()(y.second)) bad = true; if (q) { eq += (f ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(y.first) + "]"; f = false; } } e.raw("eq", eq + "]").boolean("hash", !bad); }
  else if (op == "sflat") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); OB r = sdd::flatten<conf>()(bs.at(a)); set(bs, d, r); b = true; }
  else if (op == "sgroup") { int d = c.num(), n = c.num(), a = c.num(); e.num("d", d).num("n", n).num("a", a); OB r = sdd::identifiers_per_hierarchy<conf>((unsigned)n)(bs.at(a)); set(bs, d, r); b = true; e.raw("r", tree(r)); }
  else if (op == "hnew") { int h = c.num(); auto l = c.nums(); e.num("h", h).list("l", l); std::vector<I> v; for (int i : l) v.push_back(ident(i));
    try { hs[h] = std::make_unique<sdd::force::hypergraph<conf>>(v.begin(), v.end()); e.str("x", ""); } catch (const std::runtime_error& ex) { hs.erase(h); e.str("x", "twice"); } }
  else if (op == "hedge") { int h = c.num(), w = c.num(); auto l = c.nums(); e.num("h", h).num("w", w).list("l", l); std::vector<I> v; for (int i : l) v.push_back(ident(i)); if (w == 2) hs.at(h)->add_hyperedge(v.begin(), v.end()); else hs.at(h)->add_hyperedge(v.begin(), v.end(), w / 2.0); }
  else if (op == "sforce") { int d = c.num(), h = c.num(), it = c.num(), rev = c.num(); e.num("d", d).num("h", h).num("it", it).boolean("rev", rev);
    sdd::force::worker<conf> w(*hs.at(h), rev); OB r = w((unsigned)it); set(bs, d, r); std::vector<long> sp; for (double x : w.spans()) sp.push_back((long)(x * 1000 + (x < 0 ? -0.5 : 0.5))); e.list("spans", sp).raw("r", tree(r)); b = true; }
#ifdef JSON
  else if (op == "jorder") { int d = c.num(); auto w = c.nums(); std::size_t p = 0; OB x = jbuild(w, p); e.num("d", d).raw("q", tree(x)); set(os, d, O(x)); }
  else if (op == "jpart") { int d = c.num(), a = c.num(), k = c.num(); e.num("d", d).num("a", a).num("k", k); O x = k ? os.at(a).nested() : os.at(a).next(); set(os, d, x); }
  else if (op == "jbuilt") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); set(os, d, O(bs.at(a))); }
  else if (op == "jcycle") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); std::ostringstream out; sdd::tools::dump_order(os.at(a), out); const std::string t = out.str(); reader r{t}; const std::string j = r.all(); e.boolean("bad", r.bad).raw("j", j); load(e, d, t); }
  else if (op == "jload") { int d = c.num(), how = c.num(); auto w = c.nums(); std::size_t p = 0; const std::string t = jtext(w, p, how); reader r{t}; e.num("d", d).list("w", w); load(e, d, t); }
  else if (op == "jnone") { int d = c.num(); e.num("d", d); load(e, d, ""); }
#endif
  else { std::cerr << "script error: unknown command " << op << "\n"; std::exit(3); }
  if (b) put_b(e);
  if (o) put_o(e);
  emit(e);
  return true;
}
int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); if (!in || !out) return 3;
  out_ = &out; cmd c; long n = 0;
  while (read_cmd(in, c)) { ++n; run(c); }
  ev e; e.str("e", "end").num("n", n); emit(e);
  out.flush();
  std::_Exit(0);
}
