// Script interpreter over the public interface of SDDs, orders and homomorphisms.
// usage: dd SCRIPT OUT.  One event per command, written when the call has returned (or thrown).
#ifndef CONF
#define CONF 1
#endif
#if CONF == 5        // configuration 1 in the packed mode
#define LIBSDD_PACKED
#undef CONF
#define CONF 1
#endif

#include <algorithm>
#include <array>

#include "common.hh"

#include "sdd/sdd.hh"
#include "sdd/tools/arcs.hh"
#include "sdd/tools/dot/sdd.hh"
#include "sdd/tools/nodes.hh"
#include "sdd/tools/sdd_statistics.hh"
#include "sdd/tools/size.hh"

// ---- configurations: identifiers and values are logged as indices into tables ----------------------
// The tables of values start with eight chosen ones (NT: those that homomorphisms know), then others.
static const std::size_t NT = 8;
template <typename T> T other(std::size_t i) { return (T)i; }
template <> std::string other<std::string>(std::size_t i) { return "k" + std::to_string(i); }
template <typename T> std::vector<T> extend(std::vector<T> v, std::size_t n, std::size_t below) {
  for (std::size_t i = 0; i < below && v.size() < n; i += below > 1000 ? 300 : 1) { T x = other<T>(i); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
  return v; }
#if CONF == 0
struct conf : sdd::default_configuration { using Identifier = std::string; using Values = sdd::values::bitset<64>; };
using value_type = std::size_t;
static const std::vector<value_type> VT = extend<value_type>({0, 1, 2, 31, 32, 33, 62, 63}, 64, 64);
#elif CONF == 1
struct conf : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<unsigned int>; };
using value_type = unsigned int;
static const std::vector<value_type> VT = extend<value_type>({0, 1, 2, 31, 32, 64, 65536, 4294967295u}, 320, 100000);
#elif CONF == 2
struct conf : sdd::flat_set_default_configuration { using Identifier = unsigned int; using Values = sdd::values::flat_set<unsigned int>; };
using value_type = unsigned int;
static const std::vector<value_type> VT = extend<value_type>({0, 1, 2, 3, 4, 5, 6, 7}, 320, 320);
#elif CONF == 3
struct conf : sdd::flat_set_default_configuration {
  using Identifier = std::string; using Values = sdd::values::flat_set<std::string>;
  using variable_type = unsigned char; using alpha_size_type = std::uint8_t; using operands_size_type = std::uint16_t; };
using value_type = std::string;
static const std::vector<value_type> VT = extend<value_type>({"", "a", "aa", "ab", "b", "ba", "c", "z"}, 64, 100);
#elif CONF == 4
struct conf : sdd::default_configuration { using Identifier = unsigned int; using Values = sdd::values::bitset<130>;
  using variable_type = unsigned short; };
using value_type = std::size_t;
static const std::vector<value_type> VT = extend<value_type>({0, 1, 63, 64, 65, 127, 128, 129}, 130, 130);
#endif
using C = conf;
using S = sdd::SDD<C>;
using H = sdd::homomorphism<C>;
using O = sdd::order<C>;
using Values = C::Values;
using Identifier = C::Identifier;

template <typename I> struct idx_id;
template <> struct idx_id<std::string> {
  static std::string make(int i) { return "x" + std::to_string(i); }
  static int index(const std::string& s) { return std::stoi(s.substr(1)); } };
template <> struct idx_id<unsigned int> {
  static unsigned int make(int i) { return i; }
  static int index(unsigned int i) { return (int)i; } };
static Identifier ident(int i) { return idx_id<Identifier>::make(i); }
static int index_of(const Identifier& i) { return idx_id<Identifier>::index(i); }

template <typename V> struct vt;
template <std::size_t N> struct vt<sdd::values::bitset<N>> {
  using V = sdd::values::bitset<N>;
  static V make(const std::vector<int>& l) { V v; for (int i : l) v.insert(VT[i]); return v; }
  static std::vector<int> list(const V& v) {
    std::vector<int> r; std::size_t seen = 0;
    for (std::size_t i = 0; i < VT.size(); ++i) if (v.content().test(VT[i])) { r.push_back((int)i); ++seen; }
    if (seen != v.content().count()) r.push_back(999);
    return r; }
};
template <typename T> struct vt<sdd::values::flat_set<T>> {
  using V = sdd::values::flat_set<T>;
  static V make(const std::vector<int>& l) { std::vector<T> x; for (int i : l) x.push_back(VT[i]); return V(x.begin(), x.end()); }
  static std::vector<int> list(const V& v) {
    static const std::map<T, int> index = [] { std::map<T, int> m; for (std::size_t i = 0; i < VT.size(); ++i) m[VT[i]] = (int)i; return m; }();
    std::vector<int> r; bool first = true; T last{};
    for (const auto& x : v) { auto it = index.find(x); r.push_back(it == index.end() ? 999 : it->second); if (!first && !(last < x)) r.push_back(998); first = false; last = x; }
    std::sort(r.begin(), r.end());
    return r; }
};
static Values mkvals(const std::vector<int>& l) { return vt<Values>::make(l); }
static std::vector<int> listvals(const Values& v) { return vt<Values>::list(v); }

// ---- content-based identifiers of diagrams ---------------------------------------------------------
static std::unordered_map<std::string, int> ids;       // content -> id
static std::string* fresh = nullptr;                    // JSON of the nodes seen for the first time
static int next_id = 2;
struct dumper {
  std::unordered_map<const void*, int>& memo;
  int operator()(const sdd::zero_terminal<C>&) const { return 0; }
  int operator()(const sdd::one_terminal<C>&) const { return 1; }
  int operator()(const sdd::flat_node<C>& n) const {
    auto it = memo.find(&n); if (it != memo.end()) return it->second;
    std::vector<std::string> arcs;
    for (const auto& a : n) arcs.push_back("[" + jlist(listvals(a.valuation())) + "," + std::to_string(visit(*this, a.successor())) + "]");
    return memo[&n] = intern(n.variable(), 0, arcs);
  }
  int operator()(const sdd::hierarchical_node<C>& n) const {
    auto it = memo.find(&n); if (it != memo.end()) return it->second;
    std::vector<std::string> arcs;
    for (const auto& a : n) { int v = visit(*this, a.valuation()), s = visit(*this, a.successor());
      arcs.push_back("[" + std::to_string(v) + "," + std::to_string(s) + "]"); }
    return memo[&n] = intern(n.variable(), 1, arcs);
  }
  int intern(unsigned var, int kind, std::vector<std::string>& arcs) const {
    std::sort(arcs.begin(), arcs.end());
    std::string body = "\"v\":" + std::to_string(var) + ",\"k\":" + std::to_string(kind) + ",\"a\":[";
    for (std::size_t i = 0; i < arcs.size(); ++i) { if (i) body += ','; body += arcs[i]; }
    body += "]";
    auto ins = ids.emplace(body, next_id);
    if (ins.second) { if (!fresh->empty()) *fresh += ','; *fresh += "{\"i\":" + std::to_string(next_id) + "," + body + "}"; ++next_id; }
    return ins.first->second;
  }
};
static int id_of(const S& x) { std::unordered_map<const void*, int> memo; return visit(dumper{memo}, x); }

// every single assignment of an order over the first nv values, as diagrams
static std::vector<S> all_cubes(const O& o, int nv) {
  if (o.empty()) return {sdd::one<C>()};
  std::vector<S> r; const std::vector<S> tails = all_cubes(o.next(), nv);
  if (o.nested().empty()) { for (int x = 0; x < nv; ++x) for (const S& t : tails) r.emplace_back(o.variable(), mkvals({x}), t); }
  else for (const S& n : all_cubes(o.nested(), nv)) for (const S& t : tails) r.emplace_back(o.variable(), n, t);
  return r;
}

// ---- user code --------------------------------------------------------------------------------------
struct user_error : std::exception { int k; user_error(int k_) : k(k_) {} const char* what() const noexcept override { return "user"; } };
static long calls = 0, throw_at = -1, throw_every = 0;
static std::vector<std::string>* user_log = nullptr;
static void tick() {
  ++calls;
  if (throw_at >= 0 && calls == throw_at) { throw user_error((int)calls); }
}
using table = std::vector<std::vector<int>>;
static Values image(const table& t, const Values& v) {
  std::set<int> r;
  for (int i : listvals(v)) { if (i < (int)t.size()) for (int j : t[i]) r.insert(j); }
  return mkvals(std::vector<int>(r.begin(), r.end()));
}
struct fun {                                  // function on one variable, with all optional members
  table t; bool sel, shift;
  Values operator()(const Values& v) const { tick(); return image(t, v); }
  bool selector() const noexcept { return sel; }
  bool shifter() const noexcept { return shift; }
  bool operator==(const fun& o) const noexcept { return t == o.t && sel == o.sel && shift == o.shift; }
};
static std::ostream& print_table(std::ostream& os, const table& t) { for (auto& l : t) { os << '['; for (int i : l) os << i << ' '; os << ']'; } return os; }
std::ostream& operator<<(std::ostream& os, const fun& f) { os << "fun" << f.sel << f.shift; return print_table(os, f.t); }
struct plain_fun {                            // without any optional member
  table t;
  Values operator()(const Values& v) const { tick(); return image(t, v); }
  bool operator==(const plain_fun& o) const noexcept { return t == o.t; }
};
struct ind {                                  // inductive homomorphisms; kinds are described in spec/Hom.tla
  int kind, x, y; table t;
  bool skip(const Identifier& i) const noexcept { return (kind == 0 || kind == 3 || kind == 4) && index_of(i) != x; }
  bool selector() const noexcept { return kind == 3; }
  H operator()(const O& o, const S& v) const {
    tick();
    if (kind == 2) { S inner = H(sdd::inductive<C>(*this))(o.nested(), v); return sdd::cons(o, inner, sdd::inductive<C>(*this)); }
    if (kind == 1) return sdd::cons(o, v, sdd::inductive<C>(*this));
    return sdd::cons(o, v, sdd::id<C>());
  }
  H operator()(const O& o, const Values& v) const {
    tick();
    const bool here = index_of(o.identifier().user()) == x;
    switch (kind) {
      case 1: return here ? sdd::cons(o, image(t, v), sdd::id<C>()) : sdd::cons(o, v, sdd::inductive<C>(*this));
      case 2: return sdd::cons(o, image(t, v), sdd::inductive<C>(*this));
      case 4: {
        std::vector<H> ops;
        for (int i : listvals(v)) {
          ind set{0, y, 0, table(NT, std::vector<int>{i})};
          ops.push_back(sdd::cons(o, mkvals({i}), sdd::inductive<C>(set)));
        }
        return sdd::sum<C>(o, ops.begin(), ops.end());
      }
      default: return sdd::cons(o, image(t, v), sdd::id<C>());
    }
  }
  S operator()() const { tick(); return sdd::one<C>(); }
  bool operator==(const ind& o) const noexcept { return kind == o.kind && x == o.x && y == o.y && t == o.t; }
};
std::ostream& operator<<(std::ostream& os, const ind& f) { os << "ind" << f.kind << ':' << f.x << ':' << f.y << ':'; return print_table(os, f.t); }
namespace std {
template <> struct hash<fun> { size_t operator()(const fun& f) const noexcept { return f.t.empty() ? 0 : f.t[0].size(); } };
template <> struct hash<plain_fun> { size_t operator()(const plain_fun& f) const noexcept { return f.t.empty() ? 0 : f.t[0].size(); } };
template <> struct hash<ind> { size_t operator()(const ind& f) const noexcept { return f.kind; } };
}

// ---- state of the interpreter ----------------------------------------------------------------------
static const int NS = 2100, NH = 400, NO = 32;
static std::unique_ptr<sdd::manager<C>> man;
static std::vector<std::unique_ptr<S>> ss(NS);
static std::vector<bool> moved(NS, false);               // slot holds a moved-from handle
static std::vector<std::unique_ptr<H>> hs(NH);
static std::vector<bool> hmoved(NH, false);
static std::vector<std::unique_ptr<O>> os(NO);
static std::unordered_map<std::string, int> text_ids;
static bool relations = true;                            // log == and hash relations?

static std::string jtree(const sdd::order_builder<C>& b) {
  std::string s = "["; auto cur = b; bool f = true;
  while (!cur.empty()) { if (!f) s += ','; f = false; s += "[" + std::to_string(index_of(cur.identifier().user())) + "," + jtree(cur.nested()) + "]"; cur = cur.next(); }
  return s + "]";
}
static sdd::order_builder<C> parse_tree(cmd& c, std::string& js) {
  int n = c.num(); js += "[";
  std::vector<std::pair<int, sdd::order_builder<C>>> v;
  for (int i = 0; i < n; ++i) { if (i) js += ','; int id = c.num(); js += "[" + std::to_string(id) + ","; auto sub = parse_tree(c, js); js += "]"; v.emplace_back(id, sub); }
  js += "]";
  sdd::order_builder<C> b;
  for (int i = n - 1; i >= 0; --i) { if (v[i].first < 0) b.push(sdd::order_identifier<C>(), v[i].second); else if (v[i].second.empty()) b.push(ident(v[i].first)); else b.push(ident(v[i].first), v[i].second); }
  return b;
}
static table parse_table(cmd& c) { table t(NT); for (auto& l : t) l = c.nums(); return t; }
static std::string jtable(const table& t) { std::string s = "["; for (std::size_t i = 0; i < t.size(); ++i) { if (i) s += ','; s += jlist(t[i]); } return s + "]"; }

static void put_sdd(ev& e, int d) {                      // describe the diagram now in slot d
  std::string nodes; fresh = &nodes;
  int r = id_of(*ss[d]);
  e.num("r", r);
  e.raw("n", "[" + nodes + "]");
  if (relations) {
    std::vector<int> eq, hq; const std::size_t h = std::hash<S>()(*ss[d]);
    for (int i = 0; i < NS; ++i) if (ss[i] && !moved[i]) {
      const bool a = *ss[i] == *ss[d], b = *ss[i] != *ss[d], l = *ss[i] < *ss[d], g = *ss[d] < *ss[i];
      if (a && !b && !l && !g) eq.push_back(i); else if (!a && b && (l != g)) {} else eq.push_back(100000 + i);
      if (std::hash<S>()(*ss[i]) == h) hq.push_back(i);
    }
    e.list("eq", eq); e.list("hq", hq);
    e.boolean("mt", ss[d]->empty()); e.boolean("bl", bool(*ss[d]));
  }
}
static void put_hom(ev& e, int d) {
  std::vector<int> eq, hq; const std::size_t h = std::hash<H>()(*hs[d]);
  for (int i = 0; i < NH; ++i) if (hs[i] && !hmoved[i]) {
    const bool a = *hs[i] == *hs[d], b = *hs[i] != *hs[d], l = *hs[i] < *hs[d], g = *hs[d] < *hs[i];
    if (a && !b && !l && !g) eq.push_back(i); else if (!a && b && (l != g)) {} else eq.push_back(100000 + i);
    if (std::hash<H>()(*hs[i]) == h) hq.push_back(i);
  }
  e.list("eq", eq); e.list("hq", hq);
  e.boolean("sel", hs[d]->selector());
}
static int text_id(const H& h) { std::ostringstream s; s << h; auto r = text_ids.emplace(s.str(), (int)text_ids.size()); return r.first->second; }

// Runs f (a library call); describes the exception, if any, in e. Returns true if f returned.
template <typename F> static bool guarded(ev& e, F&& f) {
  try { { LIB; f(); } e.str("x", ""); return true; }
  catch (const sdd::top<C>& t) {
    e.str("x", "top");
    std::string nodes; fresh = &nodes; int l, r;
    { S a = t.lhs(), b = t.rhs(); l = id_of(a); r = id_of(b); e.boolean("tw", std::strlen(t.what()) > 0); }
    e.list("t", std::vector<int>{l, r}); e.raw("tn", "[" + nodes + "]");
  }
  catch (const user_error& u) { e.str("x", "user"); e.num("uk", u.k); }
  catch (const sdd::identifier_not_found_error<C>&) { e.str("x", "notfound"); }
  catch (const sdd::duplicate_identifier_error<C>&) { e.str("x", "duplicate"); }
  catch (const std::invalid_argument&) { e.str("x", "invalid"); }
  catch (const std::exception& x) { e.str("x", std::string("other: ") + x.what()); }
  catch (...) { e.str("x", "other: unknown"); }
  return false;
}
// Put a freshly computed diagram in slot d: construct or assign.
static void store(int d, S&& x) { if (ss[d]) { *ss[d] = std::move(x); } else { alloc_acct::out_lib o; ss[d] = std::make_unique<S>(std::move(x)); } moved[d] = false; }
static void hstore(int d, H&& x) { if (hs[d]) { *hs[d] = std::move(x); } else { alloc_acct::out_lib o; hs[d] = std::make_unique<H>(std::move(x)); } hmoved[d] = false; }

static std::string jarc_paths(const S& x, int limit, bool& done) {
  std::string s = "["; int k = 0; done = false;
  {
    auto gen = x.paths();
    auto it = begin(gen), e = end(gen);
    for (;; ++it) {
      if (it == e) { done = true; break; }
      if (limit >= 0 && k == limit) break;
      if (k++) s += ',';
      s += '['; bool f = true;
      for (const auto& v : *it) { if (!f) s += ','; f = false; s += jlist(listvals(v)); }
      s += ']';
    }
  }
  return s + "]";
}

// An enumeration of paths that outlives the call that started it.
struct enumeration {
  decltype(std::declval<const S&>().paths()) gen;
  decltype(begin(gen)) it, last;
  std::string text;
  explicit enumeration(const S& x) : gen(x.paths()), it(begin(gen)), last(end(gen)) {}
  bool done() const { return it == last; }
  void take(int k) {
    for (; k > 0 && !done(); --k, ++it) {
      text += text.empty() ? "[" : ",["; bool f = true;
      for (const auto& v : *it) { if (!f) text += ','; f = false; text += jlist(listvals(v)); }
      text += ']';
    }
  }
};
static std::array<std::unique_ptr<enumeration>, 8> gens;

static std::string jcpp_int(boost::multiprecision::cpp_int v) {   // little endian, base 10000
  std::string s = "["; bool f = true;
  while (v != 0) { boost::multiprecision::cpp_int q = v / 10000, r = v % 10000; if (!f) s += ','; f = false; s += r.str(); v = q; }
  return s + "]";
}

static void dot_event(ev& e, const S& x, const O& o) {
  std::ostringstream out; { LIB; out << sdd::tools::dot(x, o); }
  // Parse: vertices [name,label], edges [from,to,values] / ghosts.
  std::map<std::string, int> name; auto num = [&](const std::string& n) { auto r = name.emplace(n, (int)name.size()); return r.first->second; };
  std::istringstream in(out.str()); std::string line; std::string vs, es, gs; int bad = 0; bool open = false, closed = false;
  auto values = [&](std::string l) { // {a,b..c,d}
    std::vector<std::string> parts; std::string cur; for (char ch : l.substr(1, l.size() - 2)) { if (ch == ',') { parts.push_back(cur); cur.clear(); } else cur += ch; }
    if (l != "{}" || !std::is_integral<value_type>::value) parts.push_back(cur);
    std::vector<int> r;
    for (auto& p : parts) {
      auto dots = p.find(".."); bool found = false;
      for (std::size_t i = 0; i < VT.size(); ++i) {
        std::ostringstream s; s << VT[i];
        if (dots == std::string::npos) { if (s.str() == p) { r.push_back((int)i); found = true; } }
        else if (std::is_integral<value_type>::value) {
          std::istringstream a(p.substr(0, dots)), b(p.substr(dots + 2)), m(s.str()); unsigned long long ai, bi, mi = 0; a >> ai; b >> bi; m >> mi;
          if (ai <= mi && mi <= bi) { r.push_back((int)i); found = true; } }
      }
      if (!found) r.push_back(999);
    }
    return jlist(r); };
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line.find("digraph") == 0) { open = true; continue; }
    if (line[0] == '}') { closed = true; continue; }
    auto arrow = line.find(" -> ");
    auto label = line.find("label=\""); std::string lab;
    if (label != std::string::npos) { auto q = line.find('"', label + 7); lab = line.substr(label + 7, q - label - 7); }
    if (arrow == std::string::npos) {
      std::string n = line.substr(0, line.find(' '));
      if (line.find("shape=point") != std::string::npos) { continue; }
      int kind = line.find("shape=square") != std::string::npos ? 1 : 0;
      int l; if (kind == 1) l = std::stoi(lab); else { Identifier i; std::istringstream is(lab); is >> i; l = index_of(i); }
      vs += (vs.empty() ? "" : ",") + std::string("[") + std::to_string(num(n)) + "," + std::to_string(kind) + "," + std::to_string(l) + "]";
    } else {
      std::string a = line.substr(0, arrow), rest = line.substr(arrow + 4); std::string b = rest.substr(0, rest.find_first_of(" ;"));
      int style = line.find("style=dotted") != std::string::npos ? 2 : line.find("arrowhead=none") != std::string::npos ? 1 : a[0] == 'g' ? 3 : 0;
      es += (es.empty() ? "" : ",") + std::string("[") + std::to_string(num(a)) + "," + std::to_string(num(b)) + "," + std::to_string(style) + "," + (style == 0 ? values(lab) : std::string("[]")) + "]";
    }
  }
  e.raw("dv", "[" + vs + "]"); e.raw("de", "[" + es + "]"); e.boolean("dw", open && closed && !bad);
}

static long base_live = 0;

static bool run(cmd& c) {
  const std::string op = c.word();
  ev e; e.str("e", op);
  if (op == "init") {                        // init sddut diff inter sum arena homut homcache valut
    conf cf;
    cf.sdd_unique_table_size = c.num(); cf.sdd_difference_cache_size = c.num(); cf.sdd_intersection_cache_size = c.num();
    cf.sdd_sum_cache_size = c.num(); cf.sdd_arena_size = c.num(); cf.hom_unique_table_size = c.num(); cf.hom_cache_size = c.num();
    const int vs = c.num();
#if CONF == 1 || CONF == 2 || CONF == 3
    cf.flat_set_unique_table_size = vs;
#else
    (void)vs;
#endif
    calls = 0; throw_at = -1; ids.clear(); next_id = 2; text_ids.clear();
    { LIB; auto m = sdd::init(cf); alloc_acct::out_lib o; man = std::make_unique<sdd::manager<C>>(m); }
  }
  else if (op == "shutdown") {
    { LIB;
      for (auto& x : gens) x.reset();
      for (auto& x : ss) x.reset();
      for (auto& x : hs) x.reset();
      for (auto& x : os) x.reset();
      man.reset(); }
    moved.assign(NS, false); hmoved.assign(NH, false);
    e.num("live", alloc_acct::live);
  }
  else if (op == "relations") { relations = c.num() != 0; return true; }
  // ---- diagrams
  else if (op == "zero" || op == "one" || op == "default") { int d = c.num(); e.num("d", d); { LIB; store(d, op == "zero" ? sdd::zero<C>() : op == "one" ? sdd::one<C>() : S()); } put_sdd(e, d); }
  else if (op == "flat") {                   // flat d var vals succ rvalue?
    int d = c.num(), v = c.num(); auto l = c.nums(); int s = c.num(); int rv = c.num();
    e.num("d", d).num("v", v).list("w", l).num("s", s);
    if (guarded(e, [&] { Values w = mkvals(l); if (rv) store(d, S(v, std::move(w), *ss[s])); else store(d, S(v, w, *ss[s])); })) put_sdd(e, d);
  }
  else if (op == "hier") {
    int d = c.num(), v = c.num(), w = c.num(), s = c.num();
    e.num("d", d).num("v", v).num("w", w).num("s", s);
    if (guarded(e, [&] { store(d, S(v, *ss[w], *ss[s])); })) put_sdd(e, d);
  }
  else if (op == "fromorder") {              // fromorder d o k (id vals)*
    int d = c.num(), o = c.num(), k = c.num(); std::map<int, std::vector<int>> m; std::string js = "[";
    for (int i = 0; i < k; ++i) { int id = c.num(); m[id] = c.nums(); js += (i ? "," : "") + std::string("[") + std::to_string(id) + "," + jlist(m[id]) + "]"; }
    e.num("d", d).num("o", o).raw("init", js + "]");
    std::vector<int> asked;
    if (guarded(e, [&] { store(d, S(*os[o], [&](const Identifier& i) { tick(); { alloc_acct::out_lib ol; asked.push_back(index_of(i)); } auto it = m.find(index_of(i)); return mkvals(it == m.end() ? std::vector<int>{999} : it->second); })); })) put_sdd(e, d);
    e.list("asked", asked).num("ct", calls);
  }
  else if (op == "bin") {                    // bin op d a b   (op: + & -)
    std::string k = c.word(); int d = c.num(), a = c.num(), b = c.num();
    e.str("op", k).num("d", d).num("a", a).num("b", b);
    if (guarded(e, [&] { store(d, k == "+" ? *ss[a] + *ss[b] : k == "&" ? *ss[a] & *ss[b] : *ss[a] - *ss[b]); })) put_sdd(e, d);
  }
  else if (op == "inplace") {                // inplace op d b : ss[d] op= ss[b]
    std::string k = c.word(); int d = c.num(), b = c.num();
    e.str("op", k).num("d", d).num("b", b);
    if (guarded(e, [&] { if (k == "+") *ss[d] += *ss[b]; else if (k == "&") *ss[d] &= *ss[b]; else *ss[d] -= *ss[b]; })) put_sdd(e, d);
  }
  else if (op == "nary") {                   // nary op d k slots..  form (0 iterators, 1 initializer list)
    std::string k = c.word(); int d = c.num(); auto l = c.nums(); int form = c.num();
    e.str("op", k).num("d", d).list("l", l);
    if (guarded(e, [&] {
      std::vector<S> v; for (int i : l) v.push_back(*ss[i]);
      if (form == 1 && v.size() == 3) store(d, k == "+" ? sdd::sum<C>({v[0], v[1], v[2]}) : sdd::intersection<C>({v[0], v[1], v[2]}));
      else store(d, k == "+" ? sdd::sum<C>(v.begin(), v.end()) : sdd::intersection<C>(v.begin(), v.end())); })) put_sdd(e, d);
  }
  else if (op == "pairs") {                  // pairs op first count : all results of a table of operands
    std::string k = c.word(); int f = c.num(), n = c.num(); std::string rows = "["; std::string nodes; fresh = &nodes; bool same = true;
    e.str("op", k).num("f", f).num("c", n);
    std::unordered_map<int, int> slot_of; for (int i = f; i < f + n; ++i) slot_of.emplace(id_of(*ss[i]), i);
    std::vector<int> odd;
    for (int i = f; i < f + n; ++i) { rows += (i > f ? ",[" : "[");
      for (int j = f; j < f + n; ++j) { LIB; S r = k == "+" ? *ss[i] + *ss[j] : k == "&" ? *ss[i] & *ss[j] : *ss[i] - *ss[j]; alloc_acct::out_lib o;
        int id = id_of(r); rows += (j > f ? "," : "") + std::to_string(id);
        auto it = slot_of.find(id); if (it != slot_of.end() && !(*ss[it->second] == r)) odd.push_back(i * 10000 + j); }
      rows += "]"; }
    (void)same; e.raw("r", rows + "]").raw("n", "[" + nodes + "]").list("odd", odd);
  }
  else if (op == "subsets") {                // subsets op first count n : all sums / intersections of n of a table of operands
    std::string k = c.word(); int f = c.num(), cnt = c.num(), n = c.num(); std::string rows = "[", nodes; fresh = &nodes;
    e.str("op", k).num("f", f).num("c", cnt).num("k", n);
    std::vector<int> pick(n); for (int i = 0; i < n; ++i) pick[i] = i;
    unsigned turn = 0; bool first = true;
    while (true) {
      std::vector<S> v; for (int i = 0; i < n; ++i) v.push_back(*ss[f + pick[(i + turn) % n]]);
      ++turn;
      { LIB; S r = k == "+" ? sdd::sum<C>(v.begin(), v.end()) : sdd::intersection<C>(v.begin(), v.end()); alloc_acct::out_lib o;
        rows += (first ? "" : ",") + jlist(pick).insert(jlist(pick).size() - 1, "," + std::to_string(id_of(r))); first = false; }
      int i = n - 1; while (i >= 0 && pick[i] == cnt - n + i) --i;
      if (i < 0) break;
      ++pick[i]; for (int j = i + 1; j < n; ++j) pick[j] = pick[j - 1] + 1;
    }
    e.raw("r", rows + "]").raw("n", "[" + nodes + "]");
  }
#if CONF == 1 || CONF == 2
  else if (op == "huge") {                   // huge n h : D = {(i,i) | i < n}, E = {(i,i) | n - h <= i < n + h}
    const unsigned n = c.num(), h = c.num(); e.num("n_", n).num("h_", h);
    const auto num = [](const S& x) { std::ostringstream o; o << x.size(); return std::stol(o.str()); };
    const auto point = [](unsigned i) { return S(1, Values{i}, S(0, Values{i}, sdd::one<C>())); };
    long r[16] = {0};
    { LIB;
      std::vector<S> a, b; for (unsigned i = 0; i < n; ++i) a.push_back(point(i));
      for (unsigned i = n - h; i < n + h; ++i) b.push_back(point(i));
      const S d = sdd::sum<C>(a.begin(), a.end()), f = sdd::sum<C>(b.begin(), b.end());
      std::vector<S> ab(a); ab.insert(ab.end(), b.begin(), b.end());
      const S u = sdd::sum<C>(ab.begin(), ab.end()), x = d & f, m = d - f;
      r[0] = num(d); r[1] = num(f); r[2] = num(u); r[3] = num(x); r[4] = num(m);
      r[5] = (m != d) && (u - f == m) && (u != d || h == 0) && sdd::intersection<C>({f, u, d}) == x;
      r[6] = num(f - x);
      { std::vector<S> many(n, d); r[7] = many.back() == d; std::vector<S> ones(n, sdd::one<C>()); many.insert(many.begin(), ones.begin(), ones.begin() + 1); }
      r[8] = num(d); r[9] = sdd::one<C>() == S(sdd::one<C>());
      const auto nd = sdd::tools::nodes(d); r[10] = nd.first; r[11] = nd.second;
      const auto na = sdd::tools::number_of_arcs(sdd::tools::arcs(d)); r[12] = na.first; r[13] = na.second;
      for (const auto& path : d.paths()) { ++r[14]; r[15] += path.size() == 2 && path[0].size() == 1 && path[1].size() == 1 && *path[0].begin() == *path[1].begin(); }
    }
    e.list("r", std::vector<int>(r, r + 16));
  }
#endif
  else if (op == "copy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); { LIB; if (ss[d]) *ss[d] = *ss[a]; else { alloc_acct::out_lib o; ss[d] = std::make_unique<S>(*ss[a]); } } moved[d] = false; put_sdd(e, d); }
  else if (op == "move") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); { LIB; if (ss[d]) *ss[d] = std::move(*ss[a]); else { alloc_acct::out_lib o; ss[d] = std::make_unique<S>(std::move(*ss[a])); } } moved[d] = false; if (d != a) moved[a] = true; put_sdd(e, d); }
  else if (op == "swap") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); { LIB; swap(*ss[d], *ss[a]); } put_sdd(e, d); }
  else if (op == "del") { int d = c.num(); e.num("d", d); { LIB; ss[d].reset(); } moved[d] = false; }
  else if (op == "sub") {                    // sub d a k which : ss[d] = (arc k of ss[a]).successor / .valuation, by reference
    int d = c.num(), a = c.num(), k = c.num(), w = c.num(); e.num("d", d).num("a", a).num("w", w);
    std::string nodes; fresh = &nodes;
    // the valuation is used by reference (it lives in the node), the successor is a temporary
    struct found { std::string key; const S* val; S succ; };
    std::vector<found> arcs; const S* target = nullptr;
    struct collect { std::vector<found>& v;
      void operator()(const sdd::zero_terminal<C>&) const {} void operator()(const sdd::one_terminal<C>&) const {}
      void operator()(const sdd::flat_node<C>& n) const { for (const auto& x : n) v.push_back({jlist(listvals(x.valuation())), nullptr, x.successor()}); }
      void operator()(const sdd::hierarchical_node<C>& n) const { for (const auto& x : n) { const S& w = x.valuation(); v.push_back({std::to_string(id_of(w)), &w, x.successor()}); } } };
    visit(collect{arcs}, *ss[a]);
    std::sort(arcs.begin(), arcs.end(), [](const found& l, const found& r) { return l.key < r.key; });
    S succ_tmp;
    if (!arcs.empty()) { auto& x = arcs[k % arcs.size()]; succ_tmp = x.succ; target = (w == 1 && x.val) ? x.val : &succ_tmp; }
    arcs.clear();
    if (!target) { e.num("ok", 0); put_sdd(e, a); }
    else { int t = id_of(*target); e.num("ok", 1).num("t", t); { LIB; if (ss[d]) *ss[d] = *target; else { alloc_acct::out_lib o; ss[d] = std::make_unique<S>(*target); } } moved[d] = false; put_sdd(e, d); }
  }
  else if (op == "size") { int a = c.num(); e.num("a", a); boost::multiprecision::cpp_int v; { LIB; v = ss[a]->size(); } e.raw("sz", jcpp_int(v)); }
  else if (op == "paths") { int a = c.num(), lim = c.num(); bool done; e.num("a", a).num("lim", lim); std::string p; { p = jarc_paths(*ss[a], lim, done); } e.raw("p", p).boolean("done", done); }
  else if (op == "gopen") { int g = c.num(), a = c.num(); e.num("g", g).num("a", a); gens[g] = std::make_unique<enumeration>(*ss[a]); }
  else if (op == "gnext") { int g = c.num(), k = c.num(); if (!gens[g]) return true; e.num("g", g).num("k", k); gens[g]->take(k); }
  else if (op == "gclose") { int g = c.num(); if (!gens[g]) return true; e.num("g", g).raw("p", "[" + gens[g]->text + "]").boolean("done", gens[g]->done()); gens[g].reset(); }
  else if (op == "paths2") {                 // two enumerations interleaved
    int a = c.num(), b = c.num(); e.num("a", a).num("b", b); std::string pa = "[", pb = "[";
    { auto ga = ss[a]->paths(); auto gb = ss[b]->paths(); auto ia = begin(ga), ea = end(ga), ib = begin(gb), eb = end(gb); int ka = 0, kb = 0;
      auto one = [](std::string& s, int& k, const std::vector<Values>& p) { if (k++) s += ','; s += '['; bool f = true; for (const auto& v : p) { if (!f) s += ','; f = false; s += jlist(listvals(v)); } s += ']'; };
      while (ia != ea || ib != eb) { if (ia != ea) { one(pa, ka, *ia); ++ia; } if (ib != eb) { one(pb, kb, *ib); ++ib; } } }
    e.raw("p", pa + "]").raw("q", pb + "]");
  }
  else if (op == "tools") {                  // structural reports
    int a = c.num(); e.num("a", a);
    for (int via = 0; via < 2; ++via) {        // the functions, then the grouped statistics
      std::pair<unsigned, unsigned> nn, na; std::string fr = "["; std::size_t bytes; sdd::tools::arcs_frequency_type f;
      { LIB;
        if (via == 0) { nn = sdd::tools::nodes(*ss[a]); f = sdd::tools::arcs(*ss[a]); na = sdd::tools::number_of_arcs(f); bytes = sdd::tools::size(*ss[a]); }
        else { auto st = sdd::tools::statistics(*ss[a]); nn = st.all_nodes(); f = st.arcs_frequency(); na = st.all_arcs(); bytes = st.bytes(); } }
      bool first = true; for (auto& kv : f) { fr += (first ? "[" : ",[") + std::to_string(kv.first) + "," + std::to_string(kv.second.first) + "," + std::to_string(kv.second.second) + "]"; first = false; }
      ev q; q.list("nodes", std::vector<long long>{nn.first, nn.second}).list("narcs", std::vector<long long>{na.first, na.second}).raw("freq", fr + "]").num("bytes", bytes);
      e.raw(via ? "q2" : "q1", q.s + "}");
    }
    e.list("sizes", std::vector<long long>{sizeof(S::unique_type), sizeof(sdd::flat_node<C>::arc_type), sizeof(sdd::hierarchical_node<C>::arc_type), sizeof(sdd::zero_terminal<C>), sizeof(sdd::one_terminal<C>)});
  }
  else if (op == "dot") { int a = c.num(), o = c.num(); e.num("a", a).num("o", o); dot_event(e, *ss[a], *os[o]); }
  else if (op == "audit") {                  // what every live handle denotes now
    std::string nodes; fresh = &nodes; std::string s = "["; bool f = true;
    for (int i = 0; i < NS; ++i) if (ss[i] && !moved[i]) { s += (f ? "[" : ",[") + std::to_string(i) + "," + std::to_string(id_of(*ss[i])) + "]"; f = false; }
    e.raw("s", s + "]"); s = "["; f = true;
    for (int i = 0; i < NH; ++i) if (hs[i] && !hmoved[i]) { s += (f ? "[" : ",[") + std::to_string(i) + "," + std::to_string(text_id(*hs[i])) + "]"; f = false; }
    e.raw("h", s + "]"); e.raw("n", "[" + nodes + "]");
  }
  else if (op == "stats") { e.num("sdd", man->sdd_stats().size).num("hom", man->hom_stats().size).num("hc", man->hom_cache_stats().size)
      .num("sc", man->sdd_sum_cache_stats().size).num("ic", man->sdd_intersection_cache_stats().size).num("dc", man->sdd_difference_cache_stats().size);
#if CONF == 1 || CONF == 2 || CONF == 3
      e.num("val", man->values_stats().size);
#else
      e.num("val", -1);
#endif
  }
  else if (op == "clearall") { LIB; man->reset_hom_cache(); sdd::global<C>().sdd_context.clear(); }
  else if (op == "resetcache") { LIB; man->reset_hom_cache(); }
  // ---- orders
  else if (op == "order") { int o = c.num(); std::string js; auto b = parse_tree(c, js); e.num("o", o).raw("tree", js); if (guarded(e, [&] { auto x = O(b); alloc_acct::out_lib ol; os[o] = std::make_unique<O>(x); })) {} }
  else if (op == "delorder") { int o = c.num(); e.num("o", o); os[o].reset(); }
  else if (op == "nextorder" || op == "nestedorder") { int o = c.num(), p = c.num(); e.num("o", o).num("p", p); auto x = op == "nextorder" ? os[p]->next() : os[p]->nested(); os[o] = std::make_unique<O>(x); }
  // ---- homomorphisms
  else if (op == "hid") { int h = c.num(); e.num("h", h); if (guarded(e, [&] { hstore(h, sdd::id<C>()); })) put_hom(e, h); }
  else if (op == "hconst") { int h = c.num(), s = c.num(); e.num("h", h).num("s", s); if (guarded(e, [&] { hstore(h, sdd::constant(*ss[s])); })) put_hom(e, h); }
  else if (op == "hconsv") { int h = c.num(), o = c.num(); auto l = c.nums(); int n = c.num(); e.num("h", h).num("o", o).list("w", l).num("g", n); if (guarded(e, [&] { hstore(h, sdd::cons(*os[o], mkvals(l), *hs[n])); })) put_hom(e, h); }
  else if (op == "hconss") { int h = c.num(), o = c.num(), s = c.num(), n = c.num(); e.num("h", h).num("o", o).num("s", s).num("g", n); if (guarded(e, [&] { hstore(h, sdd::cons(*os[o], *ss[s], *hs[n])); })) put_hom(e, h); }
  else if (op == "hfun") {                   // hfun h o id flags(0 plain object, 1 none, 2 selector, 3 shifter) table
    int h = c.num(), o = c.num(), id = c.num(), fl = c.num(); table t = parse_table(c);
    e.num("h", h).num("o", o).num("id", id).num("fl", fl).raw("tab", jtable(t));
    if (guarded(e, [&] { if (fl == 0) hstore(h, sdd::function<C>(*os[o], ident(id), plain_fun{t})); else hstore(h, sdd::function<C>(*os[o], ident(id), fun{t, fl == 2, fl == 3})); })) put_hom(e, h);
  }
  else if (op == "hind") { int h = c.num(), k = c.num(), x = c.num(), y = c.num(); table t = parse_table(c); e.num("h", h).num("k", k).num("vx", x).num("vy", y).raw("tab", jtable(t)); if (guarded(e, [&] { hstore(h, sdd::inductive<C>(ind{k, x, y, t})); })) put_hom(e, h); }
  else if (op == "hlocal") { int h = c.num(), o = c.num(), id = c.num(), g = c.num(); e.num("h", h).num("o", o).num("id", id).num("g", g); if (guarded(e, [&] { hstore(h, sdd::local<C>(ident(id), *os[o], *hs[g])); })) put_hom(e, h); }
  else if (op == "hcarrier") { int h = c.num(), o = c.num(), id = c.num(), g = c.num(); e.num("h", h).num("o", o).num("id", id).num("g", g); if (guarded(e, [&] { hstore(h, sdd::carrier<C>(*os[o], ident(id), *hs[g])); })) put_hom(e, h); }
  else if (op == "hsum" || op == "hinter") { int h = c.num(), o = c.num(); auto l = c.nums(); e.num("h", h).num("o", o).list("l", l);
    if (guarded(e, [&] { std::vector<H> v; for (int i : l) v.push_back(*hs[i]); hstore(h, op == "hsum" ? sdd::sum<C>(*os[o], v.begin(), v.end()) : sdd::intersection<C>(*os[o], v.begin(), v.end())); })) put_hom(e, h); }
  else if (op == "hcomp") { int h = c.num(), a = c.num(), b = c.num(); e.num("h", h).num("a", a).num("b", b); if (guarded(e, [&] { hstore(h, sdd::composition<C>(*hs[a], *hs[b])); })) put_hom(e, h); }
  else if (op == "hfix") { int h = c.num(), a = c.num(); e.num("h", h).num("a", a); if (guarded(e, [&] { hstore(h, sdd::fixpoint<C>(*hs[a])); })) put_hom(e, h); }
  else if (op == "hite") { int h = c.num(), p = c.num(), t = c.num(), f = c.num(); e.num("h", h).num("p", p).num("t", t).num("f", f); if (guarded(e, [&] { hstore(h, sdd::if_then_else<C>(*hs[p], *hs[t], *hs[f])); })) put_hom(e, h); }
  else if (op == "hrw") { int h = c.num(), o = c.num(), a = c.num(); e.num("h", h).num("o", o).num("a", a); if (guarded(e, [&] { hstore(h, sdd::rewrite<C>(*os[o], *hs[a])); })) put_hom(e, h); }
  else if (op == "hcopy") { int h = c.num(), a = c.num(); e.num("h", h).num("a", a); { LIB; if (hs[h]) *hs[h] = *hs[a]; else { alloc_acct::out_lib o; hs[h] = std::make_unique<H>(*hs[a]); } } hmoved[h] = false; put_hom(e, h); }
  else if (op == "hmove") { int h = c.num(), a = c.num(); e.num("h", h).num("a", a); { LIB; if (hs[h]) *hs[h] = std::move(*hs[a]); else { alloc_acct::out_lib o; hs[h] = std::make_unique<H>(std::move(*hs[a])); } } hmoved[h] = false; if (h != a) hmoved[a] = true; put_hom(e, h); }
  else if (op == "hdel") { int h = c.num(); e.num("h", h); { LIB; hs[h].reset(); } hmoved[h] = false; }
  else if (op == "apply") {                  // apply d h o x rvalue?
    int d = c.num(), h = c.num(), o = c.num(), x = c.num(), rv = c.num(); e.num("d", d).num("h", h).num("o", o).num("a", x);
    const long before = calls;
    if (guarded(e, [&] { if (rv) { S t = *ss[x]; store(d, (*hs[h])(*os[o], std::move(t))); } else store(d, (*hs[h])(*os[o], *ss[x])); })) put_sdd(e, d);
    e.num("calls", calls - before).num("ct", calls);
  }
  else if (op == "applyall") {               // applyall h r o nv : both homomorphisms, on every set (or many) of assignments of the order
    int h = c.num(), g = c.num(), o = c.num(), nv = c.num(); e.num("h", h).num("g", g).num("o", o);
    std::string rows, nodes; fresh = &nodes; std::vector<int> odd;
    if (guarded(e, [&] {
      const std::vector<S> cubes = all_cubes(*os[o], nv);
      const std::size_t total = std::size_t(1) << cubes.size(), step = cubes.size() <= 4 ? 1 : 5;
      for (std::size_t k = 0; k < total; k += step) {
        S x = sdd::zero<C>(); for (std::size_t i = 0; i < cubes.size(); ++i) if (k >> i & 1) x += cubes[i];
        const S r1 = (*hs[h])(*os[o], x), r2 = (*hs[g])(*os[o], x);
        alloc_acct::out_lib out; const int i0 = id_of(x), i1 = id_of(r1), i2 = id_of(r2);
        rows += (rows.empty() ? "[" : ",[") + std::to_string(i0) + "," + std::to_string(i1) + "," + std::to_string(i2) + "]";
        if ((r1 == r2) != (i1 == i2) || (x == r1) != (i0 == i1)) odd.push_back((int)k);
      } })) {}
    e.raw("r", "[" + rows + "]").raw("n", "[" + nodes + "]").list("odd", odd).boolean("s1", hs[h]->selector()).boolean("s2", hs[g]->selector());
  }
  else if (op == "arm") { int k = c.num(); calls = 0; throw_at = k; e.num("k", k); }   // the k-th call of user code from now throws
  else if (op == "disarm") { throw_at = -1; }
  else { std::cerr << "script error: unknown command " << op << "\n"; std::exit(3); }
  emit(e);
  return true;
}

int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); if (!in || !out) return 3;
  out_ = &out; fresh = new std::string;
  cmd c; long n = 0;
  while (read_cmd(in, c)) { ++n; run(c); }
  man.reset();
  ev e; e.str("e", "end").num("n", n); emit(e);
  out.flush();
  std::_Exit(0);
}
