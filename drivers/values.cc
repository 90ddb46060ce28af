// Script interpreter over the value-set types.  usage: values SCRIPT OUT
#include "common.hh"
#include "sdd/sdd.hh"

struct machine {                                // one value-set type
  virtual ~machine() {}
  virtual bool run(const std::string& op, cmd& c, ev& e) = 0;
};

template <typename V> struct table;             // value of an index
template <std::size_t N> struct table<sdd::values::bitset<N>> { static std::size_t at(int i) { return (std::size_t)i; } static int n() { return (int)N; } static std::string text(int i) { return std::to_string(i); } };
template <> struct table<sdd::values::flat_set<unsigned int>> { static unsigned at(int i) { return i < 12 ? (unsigned)i : i < 14 ? 65530u + (unsigned)i : 4294967295u - (unsigned)(15 - i); } static int n() { return 16; } static std::string text(int i) { return std::to_string(at(i)); } };
template <> struct table<sdd::values::flat_set<int>> { static int at(int i) { return i < 2 ? -2147483647 - 1 + i : i < 14 ? i - 8 : 2147483646 + (i - 14); } static int n() { return 16; } static std::string text(int i) { return std::to_string(at(i)); } };
template <> struct table<sdd::values::flat_set<std::string>> { static std::string at(int i) { static const char* t[] = {"", "A", "a", "aa", "aaa", "ab", "b", "b,c", "ba", "bb", "c", "ca", "d", "e", "z", "zz"}; return t[i]; } static int n() { return 16; } static std::string text(int i) { return at(i); } };
template <> struct table<sdd::values::flat_set<unsigned short>> { static unsigned short at(int i) { return i < 14 ? (unsigned short)(2 * i) : (unsigned short)(65534 + i - 14); } static int n() { return 16; } static std::string text(int i) { return std::to_string(at(i)); } };

template <> struct table<sdd::values::flat_set<long>> { static long at(int i) { return i < 100 ? i - 50 : i < 200 ? 2L * i : 5000000000L + i; } static int n() { return 300; } static std::string text(int i) { return std::to_string(at(i)); } };

template <typename V> using value_of = decltype(table<V>::at(0));
template <typename V> int index_of(const value_of<V>& v) { for (int i = 0; i < table<V>::n(); ++i) if (table<V>::at(i) == v) return i; return -1; }

template <typename V> struct base : machine {
  std::map<int, V> s;
  void dump(ev& e) {
    std::string o = "["; bool f = true;
    for (auto& x : s) { o += (f ? "[" : ",[") + std::to_string(x.first) + "," + jlist(elements(x.second)) + "," + std::to_string((long)x.second.size()) + "]"; f = false; }
    e.raw("all", o + "]");
  }
  virtual std::vector<int> elements(const V& v) = 0;
  void set(int d, V v) { auto it = s.find(d); if (it == s.end()) s.emplace(d, std::move(v)); else it->second = std::move(v); }
  bool run(const std::string& op, cmd& c, ev& e) override {
    if (op == "vcopy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); auto it = s.find(d); if (it == s.end()) s.emplace(d, s.at(a)); else it->second = s.at(a); }
    else if (op == "vdel") { int d = c.num(); e.num("d", d); s.erase(d); }
    else if (op == "vswap") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); using std::swap; swap(s.at(d), s.at(a)); }
    else if (op == "vsum" || op == "vint" || op == "vdif") { int d = c.num(), a = c.num(), b = c.num(); e.num("d", d).num("a", a).num("b", b);
      set(d, op == "vsum" ? sum(s.at(a), s.at(b)) : op == "vint" ? intersection(s.at(a), s.at(b)) : difference(s.at(a), s.at(b))); }
    else if (op == "vcmp") {                    // every pair of slots
      std::string eq = "[", lt = "["; bool fe = true, fl = true;
      for (auto& x : s) for (auto& y : s) {
        const bool q = x.second == y.second, nq = x.second != y.second, h = std::hash<V>()(x.second) == std::hash<V>()(y.second);
        if (q == nq || (q && !h)) e.str("x", "eq");
        if (q) { eq += (fe ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(y.first) + "]"; fe = false; }
        if (x.second < y.second) { lt += (fl ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(y.first) + "]"; fl = false; } }
      e.raw("eq", eq + "]").raw("lt", lt + "]"); return true; }
    else return false;
    dump(e); return true;
  }
};
template <std::size_t N> struct bits : base<sdd::values::bitset<N>> {
  using V = sdd::values::bitset<N>; using B = base<V>;
  std::vector<int> elements(const V& v) override { std::vector<int> r; for (std::size_t i = 0; i < N; ++i) if (v.test(i)) r.push_back((int)i); return r; }
  bool run(const std::string& op, cmd& c, ev& e) override {
    if (op == "vnew") { int d = c.num(), how = c.num(); auto l = c.nums(); e.num("d", d).list("l", l);
      if (how == 0 && l.size() <= 4) { std::size_t a[4] = {0, 0, 0, 0}; for (std::size_t i = 0; i < l.size(); ++i) a[i] = (std::size_t)l[i];
        this->set(d, l.size() == 0 ? V{} : l.size() == 1 ? V{a[0]} : l.size() == 2 ? V{a[0], a[1]} : l.size() == 3 ? V{a[0], a[1], a[2]} : V{a[0], a[1], a[2], a[3]}); }
      else if (how == 1) { std::bitset<N> b; for (int i : l) b.set((std::size_t)i); this->set(d, V(b)); }
      else { V v; for (int i : l) { V& r = v.insert((std::size_t)i); if (&r != &v) e.str("x", "ref"); } this->set(d, v); } }
    else if (op == "vins") { int d = c.num(), i = c.num(); e.num("d", d).num("i", i); this->s.at(d).insert((std::size_t)i); }
    else if (op == "vshl" || op == "vshr") { int d = c.num(), a = c.num(), k = c.num(); e.num("d", d).num("a", a).num("k", k); this->set(d, op == "vshl" ? this->s.at(a) << (std::size_t)k : this->s.at(a) >> (std::size_t)k); }
    else if (op == "vobs") { int d = c.num(); const V& v = this->s.at(d); std::ostringstream o; o << v; std::vector<int> m; for (std::size_t i = 0; i < N; ++i) if (v.content()[i]) m.push_back((int)i);
      e.num("d", d).num("size", (long long)v.size()).num("size2", (long long)sdd::values::size(v)).boolean("empty", v.empty()).boolean("empty2", sdd::values::empty_values(v)).list("fwd", m).str("text", o.str()); return true; }
    else return B::run(op, c, e);
    this->dump(e); return true;
  }
};
template <typename T> struct sets : base<sdd::values::flat_set<T>> {
  using V = sdd::values::flat_set<T>; using B = base<V>; using TB = table<V>;
  struct conf : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = V; };
  std::unique_ptr<sdd::manager<conf>> m; long live0;
  sets(int ut) { live0 = alloc_acct::live; LIB; conf c; c.flat_set_unique_table_size = ut; c.sdd_unique_table_size = 10; c.sdd_difference_cache_size = 4; c.sdd_intersection_cache_size = 4; c.sdd_sum_cache_size = 4; c.sdd_arena_size = 100; c.hom_unique_table_size = 10; c.hom_cache_size = 4;
    m = std::make_unique<sdd::manager<conf>>(sdd::init(c)); }
  ~sets() { this->s.clear(); m.reset(); }
  std::vector<int> elements(const V& v) override { std::vector<int> r; for (const auto& x : v) r.push_back(index_of<V>(x)); return r; }
  bool run(const std::string& op, cmd& c, ev& e) override {
    LIB;
    if (op == "vnew") { int d = c.num(), how = c.num(); auto l = c.nums(); e.num("d", d).list("l", l);
      std::vector<T> t; for (int i : l) t.push_back(TB::at(i));
      if (how == 0 && l.size() <= 4) this->set(d, l.size() == 0 ? V{} : l.size() == 1 ? V{t[0]} : l.size() == 2 ? V{t[0], t[1]} : l.size() == 3 ? V{t[0], t[1], t[2]} : V{t[0], t[1], t[2], t[3]});
      else if (how == 1) { typename sdd::values::values_traits<V>::builder b; for (auto& x : t) b.insert(x); this->set(d, V(std::move(b))); }
      else this->set(d, V(t.begin(), t.end())); }
    else if (op == "vins") { int d = c.num(), i = c.num(); V& v = this->s.at(d); auto r = v.insert(TB::at(i)); e.num("d", d).num("i", i).boolean("new", r.second).num("it", r.first == v.end() ? -1 : index_of<V>(*r.first)).num("at", std::distance(v.begin(), r.first)); }
    else if (op == "vera") { int d = c.num(), i = c.num(); e.num("d", d).num("i", i).num("n", (long long)this->s.at(d).erase(TB::at(i))); }
    else if (op == "vobs") {
      int d = c.num(); const V& v = this->s.at(d); std::vector<int> f, cf, r, cr, cnt, fnd, lo, up;
      for (auto it = v.begin(); it != v.end(); ++it) f.push_back(index_of<V>(*it)); for (auto it = v.cbegin(); it != v.cend(); ++it) cf.push_back(index_of<V>(*it));
      for (auto it = v.rbegin(); it != v.rend(); ++it) r.push_back(index_of<V>(*it)); for (auto it = v.crbegin(); it != v.crend(); ++it) cr.push_back(index_of<V>(*it));
      for (int i = 0; i < TB::n(); ++i) { auto x = TB::at(i); if (v.count(x)) cnt.push_back(i); auto it = v.find(x); if (it != v.end() && *it == x) fnd.push_back(i); lo.push_back((int)std::distance(v.begin(), v.lower_bound(x))); up.push_back((int)std::distance(v.begin(), v.upper_bound(x))); }
      std::ostringstream o; o << v;
      e.num("d", d).num("size", (long long)v.size()).num("size2", (long long)sdd::values::size(v)).boolean("empty", v.empty()).boolean("empty2", sdd::values::empty_values(v)).list("fwd", f).list("cfwd", cf).list("rev", r).list("crev", cr).list("cnt", cnt).list("fnd", fnd).list("lo", lo).list("up", up).str("text", o.str()); return true; }
    else if (op == "vstat") { const auto& st = sdd::global_values<V>().state.statistics(); e.num("size", (long long)st.size); return true; }
    else return B::run(op, c, e);
    this->dump(e); return true;
  }
};
static std::unique_ptr<machine> mach;
template <typename V, typename F> void describe(ev& e, const char* name, bool flat, bool range, F consecutive) {
  std::string t = "["; std::vector<int> cons;
  for (int i = 0; i < table<V>::n(); ++i) { ev x; x.str("t", table<V>::text(i)); t += (i ? "," : "") + x.s.substr(5); cons.push_back(i + 1 < table<V>::n() && consecutive(i) ? 1 : 0); }
  e.str("type", name).boolean("flat", flat).boolean("range", range).num("n", table<V>::n()).raw("tab", t + "]").list("cons", cons);
}
static bool run(cmd& c) {
  const std::string op = c.word();
  ev e; e.str("e", op);
  if (op == "start") {
    const std::string t = c.word(); int ut = c.num(); mach.reset();
    auto no = [](int) { return false; };
    if (t == "b8") { mach = std::make_unique<bits<8>>(); describe<sdd::values::bitset<8>>(e, "b8", false, false, no); }
    else if (t == "b64") { mach = std::make_unique<bits<64>>(); describe<sdd::values::bitset<64>>(e, "b64", false, false, no); }
    else if (t == "b65") { mach = std::make_unique<bits<65>>(); describe<sdd::values::bitset<65>>(e, "b65", false, false, no); }
    else if (t == "b130") { mach = std::make_unique<bits<130>>(); describe<sdd::values::bitset<130>>(e, "b130", false, false, no); }
    else {
      using U = sdd::values::flat_set<unsigned>; using I = sdd::values::flat_set<int>; using H = sdd::values::flat_set<unsigned short>;
      LIB;
      if (t == "fu") { mach = std::make_unique<sets<unsigned>>(ut); describe<U>(e, "fu", true, true, [](int i) { return table<U>::at(i) + 1 == table<U>::at(i + 1); }); }
      else if (t == "fi") { mach = std::make_unique<sets<int>>(ut); describe<I>(e, "fi", true, true, [](int i) { return (long)table<I>::at(i) + 1 == (long)table<I>::at(i + 1); }); }
      else if (t == "fh") { mach = std::make_unique<sets<unsigned short>>(ut); describe<H>(e, "fh", true, true, [](int i) { return table<H>::at(i) + 1 == table<H>::at(i + 1); }); }
      else if (t == "fl") { using L = sdd::values::flat_set<long>; mach = std::make_unique<sets<long>>(ut); describe<L>(e, "fl", true, true, [](int i) { return table<L>::at(i) + 1 == table<L>::at(i + 1); }); }
      else { mach = std::make_unique<sets<std::string>>(ut); describe<sdd::values::flat_set<std::string>>(e, "fs", true, false, no); }
    }
  }
  else if (op == "stop") { { LIB; mach.reset(); } }
  else if (!mach->run(op, c, e)) { std::cerr << "script error: unknown command " << op << "\n"; std::exit(3); }
  emit(e);
  return true;
}
int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); if (!in || !out) return 3;
  out_ = &out; cmd c; long n = 0;
  while (read_cmd(in, c)) { ++n; run(c); }
  ev e; e.str("e", "end").num("n", n); emit(e);
  out.flush();
  std::_Exit(0);
}
