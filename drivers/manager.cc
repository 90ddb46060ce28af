// Script interpreter over init() and managers, for several configurations at once.
// usage: manager SCRIPT OUT.
#include "common.hh"

#include "sdd/sdd.hh"
#include "sdd/tools/manager_statistics.hh"

// 0 and 1 share their (stateful) type of values; 3 and 4 share a stateless one; 2 and 5 share nothing
struct k0 : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<unsigned int>; };
struct k1 : sdd::flat_set_default_configuration { using Identifier = unsigned int; using Values = sdd::values::flat_set<unsigned int>; };
struct k2 : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<std::string>; };
struct k3 : sdd::default_configuration { using Identifier = std::string; using Values = sdd::values::bitset<64>; };
struct k4 : sdd::default_configuration { using Identifier = unsigned int; using Values = sdd::values::bitset<64>; };
struct k5 : sdd::flat_set_default_configuration { using Identifier = std::string; using Values = sdd::values::flat_set<short>; };
static const int NV = 4;

template <typename I> I ident(int i);
template <> std::string ident<std::string>(int i) { return i ? "y" : "x"; }
template <> unsigned int ident<unsigned int>(int i) { return i; }
template <typename T> struct val { static T of(int i) { return (T)i; } static int back(T t) { return (int)t; } };
template <> struct val<std::string> { static std::string of(int i) { return std::string(1, char('a' + i)); } static int back(const std::string& s) { return s[0] - 'a'; } };
template <typename V> struct vt;
template <std::size_t N> struct vt<sdd::values::bitset<N>> {
  using V = sdd::values::bitset<N>;
  static V make(const std::vector<int>& l) { V v; for (int i : l) v.insert(i); return v; }
  static std::vector<int> list(const V& v) { std::vector<int> r; for (int i = 0; i < (int)N; ++i) if (v.content().test(i)) r.push_back(i); return r; } };
template <typename T> struct vt<sdd::values::flat_set<T>> {
  using V = sdd::values::flat_set<T>;
  static V make(const std::vector<int>& l) { std::vector<T> x; for (int i : l) x.push_back(val<T>::of(i)); return V(x.begin(), x.end()); }
  static std::vector<int> list(const V& v) { std::vector<int> r; for (const auto& x : v) r.push_back(val<T>::back(x)); return r; } };

static void unique_stats(std::string& s, const sdd::mem::unique_table_statistics& x) {
  s += jlist(std::vector<long long>{(long long)x.size, (long long)x.peak, (long long)x.access, (long long)x.hits, (long long)x.misses}); }
static void unique_stats(std::string& s, void*) { s += "[]"; }
static void cache_stats(std::string& s, const sdd::mem::cache_statistics& x) {
  s += jlist(std::vector<long long>{(long long)x.size, (long long)x.hits, (long long)x.misses, (long long)x.filtered, (long long)x.discarded}); }

template <typename V> struct inc {
  V operator()(const V& v) const {
    std::vector<int> r; { alloc_acct::out_lib g; for (int i : vt<V>::list(v)) if (i + 1 < NV) r.push_back(i + 1); }
    return vt<V>::make(r); }
  bool operator==(const inc&) const { return true; } };
namespace std { template <typename V> struct hash<inc<V>> { size_t operator()(const inc<V>&) const { return 7; } }; }

struct base {
  virtual ~base() {}
  virtual void init(int d, int variant) = 0;
  virtual void copy(int d, int a) = 0;
  virtual void move(int d, int a) = 0;
  virtual void assign(int d, int a, bool mv) = 0;
  virtual void drop(int d) = 0;
  virtual void mk(int s, int a, int b) = 0;
  virtual void op(int s, int t, int o) = 0;
  virtual void close(int s, int how) = 0;
  virtual void forget(int s) = 0;
  virtual void reset(int d) = 0;
  virtual std::string look() = 0;
  virtual std::string slots() = 0;
};

template <typename C> struct holder : base {
  using S = sdd::SDD<C>; using H = sdd::homomorphism<C>; using I = typename C::Identifier; using V = typename C::Values;
  std::map<int, sdd::manager<C>> ms;
  std::map<int, S> held;

  template <typename K> static auto small_values(K& c, std::size_t n) -> decltype(c.flat_set_unique_table_size, void()) { c.flat_set_unique_table_size = n; }
  static void small_values(...) {}
  static C conf(int v) {
    C c;
    auto set = [&](std::size_t ut, std::size_t cache, std::size_t ar) {
      c.sdd_unique_table_size = ut; c.sdd_difference_cache_size = c.sdd_intersection_cache_size = c.sdd_sum_cache_size = cache;
      c.sdd_arena_size = ar; c.hom_unique_table_size = ut; c.hom_cache_size = cache; small_values(c, ut); };
    if (v == 0) set(16, 64, 4096); else if (v == 1) set(1, 2, 0); else if (v == 2) set(1000, 500, 65536);
    return c;                                   // otherwise: the default sizes
  }
  static typename sdd::order<C> order() { return sdd::order<C>(sdd::order_builder<C>{ident<I>(0), ident<I>(1)}); }

  static sdd::manager<C> start(const C& c) { LIB; return sdd::init<C>(c); }
  void init(int d, int variant) override { auto c = conf(variant); auto m = start(c); ms.erase(d); ms.emplace(d, std::move(m)); }
  void copy(int d, int a) override { sdd::manager<C> m(ms.at(a)); LIB; ms.erase(d); alloc_acct::out_lib o; ms.emplace(d, std::move(m)); }
  void move(int d, int a) override { sdd::manager<C> m(std::move(ms.at(a))); LIB; ms.erase(a); ms.erase(d); alloc_acct::out_lib o; ms.emplace(d, std::move(m)); }
  void assign(int d, int a, bool mv) override { LIB; if (mv) { ms.at(d) = std::move(ms.at(a)); if (d != a) ms.erase(a); } else ms.at(d) = ms.at(a); }
  void drop(int d) override { LIB; ms.erase(d); }
  void mk(int s, int a, int b) override {
    auto o = order();
    LIB; S x(o, [&](const I& i) { std::vector<int> l; if (i == ident<I>(0)) for (int k = 0; k <= a; ++k) l.push_back(k); else l.push_back(b); return vt<V>::make(l); });
    put(s, std::move(x)); }
  void put(int s, S x) { alloc_acct::out_lib g; auto it = held.find(s); if (it == held.end()) held.emplace(s, std::move(x)); else { LIB; it->second = std::move(x); } }
  void op(int s, int t, int o) override { LIB; const S& x = held.at(s); const S& y = held.at(t); put(s, o == 0 ? x + y : o == 1 ? (x & y) : x - y); }
  void close(int s, int how) override {
    auto o = order();
    LIB;
    auto h = sdd::fixpoint(sdd::sum<C>(o, {sdd::id<C>(), sdd::function(o, ident<I>(0), inc<V>{}), sdd::function(o, ident<I>(1), inc<V>{})}));
    if (how) h = sdd::rewrite(o, h);
    S y = h(o, held.at(s)); put(s, std::move(y)); }
  void forget(int s) override { LIB; held.erase(s); }
  void reset(int d) override { LIB; ms.at(d).reset_hom_cache(); }

  struct paths { std::vector<int>& out; int first;
    void operator()(const sdd::zero_terminal<C>&) const {}
    void operator()(const sdd::one_terminal<C>&) const {}
    void operator()(const sdd::hierarchical_node<C>&) const { out.push_back(99); }
    void operator()(const sdd::flat_node<C>& n) const {
      for (const auto& a : n) for (int v : vt<V>::list(a.valuation()))
        if (first < 0) visit(paths{out, v}, a.successor()); else out.push_back(first * NV + v); } };
  std::string look() override {
    std::string s = "["; bool f = true;
    for (auto& p : held) { std::vector<int> l; visit(paths{l, -1}, p.second); std::sort(l.begin(), l.end());
      if (!f) s += ','; f = false; s += "[" + std::to_string(p.first) + "," + jlist(l) + "]"; }
    return s + "]"; }
  std::string stats(const sdd::manager<C>& m) {
    std::string s = "["; unique_stats(s, m.sdd_stats()); s += ','; unique_stats(s, m.hom_stats()); s += ','; unique_stats(s, m.values_stats()); s += ',';
    cache_stats(s, m.sdd_difference_cache_stats()); s += ','; cache_stats(s, m.sdd_intersection_cache_stats()); s += ',';
    cache_stats(s, m.sdd_sum_cache_stats()); s += ','; cache_stats(s, m.hom_cache_stats()); return s + "]"; }
  std::string slots() override {
    std::string s = "["; bool f = true;
    for (auto& p : ms) { if (!f) s += ','; f = false; s += "[" + std::to_string(p.first) + "," + stats(p.second) + "]"; }
    return s + "]"; }
};

static std::vector<std::unique_ptr<base>> K;
static void all(ev& e) {
  std::string l = "[", t = "["; for (std::size_t i = 0; i < K.size(); ++i) { if (i) { l += ','; t += ','; } l += K[i]->look(); t += K[i]->slots(); }
  e.raw("look", l + "]").raw("mgr", t + "]");
  e.list("live", std::vector<long>(alloc_acct::owned, alloc_acct::owned + K.size())); }

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); out_ = &out;
  auto fresh = [] { K.clear(); K.emplace_back(new holder<k0>); K.emplace_back(new holder<k1>); K.emplace_back(new holder<k2>);
                    K.emplace_back(new holder<k3>); K.emplace_back(new holder<k4>); K.emplace_back(new holder<k5>); };
  cmd c;
  while (read_cmd(in, c)) {
    std::string w = c.word(); ev e; e.str("e", w);
    if (w == "start") { fresh(); emit(e); continue; }
    int k = c.num(); e.num("k", k + 1); alloc_acct::owner = k;
    if (w == "init") { int d = c.num(), v = c.num(), fail = c.more() ? c.num() : -1; e.num("d", d).num("v", v).num("fail", fail);
      std::string res = "ok";
      alloc_acct::fail_in = fail;
      try { K[k]->init(d, v); }
      catch (const std::bad_alloc&) { res = "alloc"; }
      catch (const std::runtime_error&) { res = "refused"; }
      catch (...) { res = "other"; }
      e.boolean("hit", fail >= 0 && alloc_acct::fail_in < 0); alloc_acct::fail_in = -1;
      e.str("res", res); }
    else if (w == "copy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); K[k]->copy(d, a); }
    else if (w == "move") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); K[k]->move(d, a); }
    else if (w == "assign") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); K[k]->assign(d, a, false); }
    else if (w == "massign") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); K[k]->assign(d, a, true); }
    else if (w == "drop") { int d = c.num(); e.num("d", d); K[k]->drop(d); }
    else if (w == "mk") { int s = c.num(), a = c.num(), b = c.num(); e.num("s", s).num("a", a).num("b", b); K[k]->mk(s, a, b); }
    else if (w == "op") { int s = c.num(), t = c.num(), o = c.num(); e.num("s", s).num("t", t).num("o", o); K[k]->op(s, t, o); }
    else if (w == "close") { int s = c.num(), h = c.num(); e.num("s", s).num("h", h); K[k]->close(s, h); }
    else if (w == "forget") { int s = c.num(); e.num("s", s); K[k]->forget(s); }
    else if (w == "reset") { int d = c.num(); e.num("d", d); K[k]->reset(d); }
    else { std::cerr << "unknown command " << w << "\n"; return 3; }
    all(e); emit(e);
  }
  K.clear();
}
