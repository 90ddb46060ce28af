// Script interpreter over the memory layer: operation cache, hash tables, unique table, reference
// counted pointers, arena.  usage: mem SCRIPT OUT
#include "common.hh"

#include "sdd/mem/cache.hh"
#include "sdd/mem/hash_table.hh"
#include "sdd/mem/linear_alloc.hh"
#include "sdd/mem/ptr.hh"
#include "sdd/mem/unique.hh"
#include "sdd/mem/unique_table.hh"

static int hash_mode = 0;                    // 0 identity, 1 constant, 2 low bit only, 3 high bits only, 4 mixed over 64 bits
static std::size_t hash_of(int v) {
  switch (hash_mode) { case 0: return (std::size_t)v; case 1: return 0; case 2: return (std::size_t)(v & 1); case 4: return (std::size_t)v * 0x9E3779B97F4A7C15ull; default: return (std::size_t)v << 2; } }

// ---- cache -------------------------------------------------------------------------------------------
struct op_error : std::exception { int k; op_error(int k_) : k(k_) {} };
struct op_def { std::vector<int> subs; int throws = 0; int filtered = 0; };
static std::map<int, op_def> defs;
static std::vector<int> evals;                // operations evaluated, in order of start
static long throw_budget = -1;                // the next evaluations of throwing operations throw
struct ctx_t;
struct operation {
  int k;
  operation(int k_) : k(k_) {}
  operation(const operation&) = delete;
  operation(operation&& o) : k(o.k) { o.k = -1; }
  int operator()(ctx_t&) const;
  bool operator==(const operation& o) const noexcept { return k == o.k; }
};
namespace std { template <> struct hash<operation> { size_t operator()(const operation& o) const noexcept { return hash_of(o.k); } }; }
struct keep_unfiltered { bool operator()(const operation& o) const { return !defs[o.k].filtered; } };
struct keep_small { bool operator()(const operation& o) const { return o.k < 900; } };
using cache_t = sdd::mem::cache<ctx_t, operation, keep_unfiltered, keep_small>;
struct ctx_t { std::unique_ptr<cache_t> c; };
static ctx_t cctx;
int operation::operator()(ctx_t& x) const {
  evals.push_back(k);
  const op_def& d = defs[k];
  int r = 7 * k + 1;
  for (std::size_t i = 0; i < d.subs.size(); ++i) {
    if (d.throws == 2 && i == 1 && throw_budget != 0) { if (throw_budget > 0) --throw_budget; throw op_error(k); }
    r = (3 * r + (*x.c)(operation(d.subs[i]))) % 9973; }
  if (d.throws && throw_budget != 0) { if (throw_budget > 0) --throw_budget; throw op_error(k); }
  return r;
}
static void put_cache(ev& e) {
  const auto& s = cctx.c->statistics();
  e.num("size", s.size).num("hits", s.hits).num("misses", s.misses).num("filtered", s.filtered).num("discarded", s.discarded)
   .num("size2", cctx.c->size()).num("col", s.collisions).num("alone", s.alone).num("empty", s.empty).num("buckets", s.buckets);
}
static int probe_capacity(int size) {          // how many entries a cache of this size can hold
  auto saved = std::move(cctx.c); auto sd = defs; defs.clear(); auto hm = hash_mode; hash_mode = 0;
  cctx.c = std::make_unique<cache_t>(cctx, size);
  std::size_t last = 0; int n = 0;
  for (n = 0; n < 4 * size + 16 && n < 899; ++n) { (*cctx.c)(operation(n)); if (cctx.c->size() <= last) break; last = cctx.c->size(); }
  cctx.c = std::move(saved); defs = sd; hash_mode = hm; evals.clear();
  return (int)last;
}

// ---- tables ------------------------------------------------------------------------------------------
struct item { sdd::mem::intrusive_member_hook<item> hook; int id, v; item(int i, int x) : id(i), v(x) {} bool operator==(const item& o) const noexcept { return v == o.v; } };
struct key { int v; };
namespace std {
template <> struct hash<item> { size_t operator()(const item& x) const noexcept { return hash_of(x.v); } };
template <> struct hash<key> { size_t operator()(const key& x) const noexcept { return hash_of(x.v); } }; }
using grow_t = sdd::mem::hash_table<item>;
using fix_t = sdd::mem::hash_table<item, false>;
static std::unique_ptr<grow_t> grow; static std::unique_ptr<fix_t> fixt;
static std::map<int, std::unique_ptr<item>> items;
static std::map<int, fix_t::insert_commit_data> pending;
template <typename T> static void put_table(ev& e, const T& t) {
  std::size_t c, a, m; std::tie(c, a, m) = t.collisions();
  e.num("size", t.size()).num("buckets", t.bucket_count()).num("rehash", t.nb_rehash()).num("col", c).num("alone", a).num("empty", m)
   .num("load", (long long)(t.load_factor() * 1000 + 0.5));
}
struct blob {                                  // unified element with extra bytes behind it
  sdd::mem::intrusive_member_hook<blob> hook; int id, v, extra; static int destroyed;
  blob(int i, int x, int ex) : id(i), v(x), extra(ex) { std::memset(reinterpret_cast<char*>(this) + sizeof(blob), x & 0xff, ex); }
  ~blob() { ++destroyed; id = -1; }
  bool operator==(const blob& o) const noexcept { return v == o.v; }
  bool is_not_referenced() const noexcept { return true; }
  bool intact() const { for (int i = 0; i < extra; ++i) if (reinterpret_cast<const unsigned char*>(this)[sizeof(blob) + i] != (unsigned char)(v & 0xff)) return false; return true; }
};
int blob::destroyed = 0;
namespace std { template <> struct hash<blob> { size_t operator()(const blob& x) const noexcept { return hash_of(x.v); } }; }
static std::unique_ptr<sdd::mem::unique_table<blob>> ut; static std::map<int, blob*> blobs; static std::map<int, std::pair<char*, int>> raw; static long ut_base = 0;

// ---- pointers ----------------------------------------------------------------------------------------
struct obj;
using P = sdd::mem::ptr<obj>;
static std::vector<int> deleted;
struct obj {
  int id; std::uint32_t refs = 0; std::vector<P> kids; unsigned magic = 0xfeedbeef;
  obj(int i, std::vector<P> k) : id(i), kids(std::move(k)) {}
  ~obj() { magic = 0; }
  void increment_reference_counter() noexcept { assert(magic == 0xfeedbeef); ++refs; }
  void decrement_reference_counter() noexcept { assert(magic == 0xfeedbeef && refs > 0); --refs; }
  bool is_not_referenced() const noexcept { return refs == 0; }
};
static std::map<int, obj*> objs; static std::map<int, std::unique_ptr<P>> ps; static std::set<int> null_ps;
static void put_ptrs(ev& e) {
  e.list("dead", deleted); deleted.clear();
  std::string s = "["; bool f = true;
  for (auto& x : objs) { s += (f ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string(x.second->refs) + "]"; f = false; }
  e.raw("refs", s + "]"); s = "["; f = true;
  for (auto& x : ps) if (!null_ps.count(x.first)) { s += (f ? "[" : ",[") + std::to_string(x.first) + "," + std::to_string((*x.second)->id) + "]"; f = false; }
  e.raw("slots", s + "]");
}

// ---- arena -------------------------------------------------------------------------------------------
struct block { char* p; int n; unsigned char fill; int unit; };
static std::unique_ptr<sdd::mem::arena> ar; static char* abase = nullptr; static int asize = 0; static long a_live0 = 0;
static std::map<int, block> blocks; static std::vector<std::unique_ptr<sdd::mem::rewinder>> scopes;
template <std::size_t N> struct unit_t { char c[N]; };
static void put_arena(ev& e) {
  std::vector<int> bad;
  for (auto& b : blocks) for (int i = 0; i < b.second.n; ++i) if ((unsigned char)b.second.p[i] != b.second.fill) { bad.push_back(b.first); break; }
  e.list("bad", bad).num("pos", ar->position() - abase).num("heap", alloc_acct::live - a_live0);
}

static bool run(cmd& c) {
  const std::string op = c.word();
  ev e; e.str("e", op);
  if (op == "start") {}
  // cache
  else if (op == "cnew") { int size = c.num(); hash_mode = c.num(); defs.clear(); evals.clear(); throw_budget = -1; cctx.c.reset(); int cap = probe_capacity(size); cctx.c = std::make_unique<cache_t>(cctx, size); e.num("n", size).num("hm", hash_mode).num("cap", cap); put_cache(e); }
  else if (op == "cdef") { int k = c.num(); op_def d; d.throws = c.num(); d.filtered = c.num(); d.subs = c.nums(); defs[k] = d; e.num("k", k).num("th", d.throws).num("fi", d.filtered).list("subs", d.subs); }
  else if (op == "clook") { int k = c.num(); throw_budget = c.num(); e.num("k", k).num("b", throw_budget); evals.clear();
    try { int r = (*cctx.c)(operation(k)); e.str("x", "").num("r", r); } catch (const op_error& x) { e.str("x", "op").num("r", x.k); }
    e.list("ev", evals); put_cache(e); }
  else if (op == "cclear") { cctx.c->clear(); put_cache(e); }
  else if (op == "cdel") { cctx.c.reset(); }
  // growing hash table
  else if (op == "hnew") { int n = c.num(), fixed = c.num(); hash_mode = c.num(); items.clear(); pending.clear(); grow.reset(); fixt.reset(); e.num("n", n).num("fx", fixed).num("hm", hash_mode);
    if (fixed) { fixt = std::make_unique<fix_t>(n, 0.85); put_table(e, *fixt); } else { grow = std::make_unique<grow_t>(n); put_table(e, *grow); } }
  else if (op == "hins") { int id = c.num(), v = c.num(); items[id] = std::make_unique<item>(id, v); auto r = grow->insert(items[id].get()); e.num("id", id).num("v", v).num("r", r.first->id).boolean("new", r.second); if (!r.second) items.erase(id); put_table(e, *grow); }
  else if (op == "hcheck") { int v = c.num(); auto r = fixt->insert_check(key{v}, [](const key& k, const item& i) { return k.v == i.v; }, pending[v]); e.num("v", v).boolean("absent", r.second).num("r", r.second ? -1 : r.first->id); put_table(e, *fixt); }
  else if (op == "hcommit") { int id = c.num(), v = c.num(); items[id] = std::make_unique<item>(id, v); fixt->insert_commit(items[id].get(), pending[v]); e.num("id", id).num("v", v); put_table(e, *fixt); }
  else if (op == "herase") { int id = c.num(); e.num("id", id); if (grow) grow->erase(items[id].get()); else fixt->erase(items[id].get()); items.erase(id); if (grow) put_table(e, *grow); else put_table(e, *fixt); }
  else if (op == "hclear") { std::vector<int> d; auto disp = [&](item* i) { d.push_back(i->id); items.erase(i->id); }; if (grow) grow->clear_and_dispose(disp); else fixt->clear_and_dispose(disp); e.list("gone", d); if (grow) put_table(e, *grow); else put_table(e, *fixt); }
  // unique table
  else if (op == "unew") { int n = c.num(); hash_mode = c.num(); blobs.clear(); raw.clear(); ut.reset(); ut_base = alloc_acct::live; { LIB; ut = std::make_unique<sdd::mem::unique_table<blob>>(n); } ut_base = alloc_acct::live; e.num("n", n).num("hm", hash_mode); }
  else if (op == "ualloc") { int id = c.num(), ex = c.num(); char* p; { LIB; p = ut->allocate(ex); } std::memset(p, 0xa5, sizeof(blob) + ex); raw[id] = {p, ex}; e.num("id", id).num("ex", ex); }
  else if (op == "uput") { int id = c.num(), v = c.num(); auto r = raw[id]; raw.erase(id); blob::destroyed = 0; blob* b = new (r.first) blob(id, v, r.second); blob* u; { LIB; u = &(*ut)(b, r.second); }
    e.num("id", id).num("v", v).num("r", u->id).num("dead", blob::destroyed); if (u->id == id) blobs[id] = u; }
  else if (op == "uerase") { int id = c.num(); blob::destroyed = 0; blob* b = blobs[id]; blobs.erase(id); { LIB; ut->erase(b); } e.num("id", id).num("dead", blob::destroyed); }
  else if (op == "ustat") {
    const auto& s = ut->stats(); std::vector<int> bad; for (auto& b : blobs) if (b.second->id != b.first || !b.second->intact()) bad.push_back(b.first);
    e.num("size", s.size).num("peak", s.peak).num("access", s.access).num("hits", s.hits).num("misses", s.misses).num("rehash", s.rehash).num("col", s.collisions).num("alone", s.alone).num("empty", s.empty).num("buckets", s.buckets).num("load", (long long)(s.load_factor * 1000 + 0.5)).list("bad", bad).num("live", alloc_acct::live - ut_base); }
  else if (op == "udel") { blob::destroyed = 0; std::vector<int> left; for (auto& b : blobs) left.push_back(b.first); for (int i : left) { LIB; ut->erase(blobs[i]); } blobs.clear(); for (auto& r : raw) { alloc_acct::in_lib g; delete[] r.second.first; } raw.clear(); { LIB; ut.reset(); } e.num("dead", blob::destroyed).num("live", alloc_acct::live); }
  // pointers
  else if (op == "pinit") { ps.clear(); null_ps.clear(); deleted.clear(); objs.clear(); sdd::mem::set_deletion_handler<obj>([](const obj* o) { deleted.push_back(o->id); objs.erase(o->id); delete o; }); }
  else if (op == "pnew") { int d = c.num(), id = c.num(); auto kids = c.nums(); e.num("d", d).num("id", id).list("kids", kids); { std::vector<P> k; for (int s : kids) k.push_back(*ps[s]); auto o = new obj(id, std::move(k)); objs[id] = o; if (ps.count(d)) *ps[d] = P(o); else ps[d] = std::make_unique<P>(o); } null_ps.erase(d); put_ptrs(e); }
  else if (op == "pcopy") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); if (ps.count(d)) { P& r = (*ps[d] = *ps[a]); if (&r != ps[d].get()) e.str("x", "self"); } else ps[d] = std::make_unique<P>(*ps[a]); null_ps.erase(d); put_ptrs(e); }
  else if (op == "pmove") { int d = c.num(), a = c.num(); e.num("d", d).num("a", a); if (ps.count(d)) *ps[d] = std::move(*ps[a]); else ps[d] = std::make_unique<P>(std::move(*ps[a])); null_ps.erase(d); if (d != a) null_ps.insert(a); put_ptrs(e); }
  else if (op == "pswap") { int d = c.num(), a = c.num(), how = c.num(); e.num("d", d).num("a", a); if (how == 0) swap(*ps[d], *ps[a]); else if (how == 1) swap(std::move(*ps[d]), *ps[a]); else swap(*ps[d], std::move(*ps[a])); put_ptrs(e); }
  else if (op == "pkid") { int d = c.num(), a = c.num(), i = c.num(), mv = c.num(); e.num("d", d).num("a", a).num("i", i);   // d = (i-th child of the object of a), by reference; mv: through a temporary
    const P& kid = (*ps[a])->kids[i]; if (mv) { P t(kid); if (ps.count(d)) *ps[d] = std::move(t); else ps[d] = std::make_unique<P>(std::move(t)); } else if (ps.count(d)) *ps[d] = kid; else ps[d] = std::make_unique<P>(kid); null_ps.erase(d); put_ptrs(e); }
  else if (op == "pdel") { int d = c.num(); e.num("d", d); ps.erase(d); null_ps.erase(d); put_ptrs(e); }
  else if (op == "pcmp") { int a = c.num(), b = c.num(); e.num("a", a).num("b", b).boolean("eq", *ps[a] == *ps[b]).boolean("hq", std::hash<P>()(*ps[a]) == std::hash<P>()(*ps[b])).boolean("lt", *ps[a] < *ps[b]).boolean("gt", *ps[b] < *ps[a]); }
  else if (op == "pend") { ps.clear(); null_ps.clear(); put_ptrs(e); sdd::mem::reset_deletion_handler<obj>(); }
  // arena
  else if (op == "anew") { asize = c.num(); blocks.clear(); scopes.clear(); ar.reset(); { LIB; ar = std::make_unique<sdd::mem::arena>(asize); } abase = ar->position(); a_live0 = alloc_acct::live; e.num("n", asize); put_arena(e); }
  else if (op == "aalloc") { int id = c.num(), n = c.num(), unit = c.num(); char* p;
    { LIB; switch (unit) { case 0: p = ar->allocate(n); break; case 1: p = reinterpret_cast<char*>(sdd::mem::linear_alloc<unit_t<1>>(*ar).allocate(n)); break; case 8: p = reinterpret_cast<char*>(sdd::mem::linear_alloc<unit_t<8>>(*ar).allocate(n / 8)); break; default: { sdd::mem::linear_alloc<unit_t<1>> other(*ar); sdd::mem::linear_alloc<unit_t<24>> la(other); p = reinterpret_cast<char*>(la.allocate(n / 24)); } } }
    unsigned char fill = (unsigned char)(17 * id + 5); bool in = p >= abase && p + n <= abase + asize;
    e.num("id", id).num("n", n).num("off", in ? p - abase : -1);
    std::vector<int> over; for (auto& b : blocks) if (b.second.n > 0 && n > 0 && p < b.second.p + b.second.n && b.second.p < p + n) over.push_back(b.first);
    e.list("over", over);
    std::memset(p, fill, n); blocks[id] = {p, n, fill, unit}; put_arena(e); }
  else if (op == "afree") { int id = c.num(); block b = blocks[id]; blocks.erase(id); { LIB; switch (b.unit) { case 0: ar->deallocate(b.p, b.n); break; case 1: sdd::mem::linear_alloc<unit_t<1>>(*ar).deallocate(reinterpret_cast<unit_t<1>*>(b.p), b.n); break; case 8: sdd::mem::linear_alloc<unit_t<8>>(*ar).deallocate(reinterpret_cast<unit_t<8>*>(b.p), b.n / 8); break; default: sdd::mem::linear_alloc<unit_t<24>>(*ar).deallocate(reinterpret_cast<unit_t<24>*>(b.p), b.n / 24); } } e.num("id", id); put_arena(e); }
  else if (op == "abegin") { scopes.push_back(std::make_unique<sdd::mem::rewinder>(*ar)); put_arena(e); }
  else if (op == "aend") {                     // blocks of the scope die with it: the caller names them
    std::vector<int> ids; for (int i : c.nums()) { const block& b = blocks[i]; if (b.p >= abase && b.p + b.n <= abase + asize) { blocks.erase(i); ids.push_back(i); } } scopes.pop_back(); e.list("ids", ids); put_arena(e); }
  else if (op == "adel") { while (!scopes.empty()) scopes.pop_back(); std::vector<int> ids; for (auto& b : blocks) ids.push_back(b.first);
    for (int i : ids) { block b = blocks[i]; if (!(b.p >= abase && b.p + b.n <= abase + asize)) { LIB; ar->deallocate(b.p, b.n); } } blocks.clear(); e.num("heap", alloc_acct::live - a_live0); }
  else { std::cerr << "script error: unknown command " << op << "\n"; std::exit(3); }
  emit(e);
  return true;
}

int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]); std::ofstream out(argv[2]); if (!in || !out) return 3;
  out_ = &out; cmd c; long n = 0;
  while (read_cmd(in, c)) { ++n; run(c); }
  ev e; e.str("e", "end").num("n", n); emit(e);
  out.flush();
  std::_Exit(0);
}
