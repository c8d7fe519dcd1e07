// The simulator's core: seams, faults, clock, scheduler, plans, instrumented types, model.
// Nothing in this header knows the library under test.
#pragma once
#include <bits/stdc++.h>

typedef int64_t i64;
typedef uint64_t u64;

// ---------------------------------------------------------------- seams and faults
enum Kind : int { F_ALLOC, F_KCOPY, F_VCOPY, F_VASSIGN, F_HASH, F_EQ, F_CB, F_FUNC, F_ITER, NFAULT, S_CLOCK = NFAULT, NSEAM };
extern const char* kindName[NSEAM];
enum : unsigned { M_NONE = 0, M_ALL = (1u << NFAULT) - 1, M_ALLOC = 1u << F_ALLOC };

struct SimFault { int kind; };
struct FaultD { int kind, nth; };
struct StallD { int nth; i64 dt; };   // time passes before the nth clock read inside the operation

// ---------------------------------------------------------------- properties as bits
typedef unsigned Tags;
constexpr Tags C(int n) { return 1u << n; }
template <class... A> constexpr Tags T(A... a) { return (0u | ... | C(a)); }
std::string tagStr(Tags t);

// ---------------------------------------------------------------- plans
enum OpCode : int {
#define OPS(X) \
  X(NOP) X(ADV) X(ADVTO) X(WJUMP) \
  X(NEW) X(DESTROY) X(COPYC) X(COPYA) X(MOVEC) X(MOVEA) X(SWAP) \
  X(CONTAINS) X(FIND) X(LOOKUP) X(INDEX) \
  X(INSERT) X(EMPLACE) X(EMPLACEP) X(INSRANGE) X(ASSIGN) \
  X(ERASE) X(ERASEIT) X(CLEAR) X(SHRINK) X(CAP) \
  X(HASEXP) X(ISVALID) X(THROWINV) X(ALLEXP) X(CLREXP) \
  X(MON) X(STOPMON) X(STATQ) X(SMON) X(SUNMON) X(SRESET) \
  X(CBREG) X(CBCLR) \
  X(ITNEW) X(ITOP) X(TRAV) X(FRONTBACK) X(EQCMP) X(PROBE) \
  X(WNEW) X(WCALL) X(WDEL)
#define X(n) O_##n,
  OPS(X)
#undef X
  NOPS
};
extern const char* opName[NOPS];

struct KV { int k, s; };
struct Op {
  int code = O_NOP, th = 0, a = 0, b = 0, k = 0, s = 0, n = 0, m = 0;
  i64 dt = 0;
  std::vector<KV> kv;
  std::vector<FaultD> faults;
  std::vector<StallD> stalls;
};
struct SwitchD { int gap, to; };
struct Plan {
  int prop = 0;
  u64 seed = 0;
  int type = 0, fold = 1, mod = 1 << 16, nkeys = 4, threads = 1, nslots = 2, spells = 1, gran = 0;
  i64 ttl = 1000000, tick = 0, res = 1;
  std::vector<Op> ops;
  std::vector<SwitchD> sched;
};
std::string planText(const Plan&);
bool planParse(std::istream&, Plan&);
std::string opText(const Op&);
Plan generate(int prop, u64 seed, bool thorough);

constexpr i64 TTL_INF = INT64_MAX / 4;
constexpr int NSLOT = 3, NSTAT = 3, NWRAP = 4, NITER = 6, NTHREAD = 3;

// ---------------------------------------------------------------- per thread context
struct Clock { i64 mono = 1000000000, wall = 0, tick = 0, res = 1;
  static constexpr i64 LAST = 6000000000000000000;   // the clock of the library ends 292 years after its start; so does simulated time
  void add(i64 d) { mono = mono > LAST - d ? std::max(mono, LAST) : mono + d; }
  i64 shown() const { return res > 1 ? mono - mono % res : mono; } };
struct Ctx;
struct Sched {
  std::mutex mu; std::condition_variable cv[NTHREAD + 1];
  int cur = -1, n = 0; bool done[NTHREAD] = {}; bool on = false;
  std::vector<SwitchD> list; size_t pos = 0; int gap = 0; u64 switches = 0, steps = 0, beat = 0;
  void yield(Ctx*);
  void finish(Ctx*);
  void waitFor(int tid);
  void handTo(int t);
  int nextAlive(int from);
};
enum CbType : int { CB_HIT, CB_MISS, CB_ACC };
struct CbHook { virtual void onCallback(int type, int id, int nest, int nestKey, i64 stall, int key, int spell, u64 val, bool hit) = 0; virtual ~CbHook() {} };

struct Failure { Tags tags; std::string cls, msg; int op; };
struct RunStats {
  u64 fired[NFAULT] = {}, ops = 0, stalls = 0, wjumps = 0, advances = 0, switches = 0, shared = 0, reentrant = 0, aborted = 0, opsBy[NOPS] = {}, abortedBy[NOPS] = {};
  i64 simNs = 0;
};
struct Ctx {
  int tid = 0;
  Clock* clk = nullptr;
  Sched* sched = nullptr;
  int lib = 0;               // >0 while library code runs on this thread
  unsigned mask = 0;         // fault kinds the running call may meet
  int cnt[NSEAM] = {};       // seam calls in this operation
  int hashes = 0;            // calls of the cache's hash object in this operation
  u64 steps = 0;             // seam calls in this operation, for the hang bound
  i64 fine = 0;              // memory accesses of the library, where they are counted
  i64 at() const { return (i64)steps + (fine << 20); }
  const Op* op = nullptr;
  int fired = 0; int firedKind = -1;
  int depth = 0;             // callback nesting
  CbHook* hook = nullptr;
  i64 liveLib = 0, liveKeys = 0, liveVals = 0;
  u64 rhash = 1469598103934665603ull;  // running hash over everything observed
  u64 shape = 0;                        // hash over the abstract states reached
  int opIndex = -1;
  std::vector<Failure> fails;
  RunStats st;
  void mix(u64 v) { rhash = (rhash ^ v) * 1099511628211ull; rhash ^= rhash >> 29; }
};
extern thread_local Ctx* tl;
extern unsigned g_epoch;
extern Ctx g_ctx[NTHREAD + 1];

void seam(int kind);
i64 clockRead();             // the library reads the clock
void hangExit();

struct LibScope {            // library code runs
  Ctx* c; int lib; unsigned mask;
  explicit LibScope(unsigned m) : c(tl), lib(c->lib), mask(c->mask) { c->lib = 1; c->mask = m; }
  ~LibScope() { c->lib = lib; c->mask = mask; }
};
struct UserScope {           // harness code runs inside a library call
  Ctx* c; int lib;
  UserScope() : c(tl), lib(c ? c->lib : 0) { if (c) c->lib = 0; }
  ~UserScope() { if (c) c->lib = lib; }
};

// ---------------------------------------------------------------- instrumented user types
void deadUse(const char* what);
constexpr unsigned LIVE = 0xC0FFEE11u;
struct Counted {
  unsigned epoch; int own; bool isKey;
  Counted(bool k) : epoch(g_epoch), own(tl ? tl->tid : NTHREAD), isKey(k) { (k ? g_ctx[own].liveKeys : g_ctx[own].liveVals)++; }
  Counted(const Counted& o) : Counted(o.isKey) {}
  Counted& operator=(const Counted&) { return *this; }
  ~Counted() { if (epoch == g_epoch) (isKey ? g_ctx[own].liveKeys : g_ctx[own].liveVals)--; }
};
struct TKey {
  Counted c; int id, spell; int* blob; unsigned magic = LIVE;
  TKey(int id_, int spell_) : c(true), id(id_), spell(spell_) { mk(); }
  TKey() : TKey(999, 0) {}   // the library does not need it, but may use it
  explicit TKey(int code) : TKey(code & 0xffff, code >> 16) {}
  TKey(const TKey& o) : c((seam(F_KCOPY), true)), id(o.id), spell(o.spell) { o.chk(); mk(); }
  TKey(TKey&& o) noexcept : c(true), id(o.id), spell(o.spell), blob(o.blob) { o.blob = nullptr; o.id = -7; }
  TKey& operator=(const TKey& o) { seam(F_KCOPY); o.chk(); chk(); id = o.id; spell = o.spell; free(blob); mk(); return *this; }
  TKey& operator=(TKey&& o) noexcept { std::swap(id, o.id); std::swap(spell, o.spell); std::swap(blob, o.blob); return *this; }
  ~TKey() { chk(); magic = 0xDEADDEAD; free(blob); }
  void mk() { blob = (int*)malloc(sizeof(int)); *blob = id * 1000 + spell; }
  void chk() const { if (magic != LIVE || (blob && *blob != id * 1000 + spell && id != -7)) deadUse("key"); }
  // Strict: the library may use only the equality it was given.
  friend bool operator==(const TKey& a, const TKey& b) { seam(F_EQ); a.chk(); b.chk(); return a.id == b.id && a.spell == b.spell; }
  friend bool operator!=(const TKey& a, const TKey& b) { return !(a == b); }
};
struct TVal {
  Counted c; u64 tag; int* blob; unsigned magic = LIVE;
  explicit TVal(u64 t) : c(false), tag(t) { seam(F_VCOPY); mk(); }
  TVal() : TVal(0) {}
  TVal(u64 hi, int lo) : TVal(hi + lo) {}
  TVal(const TVal& o) : c((seam(F_VCOPY), false)), tag(o.tag) { o.chk(); mk(); }
  TVal(TVal&& o) noexcept : c(false), tag(o.tag), blob(o.blob) { o.tag = 0; o.blob = nullptr; }
  TVal& operator=(const TVal& o) { seam(F_VASSIGN); o.chk(); chk(); if (this != &o) { tag = o.tag; free(blob); mk(); } return *this; }
  TVal& operator=(TVal&& o) noexcept { std::swap(tag, o.tag); std::swap(blob, o.blob); return *this; }
  ~TVal() { chk(); magic = 0xDEADDEAD; free(blob); }
  void mk() { blob = (int*)malloc(sizeof(int)); *blob = (int)tag; }
  void chk() const { if (magic != LIVE || (blob && *blob != (int)tag)) deadUse("value"); }
  friend bool operator==(const TVal& a, const TVal& b) { a.chk(); b.chk(); return a.tag == b.tag; }
  friend bool operator!=(const TVal& a, const TVal& b) { return !(a == b); }
};
struct THash {
  int mod; THash(int m = 1 << 16) : mod(m) {}
  size_t operator()(const TKey& k) const { if (tl && tl->lib) tl->hashes++; seam(F_HASH); k.chk(); return (size_t)(k.id % mod) * 2654435761u; }
};
struct TEq {
  int fold; TEq(int f = 1) : fold(f) {}
  bool operator()(const TKey& a, const TKey& b) const { seam(F_EQ); a.chk(); b.chk(); return a.id == b.id && (fold || a.spell == b.spell); }
};
namespace std {
template <> struct hash<TKey> { size_t operator()(const TKey& k) const { seam(F_HASH); k.chk(); return (size_t)k.id * 31 + k.spell; } };
}

// ---------------------------------------------------------------- the reference model
struct MEntry { int id, spell; u64 val; i64 lo, hi; };    // stored at some instant in [lo, hi]
struct MCb { int id, nest, nestKey; i64 stall; };
struct MCache {
  std::vector<MEntry> e;                                   // least to most recently used
  size_t cap = 0; int fold = 1; i64 ttlLo = 0, ttlHi = 0;  // usually equal
  int stat = -1;                                           // index of the statistics object
  std::vector<MCb> cb[3];
  bool same(const MEntry& x, int id, int sp) const { return x.id == id && (fold || x.spell == sp); }
  int idx(int id, int sp) const { for (size_t i = 0; i < e.size(); i++) if (same(e[i], id, sp)) return (int)i; return -1; }
  void touch(int i) { MEntry x = e[i]; e.erase(e.begin() + i); e.push_back(x); }
  bool store(int id, int sp, u64 val, i64 lo, i64 hi) {    // true if new
    if (cap == 0) return false;
    int i = idx(id, sp);
    if (i >= 0) { e[i].val = val; e[i].lo = lo; e[i].hi = hi; touch(i); return false; }
    e.push_back({id, sp, val, lo, hi});
    while (e.size() > cap) e.erase(e.begin());
    return true;
  }
  // Exactly at the deadline an entry is still served. Where the cache's duration type cannot tell two instants apart (a
  // floating point one beyond 2^50 ns, or a time to live it does not represent exactly) either answer is accepted.
  static i64 ulp(i64 ttl) { return ttl >> 50; }
  bool mayServe(const MEntry& x, i64 t0) const { return ttlHi >= TTL_INF || t0 - x.hi <= ttlHi + ulp(ttlHi); }
  bool mayMiss(const MEntry& x, i64 t1) const { return ttlLo < TTL_INF && t1 - x.lo >= ttlLo - ulp(ttlLo) + (ttlLo % 1000000 == 0); }
};
struct MStats { bool alive = false; u64 acc = 0, hits = 0; std::map<std::pair<int, int>, std::pair<u64, u64>> keys; };

// ---------------------------------------------------------------- executors
struct Exec : CbHook {
  Ctx& c; const Plan& p;
  Exec(Ctx& c_, const Plan& p_) : c(c_), p(p_) {}
  virtual void cloneOther(Exec& other) = 0;   // start from copies of another executor's caches
  virtual void run(const Op&) = 0;    // one operation, checked
  virtual void finish() = 0;          // destroy everything, check conservation
  void fail(Tags t, const std::string& cls, const std::string& msg);
  Tags context = 0;                   // what happened before; attributes later divergences
  u64 nextTag = 1;
  u64 fresh() { return (u64)(c.tid + 1) * 1000000 + nextTag++; }
};
std::unique_ptr<Exec> makeExec(int type, Ctx&, const Plan&);
// wrapped functions
struct WrapExec {
  virtual ~WrapExec() {}
  virtual void run(const Op&, Exec&) = 0;
  virtual size_t live() const = 0;     // results the model says are held (exact, or -1)
  virtual void finish(Exec&) = 0;
};
std::unique_ptr<WrapExec> makeWrap(Ctx&, const Plan&);

constexpr int NTYPE = 6;
inline bool typeTimed(int t) { return t == 1 || t == 2 || t == 4 || t == 5; }
inline bool typeInst(int t) { return t != 3 && t != 4; }
extern const char* typeName[NTYPE];
