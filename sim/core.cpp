// The simulator: seams, clock, allocator, scheduler, plan files, running, batches, minimisation.
#include "sim.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <dlfcn.h>
#include <sched.h>
#include <pthread.h>

const char* kindName[NSEAM] = {"ALLOC", "KCOPY", "VCOPY", "VASSIGN", "HASH", "EQ", "CB", "FUNC", "ITER", "CLOCK"};
const char* opName[NOPS] = {
#define X(n) #n,
  OPS(X)
#undef X
};
const char* typeName[NTYPE] = {"Cache<TKey,TVal,THash,TEq>", "TimedCache<TKey,TVal,duration<double,milli>,THash,TEq>", "TimedCache<TKey,TVal,seconds,THash,TEq>", "Cache<int,int>", "TimedCache<int,int>", "TimedCache<TKey,TVal,milliseconds,THash,TEq>"};
thread_local Ctx* tl = nullptr;
unsigned g_epoch = 1;
Ctx g_ctx[NTHREAD + 1];

std::string tagStr(Tags t) { std::string r; for (int i = 1; i <= 21; i++) if (t & C(i)) { char b[8]; snprintf(b, 8, "C%02d", i); r += (r.empty() ? "" : ",") + std::string(b); } return r; }

// ---------------------------------------------------------------- shared with the parent
struct ShmFail { u64 seed; Tags tags; int op; char cls[72], msg[600]; };
struct Shm {
  u64 next;                    // index of the next seed
  u64 seed; int inRun, op, opCode; Tags context; int fired; char crash[72];
  u64 rhash;
  RunStats tot; u64 runs, threads[NTHREAD + 1], nshape, ninter, bytype[NTYPE]; double simNs; u64 faultyRuns, stalledRuns, reruns, reach[16];
  int nfail, forkEach, stuck, surplus; u64 contaminated; ShmFail fails[40];
  u64 ntime; struct { int op; i64 steps, mono, wall; } time[4000];   // what the clock showed at the start of operations and after switches
  u64 cap; u64 data[];         // 2*cap: trajectory hashes, interleaving hashes
};
static Shm* shm;
static void die(const char* cls) { tl = nullptr; if (shm) { strncpy(shm->crash, cls, sizeof shm->crash - 1); } _exit(77); }
void deadUse(const char*) { die("crash:use-of-destroyed-object"); }
void hangExit() { die("crash:hang"); }

extern "C" const char* __asan_get_report_description() __attribute__((weak));
extern "C" void __asan_on_error() {
  tl = nullptr;
  if (!shm) return;
  char buf[72]; const char* d = __asan_get_report_description ? __asan_get_report_description() : ""; snprintf(buf, sizeof buf, "crash:asan:%s", d);
  strncpy(shm->crash, buf, sizeof shm->crash - 1);
  if (!getenv("SIM_VERBOSE")) _exit(77);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:quarantine_size_mb=16:malloc_context_size=0:print_legend=0:symbolize=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:abort_on_error=0"; }
static void onSig(int s) { die(s == SIGABRT ? "crash:abort" : s == SIGVTALRM ? "crash:hang" : "crash:signal"); }

// ---------------------------------------------------------------- clock
static i64 realNs() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
static bool simulated() { return tl && tl->lib && tl->clk; }
i64 clockRead() {
  Ctx* c = tl;
  if (++c->steps > 300000) hangExit();
  if (c->sched && c->sched->on) c->sched->yield(c);
  int n = c->cnt[S_CLOCK]++;
  if (c->op) for (auto& s : c->op->stalls) if (s.nth == n) { c->clk->add(s.dt); c->st.stalls++; }
  i64 v = c->clk->shown();
  c->clk->add(c->clk->tick);
  return v;
}
constexpr i64 WALL0 = 1600000000000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(simulated() ? clockRead() : realNs())); }
system_clock::time_point system_clock::now() noexcept { if (simulated()) { i64 v = clockRead(); return time_point(duration(WALL0 + v + tl->clk->wall)); } timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return time_point(duration(t.tv_sec * 1000000000ll + t.tv_nsec)); }
}}}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (!simulated()) return (int)syscall(SYS_clock_gettime, id, t);
  i64 v = clockRead(); if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v += WALL0 + tl->clk->wall;
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0;
}
extern "C" time_t time(time_t* p) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int gettimeofday(struct timeval* v, void*) noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }

// ---------------------------------------------------------------- seams
void seam(int kind) {
  Ctx* c = tl;
  if (!c || !c->lib) return;
  if (++c->steps > 300000) hangExit();
  if (c->sched && c->sched->on) c->sched->yield(c);
  int n = c->cnt[kind]++;
  if (!c->op || c->fired || !(c->mask >> kind & 1)) return;   // at most one failure per operation
  for (auto& f : c->op->faults) if (f.kind == kind && f.nth == n) {
    c->fired++; c->firedKind = kind; c->st.fired[kind]++; if (shm) shm->fired++;
    if (kind == F_ALLOC) throw std::bad_alloc();
    throw SimFault{kind};
  }
}

// ---------------------------------------------------------------- allocator
struct Hdr { unsigned epoch; short tid; short lib; u64 magic; };
static_assert(sizeof(Hdr) == 16, "");
static void* simAlloc(size_t n) {
  Ctx* c = tl;
  bool lib = c && c->lib;
  if (lib) { seam(F_ALLOC); if (n > (64u << 20)) throw std::bad_alloc(); }
  char* p = (char*)malloc(n + sizeof(Hdr));
  if (!p) throw std::bad_alloc();
  new (p) Hdr{g_epoch, (short)(c ? c->tid : NTHREAD), lib, 0x5157a110cull};
  if (lib) { c->liveLib++; memset(p + sizeof(Hdr), 0xA5, std::min<size_t>(n, 1 << 16)); }
  return p + sizeof(Hdr);
}
static void simFree(void* q) {
  if (!q) return;
  Hdr* h = (Hdr*)((char*)q - sizeof(Hdr));
  if (h->lib && h->epoch == g_epoch) g_ctx[h->tid].liveLib--;
  free(h);
}
void* operator new(size_t n) { return simAlloc(n); }
void* operator new[](size_t n) { return simAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return simAlloc(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return simAlloc(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }

// ---------------------------------------------------------------- scheduler: one thread runs at a time
static u64 g_inter;   // hash over the switch points taken
static thread_local int t_inSched = 0;
struct InSched { InSched() { t_inSched++; } ~InSched() { t_inSched--; } };
void Sched::handTo(int t) { InSched is; { std::lock_guard<std::mutex> l(mu); cur = t; beat++; } cv[t].notify_one(); }
void Sched::waitFor(int tid) { InSched is; std::unique_lock<std::mutex> l(mu); cv[tid].wait(l, [&] { return cur == tid; }); }
int Sched::nextAlive(int from) { for (int i = 1; i <= n; i++) { int t = (from + i) % n; if (!done[t]) return t; } return -1; }
// A part of a run executed alone meets the same clock as in the whole run.
static int g_plan_gran; static bool g_partial; static std::map<std::pair<int, i64>, std::pair<i64, i64>>* g_times;
static void clockMark(Ctx* c, i64 at) {
  if (g_partial) { auto it = g_times->find({c->opIndex, at}); if (it != g_times->end()) { c->clk->mono = it->second.first; c->clk->wall = it->second.second; } }
  else if (shm && shm->ntime < 4000) shm->time[shm->ntime++] = {c->opIndex, at, c->clk->mono, c->clk->wall};
}
void Sched::yield(Ctx* c) {
  if (g_partial) { clockMark(c, c->at()); return; }
  steps++;
  if (pos >= list.size() || ++gap < list[pos].gap) return;
  int to = list[pos++].to; gap = 0;
  if (to < 0 || to >= n || to == c->tid || done[to]) return;
  switches++;
  g_inter = (g_inter ^ (u64)(c->opIndex * 1000003 + c->at() * 31 + to)) * 1099511628211ull;
  handTo(to); waitFor(c->tid); clockMark(c, c->at());
}
void Sched::finish(Ctx* c) { done[c->tid] = true; int t = nextAlive(c->tid); if (t < 0) handTo(NTHREAD); else handTo(t); }

// A thread that would block on a lock held by a parked thread lets the others run.
static bool coop() { return tl && tl->sched && tl->sched->on; }
static void letOthers(Ctx* c) {
  if (++c->steps > 300000) hangExit();
  int t = c->sched->nextAlive(c->tid);
  if (t < 0 || t == c->tid) die("crash:deadlock");
  c->sched->handTo(t); c->sched->waitFor(c->tid); clockMark(c, c->at());
}
extern "C" int __cxa_guard_acquire(u64* g) {
  unsigned char* b = (unsigned char*)g;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  for (;;) {
    unsigned char z = 0;
    if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) { if (b[0]) { b[1] = 0; return 0; } return 1; }
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    if (coop()) letOthers(tl); else sched_yield();
  }
}
extern "C" void __cxa_guard_release(u64* g) noexcept { unsigned char* b = (unsigned char*)g; __atomic_store_n(b, 1, __ATOMIC_RELEASE); __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE); }
extern "C" void __cxa_guard_abort(u64* g) noexcept { __atomic_store_n((unsigned char*)g + 1, 0, __ATOMIC_RELEASE); }
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!coop() || !tl->lib || t_inSched) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return real(m); }
  if (pthread_mutex_trylock(m) == 0) return 0;
  if (m->__data.__kind == PTHREAD_MUTEX_NORMAL && m->__data.__owner == (int)syscall(SYS_gettid)) die("crash:deadlock");
  for (;;) { letOthers(tl); if (pthread_mutex_trylock(m) == 0) return 0; }
}

// a reader-writer lock is tried again and again while others run; initialisation that must happen once is waited for
template <class F> static int lockCoop(const char* name, pthread_rwlock_t* l, F tryIt) {
  if (!coop() || !tl->lib || t_inSched) return ((int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, name))(l);
  for (int i = 0;; i++) { int r = tryIt(l); if (r != EBUSY) return r; letOthers(tl); }
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return lockCoop("pthread_rwlock_rdlock", l, pthread_rwlock_tryrdlock); }
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return lockCoop("pthread_rwlock_wrlock", l, pthread_rwlock_trywrlock); }
static std::atomic<pthread_once_t*> g_once[8];
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {
  static auto real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
  if (!coop() || !tl->lib || t_inSched) return real(o, f);
  auto held = [&] { for (auto& x : g_once) if (x == o) return true; return false; };
  while (held()) letOthers(tl);
  int i = 0; while (i < 7 && g_once[i]) i++;
  struct Done { int i; ~Done() { g_once[i] = nullptr; } } done{i};
  g_once[i] = o; return real(o, f);
}

#ifdef FINE
// The library and the user types are compiled so that every access to memory calls one of these: threads may switch before
// any of them. Accesses to objects of static storage duration, which several threads might share, always count; others only
// in plans that say so.
extern "C" char __data_start, _end;
static void access(uintptr_t a) {
  Ctx* c = tl;
  if (!c || !c->lib) return;
  c->fine++;
  if (!c->sched || !c->sched->on) return;
  if (c->fine % 20000 == 0 && !g_partial) { int t = c->sched->nextAlive(c->tid); if (t >= 0 && t != c->tid) { c->sched->handTo(t); c->sched->waitFor(c->tid); clockMark(c, c->at()); } if (c->fine > 100000000) hangExit(); return; }
  bool shared = a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end && !(a >= (uintptr_t)g_ctx && a < (uintptr_t)(g_ctx + NTHREAD + 1)) && a != (uintptr_t)&g_epoch;
  if (shared) c->st.shared++;
  if (shared || g_plan_gran || g_partial) c->sched->yield(c);
}
#define HOOK(n) extern "C" void __asan_##n(void* a) { access((uintptr_t)a); static auto real = (void (*)(void*))dlsym(RTLD_NEXT, "__asan_" #n); real(a); }
HOOK(load1) HOOK(load2) HOOK(load4) HOOK(load8) HOOK(load16) HOOK(store1) HOOK(store2) HOOK(store4) HOOK(store8) HOOK(store16)
#undef HOOK
#define HOOK(n) extern "C" void __asan_##n(void* a, long s) { access((uintptr_t)a); static auto real = (void (*)(void*, long))dlsym(RTLD_NEXT, "__asan_" #n); real(a, s); }
HOOK(loadN) HOOK(storeN)
#undef HOOK
// linked with --wrap: what moves blocks of memory takes steps as well
#define WRAP(n, A) extern "C" void* __real_##n(void*, A, size_t); extern "C" void* __wrap_##n(void* d, A s, size_t k) { if (tl && tl->lib) tl->fine += (i64)(k / 8); return __real_##n(d, s, k); }
WRAP(memmove, const void*) WRAP(memcpy, const void*) WRAP(memset, int)
#undef WRAP
#endif

// ---------------------------------------------------------------- plan files
static std::string num(i64 v) { return std::to_string(v); }
std::string opText(const Op& o) {
  std::string r = std::string("op ") + opName[o.code];
  auto f = [&](const char* n, i64 v) { if (v) r += std::string(" ") + n + "=" + num(v); };
  f("th", o.th); f("a", o.a); f("b", o.b); f("k", o.k); f("s", o.s); f("n", o.n); f("m", o.m); f("dt", o.dt);
  for (auto& x : o.kv) r += " kv=" + num(x.k) + ":" + num(x.s);
  for (auto& x : o.faults) r += std::string(" fault=") + kindName[x.kind] + ":" + num(x.nth);
  for (auto& x : o.stalls) r += " stall=" + num(x.nth) + ":" + num(x.dt);
  return r;
}
std::string planText(const Plan& p) {
  std::string r = "plan prop=" + num(p.prop) + " seed=" + std::to_string(p.seed) + " type=" + num(p.type) + " fold=" + num(p.fold) + " mod=" + num(p.mod) + " nkeys=" + num(p.nkeys) + " threads=" + num(p.threads) + " spells=" + num(p.spells) + " ttl=" + num(p.ttl) + " tick=" + num(p.tick) + " res=" + num(p.res) + (p.gran ? " gran=" + num(p.gran) : "") + "\n";
  for (auto& o : p.ops) r += opText(o) + "\n";
  for (auto& s : p.sched) r += "switch after=" + num(s.gap) + " to=" + num(s.to) + "\n";
  return r + "end\n";
}
bool planParse(std::istream& in, Plan& p) {
  std::string line; bool head = false; p.ops.clear(); p.sched.clear();
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream s(line); std::string w; s >> w;
    if (w == "end") return head;
    std::string name; if (w == "op") s >> name;
    Op o; SwitchD sw{0, 0};
    if (w == "op") { o.code = -1; for (int i = 0; i < NOPS; i++) if (name == opName[i]) o.code = i; if (o.code < 0) return false; }
    std::string kv;
    while (s >> kv) {
      size_t e = kv.find('='); if (e == std::string::npos) return false;
      std::string k = kv.substr(0, e), v = kv.substr(e + 1); size_t c = v.find(':'); i64 x = 0, y = 0;
      if (k == "fault") { FaultD f{-1, atoi(v.substr(c + 1).c_str())}; for (int i = 0; i < NFAULT; i++) if (v.substr(0, c) == kindName[i]) f.kind = i; if (f.kind < 0) return false; o.faults.push_back(f); continue; }
      if (k == "seed") { p.seed = strtoull(v.c_str(), nullptr, 10); continue; }
      x = atoll(v.c_str()); if (c != std::string::npos) y = atoll(v.substr(c + 1).c_str());
      if (w == "plan") {
        head = true;
        if (k == "prop") p.prop = x; else if (k == "type") p.type = x; else if (k == "fold") p.fold = x; else if (k == "mod") p.mod = x; else if (k == "nkeys") p.nkeys = x; else if (k == "threads") p.threads = x; else if (k == "spells") p.spells = x; else if (k == "ttl") p.ttl = x; else if (k == "tick") p.tick = x; else if (k == "res") p.res = x; else if (k == "gran") p.gran = x; else return false;
      } else if (w == "op") {
        if (k == "th") o.th = x; else if (k == "a") o.a = x; else if (k == "b") o.b = x; else if (k == "k") o.k = x; else if (k == "s") o.s = x; else if (k == "n") o.n = x; else if (k == "m") o.m = x; else if (k == "dt") o.dt = x;
        else if (k == "kv") o.kv.push_back({(int)x, (int)y}); else if (k == "stall") o.stalls.push_back({(int)x, y}); else return false;
      } else if (w == "switch") { if (k == "after") sw.gap = x; else sw.to = x; }
      else return false;
    }
    if (w == "op") p.ops.push_back(o); else if (w == "switch") p.sched.push_back(sw);
  }
  return false;
}

// ---------------------------------------------------------------- what happened before an operation
static Tags contextOf(const Plan& p, int upto, bool crash) {
  Tags t = 0; size_t cap = 1 << 20; std::set<int> keys;
  for (int i = 0; i <= upto && i < (int)p.ops.size(); i++) {
    const Op& o = p.ops[i];
    if (!o.faults.empty() && i < upto) t |= T(5, 1);
    switch (o.code) {
      case O_NEW: cap = std::min(cap, (size_t)o.m); if (!o.kv.empty()) t |= T(13); for (auto& x : o.kv) keys.insert(x.k); break;
      case O_COPYC: case O_COPYA: t |= T(11); break;
      case O_MOVEC: case O_MOVEA: case O_SWAP: t |= T(12); break;
      case O_INSERT: case O_EMPLACE: case O_EMPLACEP: keys.insert(o.k); break;
      case O_INSRANGE: case O_ASSIGN: t |= T(13); for (auto& x : o.kv) keys.insert(x.k); break;
      case O_ERASE: case O_ERASEIT: case O_CLEAR: t |= T(4); break;
      case O_SHRINK: case O_CAP: cap = std::min(cap, (size_t)o.n); if (o.code == O_SHRINK) t |= T(4); break;
      case O_CLREXP: t |= T(8); break;
      case O_CBREG: if (o.b || crash) t |= T(10); break;
      case O_MON: case O_SMON: case O_SUNMON: case O_SRESET: case O_STOPMON: if (crash) t |= T(9); break;
      case O_ITNEW: if (crash || o.n >= 2) t |= T(14); break;
      case O_WNEW: case O_WCALL: case O_WDEL: t |= T(15); break;
    }
  }
  if (keys.size() > cap) t |= T(2);
  if (p.threads > 1) t |= T(17);
  return t;
}
static const Plan* g_plan;
void Exec::fail(Tags t, const std::string& cls, const std::string& msg) {
  if (c.fails.size() > 40) return;
  c.fails.push_back({t | context, cls, msg, c.opIndex});
}
static Tags crashTags(const Plan& p, int op, int code) {
  Tags t = T(1, 3, 16) | contextOf(p, op, true);
  if (op >= 0 && op < (int)p.ops.size() && !p.ops[op].faults.empty()) t |= T(5);
  if (code == O_WCALL) t |= T(15);
  switch (code) {
    case O_NEW: case O_INSRANGE: case O_ASSIGN: t |= T(13); break; case O_COPYC: case O_COPYA: t |= T(11); break; case O_MOVEC: case O_MOVEA: case O_SWAP: t |= T(12); break;
    case O_ERASE: case O_ERASEIT: case O_CLEAR: t |= T(4); break; case O_SHRINK: case O_CAP: case O_FRONTBACK: t |= T(2); break; case O_CLREXP: case O_ALLEXP: case O_HASEXP: case O_ISVALID: case O_THROWINV: t |= T(8); break;
    case O_ITNEW: case O_ITOP: case O_TRAV: t |= T(14); break;
    case O_INSERT: case O_EMPLACE: case O_EMPLACEP: t |= T(2); break;
    case O_MON: case O_STOPMON: case O_STATQ: case O_SMON: case O_SUNMON: case O_SRESET: t |= T(9); break;
    case O_CBREG: case O_CBCLR: t |= T(10); break;
  }
  if (typeTimed(p.type)) t |= T(7);
  return t;
}

// ---------------------------------------------------------------- running a plan
struct Result { std::vector<Failure> fails; u64 rhash = 0, shape = 0, inter = 0; };
static void startOp(Ctx& c, const Plan& p, Exec& e, int i) {
  c.opIndex = i; e.context = contextOf(p, i, false);
  if (shm) { shm->op = i; shm->opCode = p.ops[i].code; }
}
static void resetCtx(Ctx& c, int tid, Clock* k, Sched* s) { RunStats st = c.st; c.~Ctx(); new (&c) Ctx(); c.st = st; c.tid = tid; c.clk = k; c.sched = s; }

static Result runOnce(const Plan& p, Tags stopAt, const std::vector<char>* only = nullptr) {
  Result r; g_plan = &p; g_plan_gran = p.gran; g_epoch++; g_inter = 1469598103934665603ull;
  if (shm) { shm->inRun = 1; shm->op = -1; shm->fired = 0; shm->ntime = 0; }
  Clock clk; clk.tick = p.tick; clk.res = p.res;
  i64 start = clk.mono;
  itimerval tv{{0, 0}, {4, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  auto stop = [&](Ctx& c) { for (auto& f : c.fails) if (f.tags & stopAt) return true; return false; };
  if (p.threads <= 1) {
    Ctx& c = g_ctx[0]; resetCtx(c, 0, &clk, nullptr); tl = &c;
    {
      auto e = makeExec(p.type, c, p);
      for (size_t i = 0; i < p.ops.size() && !stop(c); i++) { startOp(c, p, *e, (int)i); e->run(p.ops[i]); }
      e->context = contextOf(p, (int)p.ops.size(), false);
      if (!stop(c)) e->finish();
      else { c.fails.resize(c.fails.size()); }
      // a run that stopped early is torn down without further checks
      if (stop(c)) { std::vector<Failure> keep = c.fails; e->finish(); c.fails = keep; }
    }
    tl = nullptr; r.fails = c.fails; r.rhash = c.rhash; r.shape = c.shape;
  } else {
    int n = std::min(p.threads, NTHREAD);
    Sched sc; sc.n = n; sc.list = p.sched; std::vector<std::unique_ptr<Exec>> ex(n);
    for (int t = 0; t < n; t++) { resetCtx(g_ctx[t], t, &clk, &sc); tl = &g_ctx[t]; ex[t] = makeExec(p.type, g_ctx[t], p); }
    // the prelude fills thread 0's caches; the others start from copies of them
    tl = &g_ctx[0]; bool prelude = false;
    for (size_t i = 0; i < p.ops.size(); i++) if (p.ops[i].th == 9) { prelude = true; startOp(g_ctx[0], p, *ex[0], (int)i); ex[0]->run(p.ops[i]); }
    if (prelude) for (int t = 1; t < n; t++) { tl = &g_ctx[t]; g_ctx[t].hook = ex[t].get(); ex[t]->cloneOther(*ex[0]); }
    tl = nullptr; sc.on = true;
    std::vector<std::thread> th;
    auto body = [&](int t) {
      sc.waitFor(t); tl = &g_ctx[t]; Ctx& c = g_ctx[t];
      for (size_t i = 0; i < p.ops.size(); i++) {
        if (p.ops[i].th != t || (only && !(*only)[i])) continue;
        startOp(c, p, *ex[t], (int)i); clockMark(&c, -1); ex[t]->run(p.ops[i]);
        if (!c.fails.empty()) break;
        sc.yield(&c);
      }
      tl = nullptr; sc.finish(&c);
    };
    for (int t = 0; t < n; t++) th.emplace_back(body, t);
    sc.handTo(0);
    { std::unique_lock<std::mutex> l(sc.mu); while (sc.cur != NTHREAD) { u64 before = sc.beat; if (sc.cv[NTHREAD].wait_for(l, std::chrono::seconds(6)) == std::cv_status::timeout && sc.cur != NTHREAD && sc.beat == before) die("stuck"); } }
    for (auto& x : th) x.join();
    sc.on = false;
    for (int t = 0; t < n; t++) { Ctx& c = g_ctx[t]; tl = &c; bool had = !c.fails.empty(); auto keep = c.fails; ex[t]->context = contextOf(p, (int)p.ops.size(), false); ex[t]->finish(); if (had) c.fails = keep; ex[t].reset(); }
    tl = nullptr;
    for (int t = 0; t < n; t++) { r.fails.insert(r.fails.end(), g_ctx[t].fails.begin(), g_ctx[t].fails.end()); r.rhash = (r.rhash ^ g_ctx[t].rhash) * 1099511628211ull; r.shape = (r.shape ^ g_ctx[t].shape) * 1099511628211ull; }
    g_ctx[0].st.switches += sc.switches;
    r.inter = g_inter;
  }
  g_ctx[0].st.simNs += clk.mono - start;
  tv.it_value.tv_sec = 0; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  if (shm) { shm->inRun = 0; shm->rhash = r.rhash; }
  return r;
}
static Result runPlan(const Plan& p, Tags stopAt) {
  Result r = runOnce(p, stopAt);
  // memory that only the first run of a process allocates is not leaked by every run
  bool leak = false; for (auto& f : r.fails) if (f.cls == "leak-memory") leak = true;
  if (leak) { if (shm) shm->reruns++; r = runOnce(p, stopAt); }
  return r;
}

// ---------------------------------------------------------------- isolated execution of one plan
struct Iso { bool crashed = false; std::string cls; int op = -1, code = 0; std::vector<Failure> fails; u64 rhash = 0; };
static Shm* newShm(u64 cap) {
  size_t sz = sizeof(Shm) + 2 * cap * sizeof(u64);
  Shm* s = (Shm*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (s == MAP_FAILED) { perror("mmap"); exit(3); }
  s->cap = cap; return s;
}
static void childSetup() {
  std::set_terminate([] { die("crash:terminate"); });
  static char stk[65536]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, nullptr);
  for (int s : {SIGABRT, SIGVTALRM}) { struct sigaction a{}; a.sa_handler = onSig; a.sa_flags = SA_ONSTACK; sigaction(s, &a, nullptr); }
  int fd = -1; (void)fd; if (!getenv("SIM_VERBOSE")) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
}
static std::string crashClass(int status) {
  if (shm->crash[0]) return shm->crash;
  if (WIFSIGNALED(status)) return "crash:signal" + num(WTERMSIG(status));
  return "crash:exit" + num(WEXITSTATUS(status));
}
// Which operations belong together: those of one cache or wrapped function, and of all it is legitimately connected with.
static std::vector<std::vector<char>> parts(const Plan& p) {
  enum { W = 64 }; std::vector<int> up, cur(16 * W, -1);   // NEW and WNEW put another object in the slot
  std::function<int(int)> root = [&](int x) { return up[x] == x ? x : up[x] = root(up[x]); };
  auto id = [&](int place) { if (cur[place] < 0) { cur[place] = (int)up.size(); up.push_back(cur[place]); } return cur[place]; };
  bool prelude = false; for (auto& o : p.ops) prelude |= o.th == 9;
  std::vector<int> of(p.ops.size(), -1);
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Op& o = p.ops[i]; int base = (o.th & 15) * W; unsigned b = (unsigned)o.b;
    int slot = base + (int)((unsigned)o.a % NSLOT), other = base + (int)(b % NSLOT), stat = base + 8 + (int)(b % NSTAT), iter = base + 16 + (int)(b % NITER), wr = base + 32 + (int)((unsigned)o.a % NWRAP), wo = base + 32 + (int)(b % NWRAP);
    auto join = [&](int x, int y) { int q = root(id(x)), r = root(id(y)); up[q] = r; };
    switch (o.code) {
      case O_NOP: case O_ADV: case O_ADVTO: case O_WJUMP: continue;
      case O_COPYC: case O_COPYA: case O_MOVEC: case O_MOVEA: case O_SWAP: case O_EQCMP: join(slot, other); break;
      case O_INSRANGE: if (o.k > 0) join(slot, other); break;
      case O_MON: join(slot, stat); break;
      case O_SMON: case O_SUNMON: case O_SRESET: slot = stat; break;
      case O_ITNEW: case O_ERASEIT: case O_HASEXP: case O_ISVALID: case O_THROWINV: join(slot, iter); break;
      case O_ITOP: slot = iter; break;
      case O_NEW: if (!prelude) cur[slot] = -1; if (o.k > 0) join(slot, other); break;
      case O_WNEW: cur[wr] = -1; slot = wr; break;
      case O_WDEL: slot = wr; break;
      case O_WCALL: slot = wr; if (o.m > 0) join(wr, wo); break;
    }
    if (prelude) join(slot, base);   // copies made beforehand: a thread's caches stay together
    of[i] = id(slot);
  }
  std::map<int, std::vector<char>> m;
  for (size_t i = 0; i < p.ops.size(); i++) if (of[i] >= 0 && p.ops[i].th != 9) { auto& v = m[root(of[i])]; v.resize(p.ops.size()); v[i] = 1; }
  std::vector<std::vector<char>> r; for (auto& x : m) r.push_back(x.second);
  return r;
}
// With several threads: interference only if every part passes when it runs alone.
static void attribute(const Plan& p, Iso& r) {
  if (p.threads <= 1 || r.fails.empty()) return;
  std::map<std::pair<int, i64>, std::pair<i64, i64>> times;
  for (u64 i = 0; i < shm->ntime; i++) { auto& x = shm->time[i]; times[{x.op, x.steps}] = {x.mono, x.wall}; }
  bool alone = true;
  for (auto& part : parts(p)) {
    memset((void*)shm, 0, sizeof(Shm));
    pid_t pid = fork();
    if (pid == 0) { childSetup(); g_partial = true; g_times = &times; Result q = runOnce(p, ~0u, &part); bool bad = false; for (auto& f : q.fails) bad |= f.cls.compare(0, 4, "leak") != 0; _exit(bad); }
    int status = 0; waitpid(pid, &status, 0);
    if (!WIFEXITED(status) || WEXITSTATUS(status)) { alone = false; break; }
  }
  for (auto& f : r.fails) { if (alone && f.cls.compare(0, 4, "leak") != 0) { f.tags |= T(17); f.cls = "interference:" + f.cls; } else f.tags &= ~T(17); }
}
static Iso isolated(const Plan& p) {
  static Shm* mine = newShm(1); shm = mine; memset((void*)shm, 0, sizeof(Shm)); shm->cap = 1;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup();
    Result r = runPlan(p, ~0u);
    shm->rhash = r.rhash;
    for (auto& f : r.fails) if (shm->nfail < 40) { auto& x = shm->fails[shm->nfail++]; x.tags = f.tags; x.op = f.op; strncpy(x.cls, f.cls.c_str(), sizeof x.cls - 1); strncpy(x.msg, f.msg.c_str(), sizeof x.msg - 1); }
    shm->next = 1; _exit(0);
  }
  int status = 0; waitpid(pid, &status, 0);
  Iso r;
  if (!WIFEXITED(status) || WEXITSTATUS(status) || !shm->next) {
    r.crashed = true; r.cls = crashClass(status); r.op = shm->op; r.code = shm->opCode; r.rhash = 0;
    Failure f{p.prop == 21 ? r.cls == "crash:hang" ? T(21) : T(1, 3, 16) : crashTags(p, r.op, r.code), r.cls, "the process ended: " + r.cls + (r.op >= 0 ? std::string(" in ") + opName[r.code] : std::string(" outside an operation")), r.op};
    r.fails.push_back(f);
    attribute(p, r);
    return r;
  }
  r.rhash = shm->rhash;
  for (int i = 0; i < shm->nfail; i++) { auto& x = shm->fails[i]; r.fails.push_back({x.tags, x.cls, x.msg, x.op}); }
  attribute(p, r);
  return r;
}

// ---------------------------------------------------------------- minimisation
static std::string base(const std::string& cls) { return cls; }
static bool hasClass(const Iso& r, const std::string& cls) { for (auto& f : r.fails) if (base(f.cls) == base(cls)) return true; return false; }
static Plan minimise(Plan p, const std::string& cls, int budget) {
  auto bad = [&](const Plan& q) { if (budget-- <= 0) return false; return hasClass(isolated(q), cls); };
  // nothing after the failing operation matters
  { Iso r = isolated(p); for (auto& f : r.fails) if (f.cls == cls && f.op >= 0 && f.op + 1 < (int)p.ops.size() && p.threads <= 1) { Plan q = p; q.ops.resize(f.op + 1); if (bad(q)) p = q; break; } }
  for (bool again = true; again && budget > 0;) {
    again = false;
    for (size_t len = std::max<size_t>(1, p.ops.size() / 2); len >= 1 && budget > 0; len /= 2) {
      for (size_t i = 0; i < p.ops.size() && budget > 0;) {
        Plan q = p; q.ops.erase(q.ops.begin() + i, q.ops.begin() + std::min(p.ops.size(), i + len));
        if (q.ops.size() < p.ops.size() && bad(q)) { p = q; again = true; } else i += len;
      }
      if (len == 1) break;
    }
    for (size_t len = std::max<size_t>(1, p.sched.size() / 2); len >= 1 && !p.sched.empty() && budget > 0; len /= 2) {
      for (size_t i = 0; i < p.sched.size() && budget > 0;) { Plan q = p; q.sched.erase(q.sched.begin() + i, q.sched.begin() + std::min(p.sched.size(), i + len)); if (q.sched.size() < p.sched.size() && bad(q)) { p = q; again = true; continue; }
        q = p; int gap = 0; for (size_t j = i; j < std::min(p.sched.size(), i + len); j++) gap += p.sched[j].gap;   // the switches after them happen where they did
        if (i + len < p.sched.size()) { q.sched[i + len].gap += gap; q.sched.erase(q.sched.begin() + i, q.sched.begin() + i + len); if (bad(q)) { p = q; again = true; continue; } }
        i += len; }
      if (len == 1) break;
    }
    for (size_t i = 0; i < p.ops.size() && budget > 0; i++) {
      auto tryOp = [&](auto f) { Plan q = p; f(q.ops[i]); if (opText(q.ops[i]) != opText(p.ops[i]) && bad(q)) { p = q; again = true; return true; } return false; };
      for (size_t j = 0; j < p.ops[i].faults.size();) if (!tryOp([&](Op& o) { o.faults.erase(o.faults.begin() + j); })) j++;
      for (size_t j = 0; j < p.ops[i].stalls.size();) if (!tryOp([&](Op& o) { o.stalls.erase(o.stalls.begin() + j); })) j++;
      for (size_t j = 0; j < p.ops[i].kv.size();) if (!tryOp([&](Op& o) { o.kv.erase(o.kv.begin() + j); })) j++;
      tryOp([](Op& o) { if (o.code == O_INSRANGE || o.code == O_ASSIGN || o.code == O_NEW) o.k = 0; }); tryOp([](Op& o) { o.m = 0; }); tryOp([](Op& o) { o.b = 0; }); tryOp([](Op& o) { o.n = 0; }); tryOp([](Op& o) { o.s = 0; });
      int code = p.ops[i].code; if (code == O_CBREG || code == O_NEW || code == O_WNEW) tryOp([](Op& o) { o.dt = 0; });
      for (auto& f : p.ops[i].faults) { (void)f; break; }
      for (size_t j = 0; j < p.ops[i].faults.size(); j++) if (p.ops[i].faults[j].nth > 0) tryOp([&](Op& o) { o.faults[j].nth = 0; });
    }
    auto tryPlan = [&](auto f) { Plan q = p; f(q); if (planText(q) != planText(p) && bad(q)) { p = q; again = true; } };
    tryPlan([](Plan& q) { q.tick = 0; }); tryPlan([](Plan& q) { q.res = 1; }); tryPlan([](Plan& q) { q.mod = 1 << 16; }); tryPlan([](Plan& q) { q.fold = 1; });
  }
  return p;
}

// ---------------------------------------------------------------- batches
static void addStats(RunStats& t, const RunStats& s) {
  for (int i = 0; i < NFAULT; i++) t.fired[i] += s.fired[i];
  for (int i = 0; i < NOPS; i++) { t.opsBy[i] += s.opsBy[i]; t.abortedBy[i] += s.abortedBy[i]; }
  t.ops += s.ops; t.stalls += s.stalls; t.wjumps += s.wjumps; t.advances += s.advances; t.switches += s.switches; t.shared += s.shared; t.reentrant += s.reentrant; t.aborted += s.aborted;
}
static void account(const Plan& p, const Result& r) {
  RunStats s{}; for (auto& c : g_ctx) { addStats(s, c.st); s.simNs += c.st.simNs; c.st = RunStats(); }
  addStats(shm->tot, s); shm->simNs += (double)s.simNs;
  u64 f = 0; for (auto x : s.fired) f += x;
  shm->runs++; shm->bytype[p.type]++; shm->threads[std::min(p.threads, NTHREAD)]++; shm->faultyRuns += f > 0; shm->stalledRuns += s.stalls > 0;
  if (shm->nshape < shm->cap) shm->data[shm->nshape++] = r.shape;
  if (p.threads > 1 && shm->ninter < shm->cap) shm->data[shm->cap + shm->ninter++] = r.inter;
}
static std::string jesc(const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; if ((unsigned char)ch < 32) ch = ' '; r += ch; } return r; }

static int cmdRun(int prop, u64 seed0, u64 count, u64 stride, bool thorough, const char* dump, bool hashes) {
  shm = newShm(count + 1);
  const int maxFail = 24;
  std::map<std::string, int> perClass;
  while (shm->next < count && shm->nfail < maxFail) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 3; }
    if (pid == 0) {
      childSetup();
      while (shm->next < count && shm->nfail < maxFail) {
        u64 seed = seed0 + shm->next * stride; shm->seed = seed;
        Plan p = generate(prop, seed, thorough);
        Result r = runPlan(p, C(prop));
        account(p, r);
        if (hashes) { printf("H %llu %016llx %zu\n", (unsigned long long)seed, (unsigned long long)r.rhash, r.fails.size()); }
        bool bad = false; for (auto& f : r.fails) bad |= (f.tags & C(prop)) != 0;
        if (bad) { fflush(stdout); _exit(78); }
        shm->next++;
        if (shm->forkEach) break;
      }
      fflush(stdout);
      _exit(0);
    }
    int status = 0; waitpid(pid, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
    // the run with this seed failed or ended the process: does it in a fresh process?
    Shm* batch = shm; Plan p = generate(prop, batch->seed, thorough);
    bool crashed = !(WIFEXITED(status) && WEXITSTATUS(status) == 78);
    if (hashes && crashed) printf("H %llu crash %s\n", (unsigned long long)batch->seed, crashClass(status).c_str());
    if (crashed && !strcmp(batch->crash, "stuck")) { if (++batch->stuck > 3) { fprintf(stderr, "runs get stuck\n"); return 5; } }
    else {
      Iso q = isolated(p); shm = batch;
      const Failure* hit = nullptr; for (auto& f : q.fails) if (f.tags & C(prop)) { hit = &f; break; }
      if (hit) {
        int same = 0; for (int i = 0; i < shm->nfail; i++) same += hit->cls == shm->fails[i].cls;
        if (same < 4 && shm->nfail < maxFail) { auto& x = shm->fails[shm->nfail++]; x.seed = shm->seed; x.tags = hit->tags; x.op = hit->op; strncpy(x.cls, hit->cls.c_str(), sizeof x.cls - 1); strncpy(x.msg, hit->msg.c_str(), sizeof x.msg - 1); }
        else if (++shm->surplus > 40) shm->next = count;
      } else if (q.fails.empty()) { shm->forkEach = 1; shm->contaminated++; }   // state survived from an earlier run: from now on one process per run
    }
    shm->crash[0] = 0; shm->inRun = 0; shm->runs++; shm->next++;
    for (auto& c : g_ctx) c.st = RunStats();
  }
  for (int i = 0; i < shm->nfail; i++) { auto& x = shm->fails[i]; printf("FAIL {\"seed\":%llu,\"cls\":\"%s\",\"tags\":\"%s\",\"op\":%d,\"msg\":\"%s\"}\n", (unsigned long long)x.seed, jesc(x.cls).c_str(), tagStr(x.tags).c_str(), x.op, jesc(x.msg).c_str()); }
  auto& t = shm->tot;
  printf("STATS {\"runs\":%llu,\"ops\":%llu,\"sim_s\":%.6f,\"aborted_ops\":%llu,\"stalls\":%llu,\"wall_jumps\":%llu,\"advances\":%llu,\"switches\":%llu,\"shared\":%llu,\"reentrant\":%llu,\"faulty_runs\":%llu,\"stalled_runs\":%llu,\"leak_reruns\":%llu,\"contaminated\":%llu,\"fired\":{", (unsigned long long)shm->runs, (unsigned long long)t.ops, shm->simNs / 1e9, (unsigned long long)t.aborted, (unsigned long long)t.stalls, (unsigned long long)t.wjumps, (unsigned long long)t.advances, (unsigned long long)t.switches, (unsigned long long)t.shared, (unsigned long long)t.reentrant, (unsigned long long)shm->faultyRuns, (unsigned long long)shm->stalledRuns, (unsigned long long)shm->reruns, (unsigned long long)shm->contaminated);
  for (int i = 0; i < NFAULT; i++) printf("%s\"%s\":%llu", i ? "," : "", kindName[i], (unsigned long long)t.fired[i]);
  printf("},\"ops_by\":{"); bool first = true;
  for (int i = 0; i < NOPS; i++) if (t.opsBy[i]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", opName[i], (unsigned long long)t.opsBy[i], (unsigned long long)t.abortedBy[i]); first = false; }
  printf("},\"by_type\":{"); first = true;
  for (int i = 0; i < NTYPE; i++) if (shm->bytype[i]) { printf("%s\"%s\":%llu", first ? "" : ",", typeName[i], (unsigned long long)shm->bytype[i]); first = false; }
  printf("},\"threads\":["); for (int i = 0; i <= NTHREAD; i++) printf("%s%llu", i ? "," : "", (unsigned long long)shm->threads[i]);
  printf("]}\n");
  if (dump) { FILE* f = fopen(dump, "wb"); if (f) { fwrite(&shm->nshape, 8, 1, f); fwrite(&shm->ninter, 8, 1, f); fwrite(shm->data, 8, shm->nshape, f); fwrite(shm->data + shm->cap, 8, shm->ninter, f); fclose(f); } }
  return 0;
}
static void report(const Iso& r) {
  for (auto& f : r.fails) printf("FAIL {\"cls\":\"%s\",\"tags\":\"%s\",\"op\":%d,\"msg\":\"%s\"}\n", jesc(f.cls).c_str(), tagStr(f.tags).c_str(), f.op, jesc(f.msg).c_str());
  printf("HASH %016llx\n", (unsigned long long)r.rhash);
}

int main(int argc, char** argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int pe = personality(0xffffffff); if (pe != -1 && !(pe & ADDR_NO_RANDOMIZE) && personality(pe | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  std::map<std::string, std::string> a; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; size_t e = s.find('='); if (s.compare(0, 2, "--") == 0 && e != std::string::npos) a[s.substr(2, e - 2)] = s.substr(e + 1); else pos.push_back(s); }
  auto I = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
  if (pos.empty()) return 2;
  std::string cmd = pos[0];
  if (cmd == "run") return cmdRun((int)I("prop", 1), I("seed0", 1), I("count", 100), I("stride", 1), I("thorough", 0), a.count("dump") ? a["dump"].c_str() : nullptr, I("hashes", 0));
  if (cmd == "gen") { printf("%s", planText(generate((int)I("prop", 1), I("seed", 1), I("thorough", 0))).c_str()); return 0; }
  Plan p;
  if (cmd == "replay" && pos.size() > 1) {
    std::ifstream f(pos[1]); if (!planParse(f, p)) { fprintf(stderr, "cannot read the plan\n"); return 2; }
    report(isolated(p)); return 0;
  }
  if (cmd == "minimise" && pos.size() > 2) {   // minimise CLASS OUT --prop --seed
    p = generate((int)I("prop", 1), I("seed", 1), I("thorough", 0));
    Iso first = isolated(p); std::string cls = pos[1];
    if (!hasClass(first, cls)) { report(first); printf("LOST\n"); return 0; }
    Plan m = minimise(p, cls, (int)I("budget", 1500));
    Iso r1 = isolated(m), r2 = isolated(m);
    bool same = r1.rhash == r2.rhash && r1.fails.size() == r2.fails.size(); for (size_t i = 0; same && i < r1.fails.size(); i++) same = r1.fails[i].cls == r2.fails[i].cls && r1.fails[i].msg == r2.fails[i].msg;
    std::ofstream o(pos[2]); o << planText(m); o.close();
    report(r1); printf("%s\n", same ? "SAME" : "DIFFERENT"); return 0;
  }
  return 2;
}
