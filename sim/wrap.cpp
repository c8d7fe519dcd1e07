// Wrapped functions (lru/wrap.hpp) in lockstep with a model of a bounded memo.
#include "sim.hpp"
#include <lru/lru.hpp>

namespace {
struct WE;
thread_local WE* g_we = nullptr;

enum : u64 { FN_LIVE = 0x5e1f0123456789abull, FN_MOVED = 0x30fedull, FN_DEAD = 0xdeadf00dull };
struct Fn {   // one functor type for all wrappers: they must not share results
  int wid; u64 mark = FN_LIVE;
  explicit Fn(int w) : wid(w) {}
  Fn(const Fn& o) : wid(o.wid), mark(o.mark) {}
  Fn(Fn&& o) noexcept : wid(o.wid), mark(o.mark) { o.mark = FN_MOVED; }
  Fn& operator=(const Fn&) = default;
  ~Fn() { mark = FN_DEAD; }
  TVal operator()(const TKey& k) const;
  TVal operator()(const TKey& k, int b) const;
  TVal operator()(const TKey& k, int x, int y) const;
  TVal operator()() const;
};

struct Wr {
  virtual ~Wr() {}
  virtual void call(int how, int arity, TKey& k, int b, u64& out) = 0;
  virtual Wr* moved(void* mem) = 0;   // the wrapper moved to another place
  virtual size_t size() const = 0;
};
// A: what the function takes, 0: k; 1: k and b; 2: everything. arity 0: (k), 1: (k, b), 2: (k, b % 4, b / 4), 3: ()
template <class L, int A> struct WrI final : Wr {
  L l;
  explicit WrI(L&& x) : l(std::move(x)) {}
  Wr* moved(void* mem) override { return new (mem) WrI(std::move(l)); }
  size_t size() const override { return sizeof(*this); }
  void call(int how, int arity, TKey& k, int b, u64& out) override {
    auto get = [&](TVal v) { UserScope us; v.chk(); out = v.tag; };
    if constexpr (A == 2) {
      if (arity == 3) { get(l()); return; }
      if (arity == 2) { int x = b & 3, y = b >> 2; if (how == 0) get(l(k, x, y)); else if (how == 1) get(l(static_cast<const TKey&>(k), x, int(y))); else get(l(std::move(k), int(x), y)); return; }
    }
    if constexpr (A != 1) if (arity == 0) { if (how == 0) get(l(k)); else if (how == 1) get(l(static_cast<const TKey&>(k))); else get(l(std::move(k))); }
    if constexpr (A != 0) if (arity != 0) { if (how == 0) get(l(k, b)); else if (how == 1) { const int cb = b; get(l(static_cast<const TKey&>(k), cb)); } else get(l(std::move(k), int(b))); }
  }
};

struct WE final : WrapExec {
  Ctx& c; const Plan& p; Exec* ex = nullptr;
  struct W { Wr* w = nullptr; int arity = 0; bool timed = false; size_t cap = 0; std::vector<MCache> alts; } w[NWRAP];
  struct Frame { int wid, id, sp; i64 t0; bool called, returned; u64 tag; i64 tf; };
  std::vector<Frame> stack;
  int recDepth = 0, recTo = 0; i64 stall = 0; const Op* op = nullptr; bool bad = false;
  WE(Ctx& c_, const Plan& p_) : c(c_), p(p_) {}

  static int kid(int id, int arity, int b) { return arity == 3 ? 0 : arity ? id * 64 + 8 * arity + (b & 7) : id * 64; }
  static bool timedKind(int kind) { return kind >= 2; }

  template <int W> static TVal plain(const TKey& k) { return Fn(W)(k); }
  template <int W> static TVal plain2(const TKey& k, int b) { return Fn(W)(k, b); }

  // what: a functor (lvalue, rvalue), a function pointer or a std::function
  Wr* make(int kind, int what, int arity, int wid, size_t cap, i64 ttl) {
    using F0 = TVal (*)(const TKey&); using F1 = TVal (*)(const TKey&, int);
    static const F0 f0[NWRAP] = {plain<0>, plain<1>, plain<2>, plain<3>}; static const F1 f1[NWRAP] = {plain2<0>, plain2<1>, plain2<2>, plain2<3>};
    static_assert(NWRAP == 4, "");
    if (arity >= 2) what &= 1;
    switch (what) {
      case 2: return arity ? makeF<1>(kind, f1[wid], false, cap, ttl) : makeF<0>(kind, f0[wid], false, cap, ttl);
      case 3: {
        std::function<TVal(const TKey&)> g0; std::function<TVal(const TKey&, int)> g1; { UserScope us; if (arity) g1 = Fn(wid); else g0 = Fn(wid); }
        struct Free { decltype(g0)& a; decltype(g1)& b; ~Free() { UserScope us; a = nullptr; b = nullptr; } } fr{g0, g1};
        return arity ? makeF<1>(kind, g1, false, cap, ttl) : makeF<0>(kind, g0, false, cap, ttl);
      }
      default: { Fn f(wid); Wr* r = makeF<2>(kind, f, what == 1, cap, ttl); if (what == 0 && f.mark != FN_LIVE) fail(0, "wrap-moved-function", "wrapping a function given as an lvalue moved it away"); return r; }
    }
  }
  template <int A, class F> Wr* makeF(int kind, F& f, bool rvalue, size_t cap, i64 ttl) {
    std::unique_ptr<size_t> pc; std::unique_ptr<std::chrono::duration<double, std::milli>> pd; std::unique_ptr<std::chrono::milliseconds> pm;
    { UserScope us; pc.reset(new size_t(cap)); using D = std::chrono::duration<double, std::milli>; bool inf = ttl >= TTL_INF; pd.reset(new D(inf ? D::max() : D(ttl / 1e6))); pm.reset(new std::chrono::milliseconds(inf ? std::chrono::milliseconds::max() : std::chrono::milliseconds(ttl / 1000000))); }
    struct Free { decltype(pc)& a; decltype(pd)& b; decltype(pm)& d; ~Free() { UserScope us; a.reset(); b.reset(); d.reset(); } } fr{pc, pd, pm};
    auto bx = [](auto&& l) -> Wr* { UserScope us; return new WrI<std::decay_t<decltype(l)>, A>(std::move(l)); };
    switch (kind) {   // arguments are lvalues that die with this scope
      case 0: return rvalue ? bx(LRU::wrap(std::move(f))) : bx(LRU::wrap(f));
      case 1: return rvalue ? bx(LRU::wrap(std::move(f), *pc)) : bx(LRU::wrap(f, *pc));
      case 2: return bx(LRU::wrap<F, LRU::TimedCache>(f, *pd, *pc));
      case 3: return rvalue ? bx(LRU::timed_wrap(std::move(f), *pd, *pc)) : bx(LRU::timed_wrap(f, *pd, *pc));
      case 4: return bx(LRU::timed_wrap(f, *pm, *pc));
      default: return bx(LRU::timed_wrap(f, *pd));
    }
  }

  void fail(Tags t, const char* cls, const std::string& m) { if (!bad) ex->fail(T(15) | t | (c.fired ? T(5) : 0), cls, m); bad = true; }

  void dedupe(std::vector<MCache>& v) {
    std::vector<MCache> r;
    for (auto& m : v) { bool same = false; for (auto& q : r) { if (q.e.size() != m.e.size()) continue; bool eq = true; for (size_t i = 0; i < m.e.size() && eq; i++) eq = q.e[i].id == m.e[i].id && q.e[i].spell == m.e[i].spell && q.e[i].val == m.e[i].val && q.e[i].lo == m.e[i].lo; if (eq) { same = true; break; } } if (!same) r.push_back(m); }
    v.swap(r);
  }
  std::string show(const MCache& m) { std::string r = "["; for (auto& x : m.e) r += " " + std::to_string(x.id) + "=" + std::to_string(x.val); return r + " ]"; }

  // the functor runs: its result for the innermost frame was not held
  u64 onFunc(int wid, u64 mark, const TKey* kp, int arity, int b) {
    UserScope us; TKey none(0, 0); const TKey& k = kp ? *kp : none;
    if (mark != FN_LIVE) fail(0, "wrap-dead-function", mark == FN_MOVED ? "the wrapper called a function that had been moved away" : "the wrapper called a function object that had been destroyed");
    i64 tf = c.clk->shown(); int id = kid(k.id, arity, b), sp = k.spell;
    if (stack.empty()) { fail(0, "wrap-call", "the wrapped function was called outside a call of the wrapper"); return ex->fresh(); }
    Frame& f = stack.back();
    if (f.wid != wid) fail(0, "wrap-wrong-function", "calling one wrapper called the function of another");
    else if (f.id != id || f.sp != sp) fail(0, "wrap-arguments", "the wrapped function received other arguments than the wrapper");
    else if (f.called) fail(0, "wrap-called-twice", "one call of the wrapper called the wrapped function twice");
    f.called = true; W& x = w[f.wid];
    std::vector<MCache> r; const MEntry* held = nullptr;
    for (auto& m : x.alts) { int i = m.idx(f.id, f.sp); if (i >= 0 && !(x.timed && m.mayMiss(m.e[i], tf))) { held = &m.e[i]; continue; } r.push_back(m); }
    if (r.empty()) { fail(x.timed ? T(7) : 0, "wrap-recomputed", "wrapper " + std::to_string(f.wid) + " called the function for argument " + std::to_string(k.id) + " although it holds the result" + (x.timed && held ? " (stored " + std::to_string(tf - held->lo) + " ns ago)" : "") + ", memo " + show(x.alts[0])); r = x.alts; }
    x.alts = r;
    if (stall) { c.clk->add(stall); c.st.stalls++; }
    size_t me = stack.size();
    u64 inner = 0;
    if (recDepth > 0) {
      recDepth--; c.st.reentrant++;
      int to = recTo; if (w[to].w && k.id > 0) { TKey q(k.id - 1, k.spell); callIn(to, op->n % 3, q, b, inner); }
    }
    Frame& g = stack[me - 1]; g.returned = true; g.tag = ex->fresh(); g.tf = c.clk->shown();
    return g.tag;
  }

  // one call of a wrapper; runs in harness scope, exceptions pass through
  void callIn(int wid, int how, TKey& k, int b, u64& out) {
    W& x = w[wid]; int id = kid(k.id, x.arity, b), sp = x.arity == 3 ? 0 : k.spell;
    stack.push_back({wid, id, sp, c.clk->shown(), false, false, 0, 0}); size_t me = stack.size();
    try { LibScope sc(M_ALL); x.w->call(how, x.arity, k, b, out); }
    catch (...) {
      stack.resize(me); Frame f = stack.back(); stack.pop_back();
      if (!f.called) { std::vector<MCache> r = x.alts; for (auto m : x.alts) { int i = m.idx(f.id, f.sp); if (i >= 0) { m.touch(i); r.push_back(m); } } x.alts = r; dedupe(x.alts); }
      throw;
    }
    stack.resize(me); Frame f = stack.back(); stack.pop_back();
    i64 t1 = c.clk->shown();
    c.mix(f.called * 2 + 1); 
    if (f.called) {
      if (f.returned && out != f.tag) fail(0, "wrap-result", "the wrapper returned " + std::to_string(out) + ", the wrapped function " + std::to_string(f.tag));
      for (auto& m : x.alts) m.store(f.id, f.sp, f.tag, f.tf, t1);
    } else {
      std::vector<MCache> r; std::string why = "nothing is held for it";
      for (auto& m : x.alts) {
        int i = m.idx(f.id, f.sp); if (i < 0) continue;
        if (x.timed && !m.mayServe(m.e[i], f.t0)) { why = "the result is " + std::to_string(f.t0 - m.e[i].hi) + " ns old"; continue; }
        if (m.e[i].val != out) { why = "the function had returned " + std::to_string(m.e[i].val); continue; }
        r.push_back(m); r.back().touch(i);
      }
      if (r.empty()) { fail(x.timed && why.find("old") != std::string::npos ? T(6) : 0, "wrap-stale", "wrapper " + std::to_string(wid) + " returned " + std::to_string(out) + " for argument " + std::to_string(k.id) + " without calling the function, but " + why + ", memo " + show(x.alts[0])); r = x.alts; }
      x.alts = r;
    }
    dedupe(x.alts);
  }

  void run(const Op& o, Exec& e) override {
    ex = &e; op = &o; g_we = this; bad = false; stack.clear();
    int a = (unsigned)o.a % NWRAP; W& x = w[a];
    auto drop = [&] { if (!x.w) return; { LibScope sc(M_NONE); x.w->~Wr(); } Wr* q = x.w; x.w = nullptr; ::operator delete((void*)q); x.alts.clear(); };
    if (o.code == O_WDEL && (o.n & 1) && x.w) {   // not destroyed, but moved elsewhere
      void* mem = ::operator new(x.w->size()); Wr* old = x.w;
      { LibScope sc(M_NONE); x.w = old->moved(mem); old->~Wr(); }
      ::operator delete((void*)old); return;
    }
    if (o.code == O_WDEL) { drop(); return; }
    if (o.code == O_WNEW) {
      drop();
      i64 ttl = o.dt >= TTL_INF ? TTL_INF : o.dt >= 1000000 ? o.dt - o.dt % 1000000 : p.ttl; int kind = (unsigned)o.n % 6; size_t cap = (size_t)o.m; int before = c.fired;
      Wr* q = nullptr;
      try { LibScope sc(M_ALL); q = make(kind, (unsigned)o.b % 4, o.s & 3, a, cap, ttl); }
      catch (const SimFault&) {} catch (const std::bad_alloc&) {}
      catch (const std::exception& y) { fail(0, "wrap-throws", std::string("wrapping threw ") + y.what()); }
      if (!q) { if (c.fired == before) fail(0, "wrap-throws", "wrapping threw an exception"); c.st.aborted++; return; }
      x.w = q; x.arity = o.s & 3; x.timed = timedKind(kind); x.cap = kind == 0 || kind == 5 ? 128 : cap;
      MCache m; m.cap = x.cap; m.fold = 0; m.ttlLo = m.ttlHi = ttl; x.alts.assign(1, m);
      return;
    }
    if (!x.w) return;
    recDepth = o.m; recTo = (unsigned)o.b % NWRAP; stall = o.dt;
    int before = c.fired; u64 out = 0; int r = 0; std::string what;
    { TKey k(o.k, o.s & 3);
      try { callIn(a, o.n % 3, k, (o.n / 3) & 7, out); }
      catch (const SimFault&) { r = 1; } catch (const std::bad_alloc&) { r = 1; }
      catch (const std::exception& y) { r = 2; what = y.what(); } catch (...) { r = 2; } }
    bool fired = c.fired > before;
    if (r == 1 && !fired) { bad = false; fail(T(5), "spurious-exception", "an exception was thrown again without a failure"); }
    if (r == 2) { bad = false; fail(T(5), "unexpected-exception", "calling the wrapper threw " + what); }
    if (r == 0 && fired && c.firedKind != F_ALLOC) { bad = false; fail(T(5), "swallowed", std::string("an exception thrown by a ") + kindName[c.firedKind] + " call did not reach the caller"); }
    if (r) { c.st.aborted++; c.st.abortedBy[o.code]++; }
    // too many possible memos (after many failed calls): nothing is known about this wrapper any more, it goes
    for (int i = 0; i < NWRAP; i++) if (w[i].w && w[i].alts.size() > (w[i].alts[0].e.size() > 16 ? 16u : 128u)) { bool b = bad; Op d; d.code = O_WDEL; d.a = i; run(d, e); bad = b; op = &o; }
    u64 sh = 77; for (int i = 0; i < NWRAP; i++) if (w[i].w) for (auto& y : w[i].alts[0].e) sh = sh * 1000003 + y.id + i * 17 + (w[i].timed && c.clk->shown() - y.lo > w[i].alts[0].ttlLo);
    c.shape = (c.shape ^ sh) * 1099511628211ull;
    c.mix(out);
  }
  size_t live() const override {
    size_t n = 0;
    for (auto& x : w) if (x.w) { for (auto& m : x.alts) if (m.e.size() != x.alts[0].e.size()) return (size_t)-1; n += x.alts[0].e.size(); }
    return n;
  }
  void finish(Exec& e) override { ex = &e; for (int i = 0; i < NWRAP; i++) { Op o; o.code = O_WDEL; o.a = i; run(o, e); } op = nullptr; }
};

TVal Fn::operator()(const TKey& k) const { u64 t = g_we->onFunc(wid, mark, &k, 0, 0); seam(F_FUNC); return TVal(t); }
TVal Fn::operator()(const TKey& k, int b) const { u64 t = g_we->onFunc(wid, mark, &k, 1, b); seam(F_FUNC); return TVal(t); }
TVal Fn::operator()(const TKey& k, int x, int y) const { u64 t = g_we->onFunc(wid, mark, &k, 2, x + 4 * y); seam(F_FUNC); return TVal(t); }
TVal Fn::operator()() const { u64 t = g_we->onFunc(wid, mark, nullptr, 3, 0); seam(F_FUNC); return TVal(t); }
}

std::unique_ptr<WrapExec> makeWrap(Ctx& c, const Plan& p) { return std::unique_ptr<WrapExec>(new WE(c, p)); }
