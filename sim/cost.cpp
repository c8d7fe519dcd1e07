// Counts the steps (accesses to memory by the library, its containers and the user types) that operations on large caches take.
#include "exec.hpp"

namespace {
struct Lcg { u64 s; int next(int n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return n <= 0 ? 0 : (int)((s >> 33) % (u64)n); } };

// On the unchanged library: at most 270 per operation on average, 170 per entry visited, 20 per entry when the hash table grows.
constexpr i64 ONE_OP = 3000, PER_OP = 1000, PER_ENTRY = 1000, GROWTH = 60;

template <class Tr> struct CostT final : Exec {
  using CT = typename Tr::C; using K = typename Tr::K; using V = typename Tr::V;
  static constexpr bool timed = Tr::timed, inst = Tr::inst;
  CT* s[NSLOT] = {};
  int peak[NSLOT] = {};
  std::shared_ptr<LRU::Statistics<K>> stats;
  std::unique_ptr<Exec> none;
  int calls = 0;
  CostT(Ctx& c_, const Plan& p_) : Exec(c_, p_) {}
  static K mk(int id) { if constexpr (inst) return TKey(id, 0); else return id; }
  static V mv(u64 t) { if constexpr (inst) return TVal(t); else return (int)t; }
  void cloneOther(Exec&) override {}
  void onCallback(int, int, int, int, i64, int, int, u64, bool) override {}
  void finish() override { for (auto& x : s) { drop(x); } stats.reset(); }
  void drop(CT*& x) { if (!x) return; { LibScope sc(M_NONE); x->~CT(); } ::operator delete((void*)x); x = nullptr; }

  // the steps of one call; failures of the user's code end it like a normal return
  bool threw = false;
  template <class F> i64 steps(unsigned mask, F&& f) {
    c.steps = 0; c.fired = 0; memset(c.cnt, 0, sizeof c.cnt); i64 before = c.fine; threw = false;
    try { LibScope sc(mask); f(); }
    catch (const SimFault&) { threw = true; } catch (const std::bad_alloc&) { threw = true; } catch (const LRU::Error::KeyNotFound&) {} catch (const LRU::Error::KeyExpired&) {} catch (const LRU::Error::EmptyCache&) {}
    i64 n = c.fine - before; c.mix((u64)n); return n;
  }
  void check(i64 n, i64 limit, const char* what, i64 times, size_t entries) {
    static bool show = getenv("SIM_COST") != nullptr; if (show) printf("COST %s %s %lld %lld\n", opName[c.op ? c.op->code : 0], what, (long long)n, (long long)(times ? n / times : n));
    if (n > limit) fail(T(21), std::string("steps@") + what, std::to_string(times) + " calls on a cache of " + std::to_string(entries) + " entries took " + std::to_string(n) + " steps, more than " + std::to_string(limit));
  }

  void run(const Op& o) override {
    c.hook = nullptr; c.op = &o; c.fine = 0; c.st.ops++; c.st.opsBy[o.code]++; c.mix(o.code);
    Op calm; int i = o.a % NSLOT; CT* x = s[i]; Lcg g{(u64)o.k * 77 + 5};
    switch (o.code) {
      case O_ADV: c.clk->add(o.dt); c.st.advances++; break;
      case O_NEW: {
        drop(s[i]); void* mem = ::operator new(sizeof(CT)); c.op = &calm;
        { LibScope sc(M_NONE); if constexpr (timed) s[i] = new (mem) CT(Tr::ttl(p.ttl), o.m, Tr::hash(p.mod), Tr::eq(1)); else s[i] = new (mem) CT(o.m, Tr::hash(p.mod), Tr::eq(1)); }
        x = s[i]; c.op = &o; peak[i] = 0;
        fill(i, o); break;
      }
      case O_DESTROY: if (x) { size_t n = x->size() + peak[i]; i64 t = steps(M_NONE, [&] { x->~CT(); }); ::operator delete((void*)x); s[i] = nullptr; check(t, ONE_OP + PER_ENTRY * (i64)n, "destroy", 1, n); } break;
      case O_COPYC: case O_COPYA: case O_EQCMP: {
        int j = o.b % NSLOT; if (!x || i == j) break; size_t n = x->size() + (s[j] ? s[j]->size() : 0) + peak[i] + peak[j]; i64 t;
        if (o.code == O_COPYC) { drop(s[j]); void* mem = ::operator new(sizeof(CT)); CT* y = nullptr; t = steps(M_ALL, [&] { y = new (mem) CT(*x); }); if (y) s[j] = y; else ::operator delete(mem); peak[j] = peak[i]; }
        else if (!s[j]) break;
        else if (o.code == O_COPYA) { t = steps(M_ALL, [&] { *s[j] = *x; }); peak[j] = std::max(peak[i], peak[j]); }
        else { bool e = false; t = steps(M_NONE, [&] { e = *x == *s[j]; }); c.mix(e); }
        check(t, ONE_OP + PER_ENTRY * (i64)n, opName[o.code], 1, n); break;
      }
      case O_MOVEC: case O_SWAP: {
        int j = o.b % NSLOT; if (!x || i == j || !s[j]) break; size_t n = x->size() + s[j]->size();
        i64 t = steps(M_NONE, [&] { x->swap(*s[j]); }); std::swap(peak[i], peak[j]); check(t, ONE_OP + PER_ENTRY * (i64)n, "swap", 1, n); break;
      }
      case O_CLEAR: if (x) { size_t n = x->size(); i64 t = steps(M_NONE, [&] { x->clear(); }); check(t, ONE_OP + PER_ENTRY * ((i64)n + peak[i]), "clear", 1, n); } break;
      case O_SHRINK: case O_CAP: if (x) { size_t n = x->size(), to = o.n < 0 ? (size_t)p.nkeys : (size_t)o.n; i64 t = steps(M_ALL, [&] { if (o.code == O_SHRINK) x->shrink(to); else x->capacity(to); }); check(t, ONE_OP + PER_ENTRY * (i64)(n > to ? n - to : 0), opName[o.code], 1, n); } break;
      case O_CLREXP: case O_ALLEXP: if constexpr (timed) if (x) { size_t n = x->size(); i64 t = steps(o.code == O_CLREXP ? M_ALL : M_NONE, [&] { if (o.code == O_CLREXP) x->clear_expired(); else (void)x->all_expired(); }); check(t, ONE_OP + PER_ENTRY * (i64)n, opName[o.code], 1, n); } break;
      case O_INSRANGE: if (x) fill(i, o); break;
      case O_MON: if (x) { c.op = &calm; LibScope sc(M_NONE); if (!stats) stats = std::make_shared<LRU::Statistics<K>>(); x->monitor(stats); } break;
      case O_CBREG: if (x) { c.op = &calm; LibScope sc(M_NONE); int* q = &calls; x->hit_callback([q](const K&, const V&) { ++*q; }); x->miss_callback([q](const K&) { ++*q; }); } break;
      case O_WCALL: wrapped(o, g); break;
      default: if (x) batch(i, o, g);
    }
    c.op = nullptr; c.steps = 0;
    for (int q = 0; q < NSLOT; q++) if (s[q]) { c.shape = (c.shape ^ (s[q]->size() * 31 + (u64)q + (u64)(o.code * 7))) * 1099511628211ull; if (s[q]->size() > s[q]->capacity()) fail(T(1, 21), "capacity", "a cache holds more than its capacity"); }
  }
  // stores many entries at once, or one after the other
  void fill(int i, const Op& o) {
    CT& x = *s[i]; int n = o.n; size_t before = x.size(); Op calm; c.op = &calm;
    std::vector<std::pair<K, V>> v; for (int q = 0; q < n; q++) v.emplace_back(mk((o.k + q) % p.nkeys), mv(q + 1));
    i64 t = 0; peak[i] = std::max(peak[i], (int)before + n);
    switch (o.b & 3) {
      case 0: for (auto& e : v) t += steps(M_NONE, [&] { x.insert(e.first, e.second); }); break;
      case 1: t = steps(M_NONE, [&] { x.insert(v.begin(), v.end()); }); break;
      case 2: t = steps(M_NONE, [&] { x.insert(v); }); break;
      default: t = steps(M_NONE, [&] { x = v; });
    }
    c.op = &o; check(t, ONE_OP + PER_ENTRY * n + ((o.b & 3) == 3 ? PER_ENTRY * (i64)before : 0), (o.b & 3) == 0 ? "fill" : (o.b & 3) == 3 ? "assign" : "bulk-insert", n, before);
  }
  // one kind of operation on one key, again and again, on different keys; the lookups among them alternate
  void batch(int i, const Op& o, Lcg& g) {
    CT& x = *s[i]; const CT& k = x; int n = std::max(1, o.n); int span = o.m > 0 ? o.m : p.nkeys; i64 total = 0; size_t entries = x.size(); Op calm, hurt;
    auto it = x.ordered_begin(); auto un = x.unordered_begin(); typename CT::UnorderedIterator f(x.unordered_end());
    bool walk = o.code == O_TRAV && entries > 0, stores = o.code == O_INSERT || o.code == O_EMPLACE || o.code == O_EMPLACEP || o.code == O_INDEX;
    for (int q = 0; q < n; q++) {
      int id = o.b & 4 ? (o.k + q) % p.nkeys : o.code == O_INSERT && o.s == 1 ? (o.k + q) % span : g.next(span); K key = mk(id); V val = mv((u64)id + 1); i64 t = 0;
      c.op = &calm; if (!o.faults.empty() && q == o.faults[0].nth * 7 % n) { hurt = Op(); hurt.faults = {{o.faults[0].kind, q % 3}}; c.op = &hurt; }
      switch (o.code) {
        case O_CONTAINS: t = steps(M_ALL, [&] { (void)(o.s & 1 ? x.contains(key) : k.contains(key)); }); break;
        case O_FIND: t = steps(M_ALL, [&] { if (o.s & 1) (void)x.find(key); else (void)k.find(key); }); break;
        case O_LOOKUP: t = steps(M_ALL, [&] { if (o.s & 1) (void)x.lookup(key); else (void)k.lookup(key); }); break;
        case O_INDEX: t = steps(M_ALL, [&] { if (o.s & 1) (void)x[key]; else (void)k[key]; }); break;
        case O_INSERT: t = steps(M_ALL, [&] { (void)x.insert(key, val); }); break;
        case O_EMPLACE: t = steps(M_ALL, [&] { (void)x.emplace(std::move(key), std::move(val)); }); break;
        case O_EMPLACEP: { auto a = std::forward_as_tuple(key); auto b = std::forward_as_tuple(val); t = steps(M_ALL, [&] { (void)x.emplace(std::piecewise_construct, a, b); }); break; }
        case O_ERASE: t = steps(M_ALL, [&] { (void)x.erase(key); }); break;
        case O_ERASEIT: f = x.find(key); if (f != x.unordered_end()) { if (o.s & 1) t = steps(M_ALL, [&] { x.erase(f); }); else { typename CT::OrderedIterator oi(f); t = steps(M_ALL, [&] { x.erase(oi); }); } } break;
        case O_HASEXP: case O_ISVALID: if constexpr (timed) { f = x.find(key); t = steps(M_NONE, [&] { if (f == x.unordered_end()) (void)x.has_expired(key); else { (void)x.is_valid(f); (void)x.has_expired(f); } }); } break;
        case O_FRONTBACK: if constexpr (!timed) { if (x.size()) t = steps(M_NONE, [&] { (void)x.front(); (void)x.back(); }); } break;
        case O_STATQ: t = steps(M_NONE, [&] { (void)x.size(); (void)x.is_empty(); (void)x.is_full(); (void)x.space_left(); (void)x.capacity(); (void)x.is_monitoring(); }); break;
        case O_ITOP: f = x.find(key); if (f != x.unordered_end()) t = steps(M_NONE, [&] { typename CT::OrderedIterator oi(f); typename CT::UnorderedConstIterator uc(f); (void)(uc == typename CT::UnorderedConstIterator(f)); ++oi; --oi; (void)(oi == f); (void)f->key(); }); break;
        case O_TRAV: if (walk) t = o.s & 1 ? steps(M_NONE, [&] { if (un == x.unordered_end()) un = x.unordered_begin(); (void)un->key(); ++un; }) : steps(M_NONE, [&] { if (it == x.ordered_end()) it = x.ordered_begin(); (void)it->key(); ++it; }); break;
        default: break;
      }
      total += t; peak[i] = std::max(peak[i], (int)x.size());
      if (!stores && t > ONE_OP) check(t, ONE_OP, opName[o.code], 1, entries);
      if (threw) { c.st.aborted++; c.st.abortedBy[o.code]++; }
    }
    c.op = &o;
    check(total, PER_OP * n + (stores ? GROWTH * ((i64)entries + n) : 0), opName[o.code], n, entries);
  }
  // a wrapped function that holds many results
  void wrapped(const Op& o, Lcg& g) {
    int cap = std::max(1, o.m); Op calm; c.op = &calm; int* q = &calls;
    auto run = [&](auto& w, const char* what) {
      i64 t = 0; for (int j = 0; j < cap; j++) t += steps(M_NONE, [&] { w(j); });
      check(t, PER_OP * cap + GROWTH * cap, what, cap, cap);
      t = 0; for (int j = 0; j < o.n; j++) { int a = g.next(cap + cap / 4); t += steps(M_NONE, [&] { w(a); }); }
      check(t, PER_OP * o.n + GROWTH * cap, what, o.n, cap);
    };
    auto f = [q](int a) { UserScope us; ++*q; return a + 1; };
    if (o.s & 1) { auto w = LRU::timed_wrap(f, std::chrono::milliseconds(100), (size_t)cap); run(w, "timed-wrap"); }
    else { auto w = LRU::wrap(f, (size_t)cap); run(w, "wrap"); }
    c.op = &o;
  }
};
}
std::unique_ptr<Exec> makeCost(Ctx& c, const Plan& p) {
  using D = std::chrono::duration<double, std::milli>; using M = std::chrono::milliseconds;
  switch (p.type) {
    case 0: return std::unique_ptr<Exec>(new CostT<TrU<TKey, TVal, THash, TEq>>(c, p));
    case 1: return std::unique_ptr<Exec>(new CostT<TrT<D, TKey, TVal, THash, TEq>>(c, p));
    case 3: return std::unique_ptr<Exec>(new CostT<TrU<int, int, std::hash<int>, std::equal_to<int>>>(c, p));
    default: return std::unique_ptr<Exec>(new CostT<TrT<M, int, int, std::hash<int>, std::equal_to<int>>>(c, p));
  }
}
