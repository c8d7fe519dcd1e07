// Executes plans on the real caches of one type, in lockstep with the reference model.
#pragma once
#include "sim.hpp"
#include <lru/lru.hpp>

struct CbF {   // too big for std::function's local storage, so that registering allocates
  int type, id, nest, nestKey; i64 stall; i64 pad[2] = {0, 0};
  template <class K> static std::pair<int, int> kid(const K& k);
  void fire(int key, int sp, u64 val, bool hit) const {
    if (tl && tl->hook) { tl->hook->onCallback(type, id, nest, nestKey, stall, key, sp, val, hit); seam(F_CB); }
  }
};
inline std::pair<int, int> keyOf(const TKey& k) { k.chk(); return {k.id, k.spell}; }
inline std::pair<int, int> keyOf(int k) { return {k, 0}; }
template <class T> void adlSwap(T& a, T& b) { swap(a, b); }   // whichever swap belongs to the type
inline u64 tagOf(const TVal& v) { v.chk(); return v.tag; }
inline u64 tagOf(int v) { return (u64)v; }

template <class K, class V> struct HitF : CbF { void operator()(const K& k, const V& v) const { auto q = keyOf(k); fire(q.first, q.second, tagOf(v), true); } };
template <class K> struct MissF : CbF { void operator()(const K& k) const { auto q = keyOf(k); fire(q.first, q.second, 0, false); } };
template <class K> struct AccF : CbF { void operator()(const K& k, bool hit) const { auto q = keyOf(k); fire(q.first, q.second, 0, hit); } };

enum Outc { R_FINE, R_FAULT, R_KNF, R_EXP, R_EMPTY, R_INVIT, R_INVCONV, R_NOTMON, R_UNMON, R_OTHER };
static const char* const outcName[] = {"ok", "fault", "KeyNotFound", "KeyExpired", "EmptyCache", "InvalidIterator", "InvalidIteratorConversion", "NotMonitoring", "UnmonitoredKey", "other exception"};

// A forward iterator and a range whose every step is a seam.
template <class P> struct FIt {
  using iterator_category = std::forward_iterator_tag; using value_type = P; using difference_type = std::ptrdiff_t; using pointer = P*; using reference = P&;
  P* p = nullptr;
  P& operator*() const { seam(F_ITER); return *p; }
  P* operator->() const { seam(F_ITER); return p; }
  FIt& operator++() { seam(F_ITER); ++p; return *this; }
  FIt operator++(int) { FIt o = *this; ++*this; return o; }
  bool operator==(const FIt& o) const { return p == o.p; }
  bool operator!=(const FIt& o) const { seam(F_ITER); return p != o.p; }
};
// A single pass over pairs: all copies of the iterator share one position.
template <class P> struct SIt {
  using iterator_category = std::input_iterator_tag; using value_type = P; using difference_type = std::ptrdiff_t; using pointer = P*; using reference = P&;
  struct State { std::vector<P>* v; size_t pos; };
  State* st = nullptr;
  bool end() const { return !st || st->pos >= st->v->size(); }
  P& operator*() const { seam(F_ITER); return (*st->v)[st->pos]; }
  P* operator->() const { seam(F_ITER); return &(*st->v)[st->pos]; }
  SIt& operator++() { seam(F_ITER); ++st->pos; return *this; }
  void operator++(int) { ++*this; }
  bool operator==(const SIt& o) const { return end() == o.end(); }
  bool operator!=(const SIt& o) const { seam(F_ITER); return end() != o.end(); }
};
template <class P> struct FRange { std::vector<P>* v; FIt<P> begin() const { return {v->data()}; } FIt<P> end() const { return {v->data() + v->size()}; } };

template <class Tr> struct ExecT final : Exec {
  using CT = typename Tr::C; using K = typename Tr::K; using V = typename Tr::V;
  using UI = typename CT::UnorderedIterator; using UC = typename CT::UnorderedConstIterator;
  using OI = typename CT::OrderedIterator; using OC = typename CT::OrderedConstIterator;
  using Stat = LRU::Statistics<K>;
  using Pair = std::pair<K, V>;
  static constexpr bool timed = Tr::timed, inst = Tr::inst;

  struct Slot { CT* c = nullptr; MCache m; int seenId = -1, seenSp = 0; } s[NSLOT];   // seen: the key the last operation on the cache found
  struct StatSlot { std::shared_ptr<Stat> p; MStats m; };
  std::vector<StatSlot> st;
  struct Held { int slot = -1, kind = 0; bool end = false; int id = 0, sp = 0;
    std::unique_ptr<UI> u; std::unique_ptr<UC> uc; std::unique_ptr<OI> o; std::unique_ptr<OC> oc;
    void reset() { slot = -1; u.reset(); uc.reset(); o.reset(); oc.reset(); } } held[NITER];
  struct Ev { int type, id, key, sp; u64 val; bool hit; int nest = 0; i64 t0 = 0, t1 = 0; };   // types 0-2 callbacks, 3 nested begin, 4 nested end
  std::vector<Ev> log;
  struct Pend { int stat, id, sp; bool hit; };
  std::vector<Pend> pend;
  std::unique_ptr<WrapExec> wr;
  int cur = -1; bool nestedDone = false;
  bool taintStats = false;
  i64 t0 = 0, t1 = 0;
  Tags ot = 0;
  int nextCb = 1;
  const Op* op = nullptr;
  int found_ = -1;          // the current operation is a lookup that completed and found its key
  bool aborted = false;     // the current operation failed by an injected fault

  ExecT(Ctx& c_, const Plan& p_) : Exec(c_, p_) { for (int i = 0; i < NSTAT; i++) newStat(std::make_shared<Stat>()); wr = makeWrap(c_, p_); }

  // ------------------------------------------------------------ helpers
  int newStat(std::shared_ptr<Stat> q) { for (size_t i = 0; i < st.size(); i++) if (st[i].p == q) return (int)i; StatSlot x; x.p = std::move(q); x.m.alive = true; st.push_back(std::move(x)); return (int)st.size() - 1; }
  static K mk(int id, int sp) { if constexpr (inst) return TKey(id, sp); else return id; }
  static V mv(u64 t) { if constexpr (inst) return TVal(t); else return (int)t; }
  typename Tr::H hf() const { return Tr::hash(p.mod); }
  typename Tr::E ef() const { return Tr::eq(p.fold); }
  bool is(int i) const { return i >= 0 && i < NSLOT && s[i].c; }
  int fix(int sp) const { return inst ? sp : 0; }
  bool served(const MCache& m, const MEntry& e) const { return !timed || m.mayServe(e, t0); }
  bool missed(const MCache& m, const MEntry& e) const { return timed && m.mayMiss(e, t1); }

  template <class F> Outc call(unsigned mask, F&& f) {
    int before = c.fired; Outc r; std::string what;
    try { LibScope sc(mask); f(); r = R_FINE; }
    catch (const SimFault&) { r = R_FAULT; }
    catch (const std::bad_alloc& e) { r = R_FAULT; }
    catch (const LRU::Error::KeyNotFound&) { r = R_KNF; }
    catch (const LRU::Error::KeyExpired&) { r = R_EXP; }
    catch (const LRU::Error::EmptyCache&) { r = R_EMPTY; }
    catch (const LRU::Error::InvalidIterator&) { r = R_INVIT; }
    catch (const LRU::Error::InvalidIteratorConversion&) { r = R_INVCONV; }
    catch (const LRU::Error::NotMonitoring&) { r = R_NOTMON; }
    catch (const LRU::Error::UnmonitoredKey&) { r = R_UNMON; }
    catch (const std::exception& e) { r = R_OTHER; what = e.what(); }
    catch (...) { r = R_OTHER; }
    c.depth = 0;
    bool fired = c.fired > before;
    if (fired && r != R_FAULT && c.firedKind != F_ALLOC)
      fail(T(5) | ot | (c.firedKind == F_CB ? T(10) : 0), "swallowed", std::string("an exception thrown by a ") + kindName[c.firedKind] + " call did not reach the caller");
    if (r == R_FAULT && !fired) { fail(T(5) | ot, "spurious-exception", "an exception of the user's code was thrown again without a failure"); }
    if (r == R_OTHER) fail(T(5) | ot, "unexpected-exception", "unexpected exception " + what);
    if (r == R_FAULT) { aborted = true; c.st.aborted++; c.st.abortedBy[op->code]++; ot |= T(5); }
    t1 = c.clk->shown();
    c.mix(r * 31 + 7);
    return r;
  }
  void expectOnly(Outc r, std::initializer_list<Outc> ok) {
    if (r == R_FAULT || r == R_OTHER) return;
    for (Outc o : ok) if (o == r) return;
    fail(ot, std::string("result@") + opName[op->code], std::string("unexpected outcome: ") + outcName[r]);
  }

  // ------------------------------------------------------------ callbacks
  void onCallback(int type, int id, int nest, int nestKey, i64 stall, int key, int sp, u64 val, bool hit) override {
    UserScope us;
    log.push_back({type, id, key, sp, val, hit});
    c.mix(type * 7 + id * 131 + key * 17 + hit);
    if (stall) { c.clk->add(stall); c.st.stalls++; }
    if (!nest || c.depth || nestedDone || cur < 0 || !is(cur)) return;
    CT& cache = *s[cur].c;
    bool miss = type == CB_MISS || (type == CB_ACC && !hit);
    int k2 = nest == 3 ? key : nestKey, sp2 = nest == 3 ? sp : 0;
    if (nest == 3 && !miss) return;
    if (nest == 2 && !miss && (s[cur].m.cap < 2 || s[cur].m.same({key, sp, 0, 0, 0}, k2, sp2))) return;
    if (nest == 5 && !miss && s[cur].m.same({key, sp, 0, 0, 0}, k2, sp2)) return;
    nestedDone = true; c.depth = 1; c.st.reentrant++;
    Ev b{3, id, k2, sp2, 0, false, nest, c.clk->shown(), 0}; log.push_back(b);
    if (nest == 2 || nest == 3) {
      u64 tag = fresh(); log.back().val = tag;
      { K kk = mk(k2, sp2); V vv = mv(tag); bool isNew; { LibScope sc(c.mask); isNew = cache.insert(kk, vv).was_inserted(); }
        log.push_back({4, id, k2, sp2, tag, isNew, nest, b.t0, c.clk->shown()}); }
    } else {
      K kk = mk(k2, sp2); bool f; u64 v = 0;
      if (nest == 5) { LibScope sc(c.mask); f = cache.erase(kk); }
      else if (nest == 4) { LibScope sc(c.mask); f = cache.contains(kk); }
      else { LibScope sc(c.mask); auto it = cache.find(kk); f = it != cache.end(); if (f) { UserScope u2; v = tagOf(it->second); } }
      log.push_back({4, id, k2, sp2, v, f, nest, b.t0, c.clk->shown()});
    }
    c.depth = 0;
  }

  // Checks one (outer or nested) lookup against the log and updates the model.
  void lookupModel(MCache& m, int id, int sp, bool completed, bool found, bool haveVal, u64 val, i64 a, i64 b, size_t& pos, bool nested) {
    int i = m.idx(id, sp);
    if (!completed) {
      if (pos >= log.size() || log[pos].type > 2) { if (m.stat >= 0) { pend.push_back({m.stat, id, sp, true}); pend.push_back({m.stat, id, sp, false}); } return; }
      found = log[pos].hit;
    }
    if (found) {
      if (i < 0) { fail(T(3) | ot, "found-absent", "a lookup found key " + std::to_string(id) + ", which is not in the cache"); return; }
      if (timed && !m.mayServe(m.e[i], a)) fail(T(6) | ot, "served-expired", "key " + std::to_string(id) + " was served " + std::to_string(a - m.e[i].hi) + " ns after it was stored, time to live " + std::to_string(m.ttlHi) + " ns");
      if (haveVal && m.e[i].val != val) { fail(T(3) | ot, "lookup-value", "lookup of key " + std::to_string(id) + " yielded value " + std::to_string(val) + ", stored was " + std::to_string(m.e[i].val)); }
    } else if (i >= 0 && !(timed && m.mayMiss(m.e[i], b)))
      fail((timed ? T(7) : 0) | T(3) | ot, "not-found-present", "key " + std::to_string(id) + " was reported absent although it is present" + (timed ? " and alive (stored " + std::to_string(b - m.e[i].lo) + " ns ago, time to live " + std::to_string(m.ttlLo) + " ns)" : ""));
    if (found) m.touch(i);
    if (completed) {
      if (m.stat >= 0) { MStats& q = st[m.stat].m; q.acc++; if (found) q.hits++; auto it = q.keys.find({id, sp}); if (it != q.keys.end()) (found ? it->second.first : it->second.second)++; }
    } else if (m.stat >= 0) pend.push_back({m.stat, id, sp, found});
    std::vector<MCb> seq = m.cb[found ? CB_HIT : CB_MISS]; size_t nFirst = seq.size();
    seq.insert(seq.end(), m.cb[CB_ACC].begin(), m.cb[CB_ACC].end());
    for (size_t q = 0; q < seq.size(); q++) {
      int want = q >= nFirst ? CB_ACC : found ? CB_HIT : CB_MISS;
      if (pos >= log.size() || log[pos].type > 2) {
        if (completed) fail(T(10) | ot, "callback-missing", "a registered callback was not called for the lookup of key " + std::to_string(id) + " (" + (found ? "hit" : "miss") + ")");
        return;
      }
      const Ev& e = log[pos];
      int cv = m.idx(id, sp);
      if (e.type != want || e.id != seq[q].id || !m.same({e.key, e.sp, 0, 0, 0}, id, sp) || e.hit != found || (want == CB_HIT && cv >= 0 && e.val != m.e[cv].val)) {
        fail(T(10) | ot, "callback-wrong", "lookup of key " + std::to_string(id) + " (" + (found ? "hit" : "miss") + ") called callback " + std::to_string(e.id) + " of kind " + std::to_string(e.type) + " with key " + std::to_string(e.key) + " value " + std::to_string(e.val) + " outcome " + std::to_string(e.hit) + "; expected callback " + std::to_string(seq[q].id) + " of kind " + std::to_string(want));
        pos = log.size(); return;
      }
      pos++;
      if (!nested && pos < log.size() && log[pos].type == 3) {
        Ev nb = log[pos++];
        size_t endp = pos; while (endp < log.size() && log[endp].type != 4) endp++;
        bool done = endp < log.size();
        if (nb.nest == 2 || nb.nest == 3) { if (done) { m.store(nb.key, nb.sp, nb.val, nb.t0, log[endp].t1); pos = endp + 1; } else if (pos < log.size()) { fail(T(10) | ot, "callback-extra", "storing a key called callbacks"); pos = log.size(); } }
        else if (nb.nest == 5) {
          int y = m.idx(nb.key, nb.sp);
          if (done) { if (log[endp].hit != (y >= 0)) fail(T(4) | ot, "erase-result", "erase(" + std::to_string(nb.key) + ") called by a callback returned " + std::to_string(log[endp].hit)); pos = endp + 1; }
          else if (pos < log.size()) { fail(T(10) | ot, "callback-extra", "erasing a key called callbacks"); pos = log.size(); }
          if (done && y >= 0) m.e.erase(m.e.begin() + y);
        }
        else {
          lookupModel(m, nb.key, nb.sp, done, done && log[endp].hit, done && nb.nest == 1 && log[endp].hit, done ? log[endp].val : 0, nb.t0, done ? log[endp].t1 : t1, pos, true);
          if (done) { if (pos < log.size() && pos != endp) { fail(T(10) | ot, "callback-extra", "more callbacks were called than are registered"); } pos = endp + 1; }
        }
        if (!done) return;
      }
    }
  }

  // ------------------------------------------------------------ snapshots of the real state
  struct Snap { size_t cap = 0, size = 0, left = 0; bool empty = false, full = false; std::vector<MEntry> ord, rev, un; bool mon = false; int stat = -1; size_t ncb[3] = {}; bool bad = false; std::string why; };
  Snap snap(int i) {
    Snap q; CT& n = *s[i].c; const CT& k = n; LibScope sc(M_NONE);
    auto add = [&](std::vector<MEntry>& v, const K& kk, const V& vv) { UserScope us; auto x = keyOf(kk); v.push_back({x.first, x.second, tagOf(vv), 0, 0}); };
    q.cap = k.capacity(); q.size = k.size(); q.left = k.space_left(); q.empty = k.is_empty(); q.full = k.is_full();
    const size_t lim = 400;
    for (auto it = k.ordered_begin(), e = k.ordered_end(); it != e; ++it) { if (q.ord.size() >= lim) { q.bad = true; break; } add(q.ord, it->first, it->second); }
    if (!q.bad) for (auto it = k.ordered_cend(), e = k.ordered_cbegin(); it != e;) { --it; if (q.rev.size() >= lim) { q.bad = true; break; } add(q.rev, it->first, it->second); }
    for (auto it = k.unordered_begin(), e = k.unordered_end(); it != e; ++it) { if (q.un.size() >= lim) { q.bad = true; break; } add(q.un, it->first, it->second); }
    q.mon = k.is_monitoring();
    if (q.mon) { const auto& sp = k.shared_stats(); UserScope us; for (size_t j = 0; j < st.size(); j++) if (st[j].p == sp) q.stat = (int)j; if (q.stat < 0) q.stat = -2; }
    q.ncb[0] = k.hit_callbacks().size(); q.ncb[1] = k.miss_callbacks().size(); q.ncb[2] = k.access_callbacks().size();
    return q;
  }
  static std::string show(const std::vector<MEntry>& v) { std::string r = "["; for (auto& x : v) r += (r.size() > 1 ? " " : "") + std::to_string(x.id) + (x.spell ? "'" + std::to_string(x.spell) : "") + "=" + std::to_string(x.val); return r + "]"; }
  // 0: equal; else the worst difference: 1 set, 2 order, 3 values, 4 capacity
  int diff(const Snap& q, const MCache& m) const {
    auto key = [&](const MEntry& x) { return std::pair<int, int>(x.id, m.fold ? 0 : x.spell); };
    if (q.ord.size() != m.e.size()) return 1;
    std::set<std::pair<int, int>> a, b; for (auto& x : q.ord) a.insert(key(x)); for (auto& x : m.e) b.insert(key(x));
    if (a != b) return 1;
    for (size_t i = 0; i < m.e.size(); i++) if (key(q.ord[i]) != key(m.e[i])) return 2;
    for (size_t i = 0; i < m.e.size(); i++) if (q.ord[i].val != m.e[i].val) return 3;
    if (q.cap != m.cap) return 4;
    return 0;
  }
  void adopt(int i, const Snap& q, std::vector<const MCache*> from) {   // take the real state over
    MCache& m = s[i].m; std::vector<MEntry> ne;
    for (auto x : q.ord) {
      x.lo = 0; x.hi = t1;
      for (auto f : from) for (auto& y : f->e) if (y.id == x.id && y.spell == x.spell && y.val == x.val) { x.lo = y.lo; x.hi = y.hi; }
      ne.push_back(x);
    }
    m.e = ne; m.cap = q.cap; m.stat = q.stat >= 0 ? q.stat : -1;
    if (q.stat == -2) { m.stat = newStat(s[i].c->shared_stats()); taintStats = true; }
    adoptCbs(i);
    if constexpr (inst) m.fold = s[i].c->key_equal().fold;
  }
  template <class F, class L> void adoptList(std::vector<MCb>& out, const L& l) { out.clear(); for (auto& f : l) if (auto* t = f.template target<F>()) out.push_back({t->id, t->nest, t->nestKey, t->stall}); }
  void adoptCbs(int i) {
    CT& n = *s[i].c; MCache& m = s[i].m;
    adoptList<HitF<K, V>>(m.cb[0], n.hit_callbacks()); adoptList<MissF<K>>(m.cb[1], n.miss_callbacks()); adoptList<AccF<K>>(m.cb[2], n.access_callbacks());
  }

  // Compare one cache with the states the model allows, adopt the one that matches.
  void settle(int i, const std::vector<MCache>& alts, Tags tg) {
    Snap q = snap(i);
    c.mix(q.ord.size()); for (auto& x : q.ord) c.mix(x.id * 1000003u + x.val);
    if (q.bad) { fail(T(1) | tg, "endless-iteration", "iteration does not end"); s[i].m = alts[0]; return; }
    // the views agree with each other
    {
      auto rv = q.rev; std::reverse(rv.begin(), rv.end());
      auto un = q.un, os = q.ord;
      auto lt = [](const MEntry& a, const MEntry& b) { return std::tie(a.id, a.spell, a.val) < std::tie(b.id, b.spell, b.val); };
      auto eq = [](const MEntry& a, const MEntry& b) { return a.id == b.id && a.spell == b.spell && a.val == b.val; };
      std::sort(un.begin(), un.end(), lt); std::sort(os.begin(), os.end(), lt);
      std::string why;
      if (q.size > q.cap) why = "size " + std::to_string(q.size) + " exceeds the capacity " + std::to_string(q.cap);
      else if (q.size != q.ord.size()) why = "size() is " + std::to_string(q.size) + ", ordered iteration yields " + std::to_string(q.ord.size());
      else if (un.size() != os.size() || !std::equal(un.begin(), un.end(), os.begin(), eq)) why = "unordered iteration yields " + show(q.un) + ", ordered " + show(q.ord);
      else if (q.empty != (q.size == 0)) why = "is_empty() is wrong";
      else if (q.full != (q.size == q.cap)) why = "is_full() is wrong";
      else if (q.left != q.cap - q.size) why = "space_left() is " + std::to_string(q.left);
      if (!why.empty()) fail(T(1) | tg, "views", why);
      if (rv.size() != q.ord.size() || !std::equal(rv.begin(), rv.end(), q.ord.begin(), eq)) fail(T(1, 14, 2) | tg, "reverse-iteration", "backwards " + show(rv) + ", forwards " + show(q.ord));
    }
    if constexpr (!timed) if (!q.ord.empty()) {
      std::pair<int, int> f, b; { LibScope sc(M_NONE); const CT& k = *s[i].c; f = keyOf(k.front()); b = keyOf(k.back()); }
      if (f.first != q.ord.back().id || b.first != q.ord.front().id) fail(T(2) | tg, "front-back", "front() is " + std::to_string(f.first) + ", back() is " + std::to_string(b.first) + ", order " + show(q.ord));
    }
    int best = 9;
    for (auto& m : alts) {
      int d = diff(q, m);
      if (d == 0) {   // states that differ only in when an entry was stored (the same value again) are merged
        if (best) s[i].m = m;
        else for (size_t x = 0; x < m.e.size(); x++) { auto& y = s[i].m.e[x]; y.lo = std::min(y.lo, m.e[x].lo); y.hi = std::max(y.hi, m.e[x].hi); }
        best = 0; continue;
      }
      if (!best) continue;
      best = std::min(best, d == 1 ? 8 : d);
    }
    if (best) {
      int d = diff(q, alts[0]);
      Tags add = d == 1 ? 0 : d == 2 ? T(2) : d == 3 ? T(3) : T(1);
      if (d == 1) {
        switch (op->code) {
          case O_INSERT: case O_EMPLACE: case O_EMPLACEP: case O_INSRANGE: case O_CAP: case O_SHRINK: add |= T(2); break;
          default: if (q.ord.size() < alts[0].e.size()) add |= T(2);
        }
        if (q.ord.size() > alts[0].e.size()) add |= T(3);
        add |= T(3);
        if (timed && q.ord.size() < alts[0].e.size()) {   // only expired entries are missing: something other than a purge purged
          bool exp = true;
          for (auto& x : alts[0].e) { bool there = false; for (auto& y : q.ord) there |= x.id == y.id && (alts[0].fold || x.spell == y.spell); if (!there && !alts[0].mayMiss(x, t1)) exp = false; }
          if (exp) add |= T(8);
        }
      }
      static const char* dn[] = {"", "entries", "order", "values", "capacity"};
      std::string msg = "cache " + std::to_string(i) + " holds " + show(q.ord) + " capacity " + std::to_string(q.cap) + ", expected " + show(alts[0].e) + " capacity " + std::to_string(alts[0].cap);
      if (alts.size() > 1) msg += " (or one of " + std::to_string(alts.size() - 1) + " other states)";
      fail(tg | add, std::string(dn[d]) + (aborted ? "-after-failure" : "") + "@" + opName[op->code], msg);
      MCache old = s[i].m; s[i].m = alts[0]; MCache a0 = alts[0]; adopt(i, q, {&a0, &old});
    }
    MCache& m = s[i].m;
    int es = m.stat;
    if (q.stat != es) { fail(T(9) | tg, "stats-attached", "cache " + std::to_string(i) + " is attached to statistics object " + std::to_string(q.stat) + ", expected " + std::to_string(es)); m.stat = q.stat >= 0 ? q.stat : -1; if (q.stat == -2) { m.stat = newStat(s[i].c->shared_stats()); taintStats = true; } }
    if (q.ncb[0] != m.cb[0].size() || q.ncb[1] != m.cb[1].size() || q.ncb[2] != m.cb[2].size()) {
      fail(T(10) | tg, "callbacks-registered", "cache " + std::to_string(i) + " has " + std::to_string(q.ncb[0]) + "/" + std::to_string(q.ncb[1]) + "/" + std::to_string(q.ncb[2]) + " callbacks"); adoptCbs(i);
    }
    for (auto& h : held) if (h.slot == i && !h.end && m.idx(h.id, h.sp) < 0) h.reset();
    // abstract state: capacity, size, order of keys, expiry pattern, callbacks, statistics
    u64 sh = m.cap * 31 + m.e.size(); for (auto& x : m.e) sh = sh * 1000003 + x.id * 4 + (timed ? (c.clk->shown() - x.lo > m.ttlLo) * 2 : 0) + 1;
    sh = sh * 7 + (m.stat >= 0) + 2 * !m.cb[0].empty() + 4 * !m.cb[1].empty();
    c.shape = (c.shape ^ (sh + i)) * 1099511628211ull;
  }

  void checkStats() {
    for (size_t i = 0; i < st.size(); i++) {
      MStats& m = st[i].m; const Stat& r = *st[i].p; bool ok = false;
      std::vector<MStats> alts{m};
      for (auto& q : pend) if (q.stat == (int)i) {   // an aborted lookup may or may not have been counted, in the totals and for the key
        std::vector<MStats> more;
        for (auto& b : alts) for (int how = 1; how < 4; how++) { auto a = b; if (how & 1) { a.acc++; if (q.hit) a.hits++; } if (how & 2) { auto it = a.keys.find({q.id, q.sp}); if (it == a.keys.end()) continue; (q.hit ? it->second.first : it->second.second)++; } more.push_back(a); }
        alts.insert(alts.end(), more.begin(), more.end());
      }
      std::string why;
      for (auto& a : alts) {
        std::string w;
        if (r.total_accesses() != a.acc || r.total_hits() != a.hits || r.total_misses() != a.acc - a.hits)
          w = "statistics object " + std::to_string(i) + " counts " + std::to_string(r.total_accesses()) + " accesses, " + std::to_string(r.total_hits()) + " hits, " + std::to_string(r.total_misses()) + " misses; expected " + std::to_string(a.acc) + ", " + std::to_string(a.hits) + ", " + std::to_string(a.acc - a.hits);
        else if (r.number_of_monitored_keys() != a.keys.size() || r.is_monitoring_keys() != !a.keys.empty())
          w = "statistics object " + std::to_string(i) + " monitors " + std::to_string(r.number_of_monitored_keys()) + " keys; expected " + std::to_string(a.keys.size());
        else if (a.acc && (std::fabs(r.hit_rate() - (double)a.hits / a.acc) > 1e-9 || std::fabs(r.miss_rate() - (double)(a.acc - a.hits) / a.acc) > 1e-9)) w = "hit or miss rate is wrong";
        else for (auto& kk : a.keys) {
          K k = mk(kk.first.first, kk.first.second);
          if (!r.is_monitoring(k)) { w = "key not monitored"; break; }
          if (p.spells > 1) continue;
          auto& ks = r.stats_for(k);
          if (ks.hits != kk.second.first || ks.misses != kk.second.second || r.accesses_for(k) != ks.hits + ks.misses || r.hits_for(k) != ks.hits || r.misses_for(k) != ks.misses || &r[k] != &ks) { w = "statistics object " + std::to_string(i) + " counts " + std::to_string(ks.hits) + " hits, " + std::to_string(ks.misses) + " misses for key " + std::to_string(kk.first.first) + "; expected " + std::to_string(kk.second.first) + ", " + std::to_string(kk.second.second); break; }
        }
        if (w.empty()) { m = a; ok = true; break; }
        if (why.empty()) why = w;
      }
      if (!ok) {
        if (!taintStats) fail(T(9) | ot, std::string("stats@") + opName[op->code], why);
        m.acc = r.total_accesses(); m.hits = r.total_hits();
        for (auto it = m.keys.begin(); it != m.keys.end();) { K k = mk(it->first.first, it->first.second); if (!r.is_monitoring(k)) it = m.keys.erase(it); else { auto& ks = r.stats_for(k); it->second = {ks.hits, ks.misses}; ++it; } }
        taintStats = false;
      }
    }
    pend.clear();
  }

  // an iterator returned by find, insert or emplace is held like any other
  Held* keepIn(const Op& o) { int k = o.m >> 1 & 7; if (!k) return nullptr; Held& h = held[(k - 1) % NITER]; h.reset(); return &h; }
  void keepDone(Held* h, int slot, Outc r, bool end, std::pair<int, int> key) {
    if (!h) return;
    if (r != R_FINE || nestedDone) { h->reset(); return; }
    h->slot = slot; h->end = end; h->id = key.first; h->sp = key.second;
  }
  void dropHeld(int slot) { for (auto& h : held) if (h.slot == slot) h.reset(); }
  void destroy(int i) {
    if (!is(i)) return;
    dropHeld(i);
    { LibScope sc(M_NONE); s[i].c->~CT(); }
    free(s[i].c); s[i].c = nullptr; s[i].m = MCache();
  }

  template <class... A> Outc construct(int i, unsigned mask, A&&... a) {
    void* mem = malloc(sizeof(CT)); memset(mem, 0xA5, sizeof(CT));
    Outc r = call(mask, [&] {
      if constexpr (timed) {   // the time to live may be given in any unit that holds it exactly
        if (ttlUnit == 1 && ttlNs < TTL_INF) { new (mem) CT(std::chrono::nanoseconds(ttlNs), std::forward<A>(a)...); return; }
        if constexpr (sizeof...(A) == 3) {
          if (ttlUnit == 2 && ttlNs < TTL_INF && ttlNs % 1000 == 0) { new (mem) CT(std::chrono::microseconds(ttlNs / 1000), std::forward<A>(a)...); return; }
          if (ttlUnit == 3 && ttlNs < TTL_INF && ttlNs % 1000000000 == 0) { new (mem) CT(std::chrono::seconds(ttlNs / 1000000000), std::forward<A>(a)...); return; }
          if (ttlUnit == 4 && ttlNs < TTL_INF && std::chrono::treat_as_floating_point<typename Tr::D::rep>::value && std::chrono::duration_cast<typename Tr::D>(std::chrono::duration<double>(ttlNs / 1e9)) == ttlArg()) { new (mem) CT(std::chrono::duration<double>(ttlNs / 1e9), std::forward<A>(a)...); return; }
        }
        new (mem) CT(ttlArg(), std::forward<A>(a)...);
      } else new (mem) CT(std::forward<A>(a)...);
    });
    if (r == R_FINE) s[i].c = static_cast<CT*>(mem); else free(mem);
    return r;
  }
  template <class S> Outc constructFrom(int i, unsigned mask, S&& src) {
    void* mem = malloc(sizeof(CT)); memset(mem, 0xA5, sizeof(CT));
    Outc r = call(mask, [&] { new (mem) CT(std::forward<S>(src)); });
    if (r == R_FINE) s[i].c = static_cast<CT*>(mem); else free(mem);
    return r;
  }
  i64 ttlNs = 0; int ttlUnit = 0;   // the time to live of the cache under construction, and the unit it is given in
  typename Tr::D ttlArg() const { return Tr::ttl(ttlNs); }

  std::vector<Pair> pairs(const std::vector<KV>& kv, std::vector<u64>& tags, int eq = 0) {
    std::vector<Pair> v; v.reserve(kv.size());
    for (auto& x : kv) { u64 t = fresh(); if (eq) t = 1 + x.k * 4 + (eq & 1); tags.push_back(t); v.emplace_back(mk(x.k, fix(x.s)), mv(t)); }
    return v;
  }
  // pairs taken from another container: 1 2 a cache in recency order, 3 a cache by unordered iterators, 4 5 a cache as a range,
  // 6 a temporary cache, 7 8 9 a list of pairs with constant keys (lvalue, rvalue, iterators), 10 iterators that pass only once
  using LPair = std::pair<const K, V>;
  struct Source { int kind = 0; CT* src = nullptr; CT* tmp = nullptr; std::list<LPair> l; std::vector<Pair> v; typename SIt<Pair>::State st{&v, 0}; };
  bool source(const Op& o, bool assign, Source& q, std::vector<KV>& kv, std::vector<u64>& tags) {
    int kd = o.k % 11; if (kd <= 0) return false;
    if ((kd <= 6 || kd == 10) && assign) kd = 7 + (kd & 1);
    if (kd == 10) { q.v = pairs(kv, tags, o.m & 3); q.kind = kd; return true; }
    if (kd <= 6) {
      int b = (unsigned)o.b % NSLOT; if (!is(b)) return false;
      if (b == o.a) kd = 6;   // a cache inserted into itself while it is traversed: unspecified, so a copy of it
      q.src = s[b].c;
      Snap sn;
      if (kd == 6) { LibScope sc(M_NONE); q.tmp = new CT(*q.src); auto& k = *q.tmp; size_t lim = 400; for (auto it = k.unordered_begin(), e = k.unordered_end(); it != e && lim--; ++it) { UserScope us; auto x = keyOf(it->first); sn.un.push_back({x.first, x.second, tagOf(it->second), 0, 0}); } }
      else sn = snap(b);
      if (sn.bad) return false;
      kv.clear(); for (auto& e : kd < 3 ? sn.ord : sn.un) { kv.push_back({e.id, e.spell}); tags.push_back(e.val); }
    } else { for (auto& x : pairs(kv, tags, o.m & 3)) q.l.emplace_back(x.first, std::move(x.second)); }
    q.kind = kd; return true;
  }
  void sourceDone(Source& q) { if (q.tmp) { LibScope sc(M_NONE); delete q.tmp; q.tmp = nullptr; } }
  static constexpr unsigned M_ORD = M_ALL & ~((1u << F_HASH) | (1u << F_EQ));   // dereferencing an ordered iterator is noexcept
  bool unchanged(const std::vector<Pair>& v, const std::vector<KV>& kv, const std::vector<u64>& tags) {
    for (size_t i = 0; i < v.size(); i++) if (keyOf(v[i].first).first != kv[i].k || tagOf(v[i].second) != tags[i]) return false;
    return v.size() == kv.size();
  }
  // states after each prefix of a bulk insertion; n[i] = [min,max] number of new keys
  std::vector<MCache> prefixes(MCache m, const std::vector<KV>& kv, const std::vector<u64>& tags, int& lo, int& hi) {
    std::vector<MCache> r{m}; lo = hi = 0;
    for (size_t i = 0; i < kv.size(); i++) {
      int x = m.idx(kv[i].k, fix(kv[i].s)); bool exp = x >= 0 && timed && m.mayMiss(m.e[x], t1);
      if (m.store(kv[i].k, fix(kv[i].s), tags[i], t0, t1)) { lo++; hi++; } else if (exp) hi++;
      r.push_back(m);
    }
    return r;
  }

  // ------------------------------------------------------------ iterators
  // a fresh iterator to key (id, sp), or the end if absent, without a lookup
  UI itTo(int i, int id, int sp) { CT& n = *s[i].c; MCache& m = s[i].m; auto it = n.unordered_begin(); for (; it != n.unordered_end(); ++it) { auto k = keyOf(it->first); if (m.same({k.first, k.second, 0, 0, 0}, id, sp)) break; } return UI(it); }
  OI oTo(int i, int id, int sp) { CT& n = *s[i].c; MCache& m = s[i].m; auto it = n.ordered_begin(); for (; it != n.ordered_end(); ++it) { auto k = keyOf(it->first); if (m.same({k.first, k.second, 0, 0, 0}, id, sp)) break; } return OI(it); }
  std::pair<int, int> keyAt(const Op& o) {   // the key an iterator operation is about; m >= 0 picks by position
    const MCache& m = s[o.a].m;
    if (o.m >= 0 && !m.e.empty()) { auto& x = m.e[o.m % m.e.size()]; return {x.id, x.spell}; }
    return {o.k, fix(o.s)};
  }

  template <class It> void itOp(const Op& o, Held& h, It& it, bool ordered) {
    int i = h.slot; MCache& m = s[i].m; CT& n = *s[i].c; const CT& cn = n; (void)cn;
    int e = h.end ? -1 : m.idx(h.id, h.sp);
    auto wantKV = [&](std::pair<int, int> k, u64 v, const char* how) {
      if (e < 0) return;
      if (!m.same({k.first, k.second, 0, 0, 0}, h.id, h.sp) || v != m.e[e].val) fail(T(14) | ot, "iterator-entry", std::string(how) + " yields " + std::to_string(k.first) + "=" + std::to_string(v) + ", the iterator denotes " + std::to_string(h.id) + "=" + std::to_string(m.e[e].val));
    };
    switch (o.n % 14) {
      case 0: {
        if (h.end) return;
        std::pair<int, int> k; u64 v = 0;
        Outc r = call(M_ALLOC, [&] { auto& en = *it; UserScope us; k = keyOf(en.first); v = tagOf(en.second); auto q = keyOf(en.key()); u64 w = tagOf(en.value()); if (q != k || w != v) v = 0; });
        if (r == R_FAULT || r == R_OTHER || r != R_FINE) { fail(T(14, 5) | ot, "deref-throws", std::string("dereferencing an iterator threw ") + outcName[r]); return; }
        wantKV(k, v, "operator*");
        std::pair<int, int> k2; u64 v2 = 0;
        r = call(M_ALLOC, [&] { auto* q = it.operator->(); UserScope us; k2 = keyOf(q->first); v2 = tagOf(q->second); });
        if (r != R_FINE) { fail(T(14, 5) | ot, "deref-throws", std::string("operator-> threw ") + outcName[r]); return; }
        wantKV(k2, v2, "operator->");
        if (e >= 0) {   // an entry converts to, and compares like, a pair of the key and the value
          bool ok; LibScope sc(M_NONE); auto& en = *it; using VV = std::remove_reference_t<decltype(en.second)>;
          { std::optional<std::pair<K, V>> same, other; { UserScope us; same.emplace(en.first, en.second); other.emplace(en.first, mv(v + 1)); }
            ok = en == *same && !(en != *same) && *same == en && !(*same != en) && en != *other && !(en == *other) && *other != en && !(*other == en);
            std::pair<const K&, VV&> pr = en; const auto& ce = en; ok = ok && &pr.first == &en.first && &pr.second == &en.second && &ce.value() == &en.second && &ce.key() == &en.first;
            UserScope us; same.reset(); other.reset(); }
          if (!ok) fail(T(14) | ot, "entry-compare", "an entry does not compare or convert like the pair it holds");
        }
        return;
      }
      case 1: case 2: case 3: {
        std::pair<int, int> k; u64 v = 0; int how = o.n % 14;
        Outc r = call(M_ALL, [&] {
          if (how == 1) { const K& kk = it.key(); UserScope us; k = keyOf(kk); if (e >= 0) v = m.e[e].val; }
          else if (how == 2) { auto& vv = it.value(); UserScope us; v = tagOf(vv); k = {h.id, h.sp}; }
          else { auto& en = it.entry(); UserScope us; k = keyOf(en.first); v = tagOf(en.second); }
        });
        if (r == R_FAULT || r == R_OTHER) return;
        if (h.end) { expectOnlyT(r, {R_INVIT}, T(14), "checked-access-at-end"); return; }
        if (e < 0) return;
        if (r == R_FINE) { wantKV(k, v, "checked access"); if (timed && !m.mayServe(m.e[e], t0)) fail(T(14, 6) | ot, "iterator-served-expired", "checked access to an expired entry succeeded"); }
        else if (r == R_EXP && timed) { if (!m.mayMiss(m.e[e], t1)) fail(T(14, 7) | ot, "iterator-refused-live", "checked access to a live entry threw KeyExpired"); }
        else fail(T(14) | ot, "iterator-access", std::string("checked access threw ") + outcName[r]);
        return;
      }
      case 4: case 5: case 9: case 10: {
        if constexpr (std::is_same<It, OI>::value || std::is_same<It, OC>::value) {
          bool fwd = o.n % 14 == 4 || o.n % 14 == 9, post = o.n % 14 >= 9;
          int pos = h.end ? (int)m.e.size() : e; if (!h.end && e < 0) return;
          if (fwd && h.end) return;
          if (!fwd && pos == 0) return;
          std::pair<int, int> pk{-1, -1}; bool pend_ = h.end;
          call(M_NONE, [&] {
            if (!post) { if (fwd) ++it; else --it; }
            else if (fwd) { auto old = it++; UserScope us; pk = keyOf(old->first); }
            else { auto old = it--; UserScope us; if (!pend_) pk = keyOf(old->first); }
          });
          if (post && !pend_ && !m.same({pk.first, pk.second, 0, 0, 0}, h.id, h.sp)) fail(T(14) | ot, "post-increment", "post-increment or -decrement returned another position");
          int np = fwd ? pos + 1 : pos - 1;
          bool atEnd; std::pair<int, int> k{-1, -1};
          { LibScope sc(M_NONE); It en = endOf(n, it); atEnd = it == en; if (!atEnd) { UserScope us; k = keyOf(it->first); } }
          if (atEnd != (np == (int)m.e.size())) { fail(T(14) | ot, "iterator-step", "the iterator did not move to the neighbour in the recency order"); h.reset(); return; }
          if (!atEnd) { auto& x = m.e[np]; if (!m.same({k.first, k.second, 0, 0, 0}, x.id, x.spell)) { fail(T(14, 2) | ot, "iterator-step", "the iterator moved to key " + std::to_string(k.first) + ", expected " + std::to_string(x.id)); h.reset(); return; } h.id = x.id; h.sp = x.spell; }
          h.end = atEnd;
        } else {   // an unordered iterator steps through the entries in the order a fresh traversal does
          if (h.end || e < 0) return;
          bool post = o.n % 14 >= 9; std::vector<std::pair<int, int>> all;
          { LibScope sc(M_NONE); for (auto f = n.unordered_begin(); f != n.unordered_end() && all.size() < 400; ++f) { UserScope us; all.push_back(keyOf(f->first)); } }
          size_t pos = 0; while (pos < all.size() && !m.same({all[pos].first, all[pos].second, 0, 0, 0}, h.id, h.sp)) pos++;
          if (pos >= all.size()) return;
          std::pair<int, int> k{-1, -1}, pk{-1, -1}; bool atEnd = false;
          call(M_NONE, [&] { if (o.k & 1) { auto& en = *it; UserScope us; (void)keyOf(en.first); } if (!post) ++it; else { auto old = it++; UserScope us; pk = keyOf(old->first); } });
          { LibScope sc(M_NONE); It en = endOf(n, it); atEnd = it == en; if (!atEnd) { UserScope us; k = keyOf(it->first); } }
          if (post && !m.same({pk.first, pk.second, 0, 0, 0}, h.id, h.sp)) fail(T(14) | ot, "post-increment", "post-increment returned another position");
          if (atEnd != (pos + 1 == all.size()) || (!atEnd && k != all[pos + 1])) { fail(T(14) | ot, "iterator-step", "an unordered iterator did not move to the next entry of the traversal"); h.reset(); return; }
          h.end = atEnd; if (!atEnd) { h.id = k.first; h.sp = k.second; }
        }
        return;
      }
      case 12: case 13: {   // swapping and assigning iterators to different entries
        if (!h.end && e < 0) return;
        int pos = m.e.empty() || (o.k & 2) ? -1 : (int)((unsigned)o.m % m.e.size()); bool oend = pos < 0; std::pair<int, int> ok{-1, -1}; if (!oend) ok = {m.e[pos].id, m.e[pos].spell};
        auto expect = [&](It& x, bool end, std::pair<int, int> key, const char* how) {
          bool atEnd, cmp; std::pair<int, int> k{-1, -1}, k2{-1, -1}; u64 v = 0, v2 = 0;
          { LibScope sc(M_NONE); It en = endOf(n, x); atEnd = x == en; cmp = (x != en) != atEnd; if (!atEnd && !end) { UserScope us; k = keyOf(x->first); v = tagOf(x->second); k2 = keyOf((*x).key()); v2 = tagOf((*x).value()); } }
          int q = end ? -1 : m.idx(key.first, key.second);
          if (!cmp || atEnd != end) fail(T(14) | ot, "iterator-swap", std::string(how) + ": an iterator " + (end ? "should be" : "should not be") + " at the end");
          else if (!end && q >= 0 && (!m.same({k.first, k.second, 0, 0, 0}, key.first, key.second) || k != k2 || v != m.e[q].val || v2 != v)) fail(T(14) | ot, "iterator-swap", std::string(how) + ": an iterator denotes " + std::to_string(k.first) + "=" + std::to_string(v) + ", expected " + std::to_string(key.first) + "=" + std::to_string(m.e[q].val));
        };
        It other = oend ? endOf(n, it) : freshTo(i, ok, it); bool hend = h.end; std::pair<int, int> hk{h.id, h.sp};
        { LibScope sc(M_NONE); if ((o.s & 1) && !hend) { auto& q = *it; UserScope us; (void)keyOf(q.first); } if ((o.s & 2) && !oend) { auto& q = *other; UserScope us; (void)keyOf(q.first); } }
        if (o.n % 14 == 12) { call(M_NONE, [&] { if (o.k == 1) adlSwap(it, other); else if (o.k & 1) { using std::swap; swap(it, other); } else it.swap(other); }); expect(other, hend, hk, "swap"); expect(it, oend, ok, "swap"); }
        else { call(M_NONE, [&] { if (o.k & 1) { it = other; } else it = std::move(other); }); if (o.k & 1) expect(other, oend, ok, "assignment"); expect(it, oend, ok, "assignment"); }
        h.end = oend; h.id = ok.first; h.sp = ok.second;
        return;
      }
      case 6: {   // comparisons and conversions
        bool eqEnd = false, ok = true; Outc cv = R_FINE; std::string why;
        { LibScope sc(M_NONE); It en = endOf(n, it); eqEnd = (it == en); if ((it != en) == eqEnd) ok = false; It self(it); if (!(self == it) || (self != it)) ok = false; }
        if (eqEnd != h.end || !ok) fail(T(14) | ot, "iterator-compare", "comparison of an iterator with the end or itself is wrong");
        if constexpr (std::is_same<It, UI>::value || std::is_same<It, UC>::value) {
          using OX = std::conditional_t<std::is_same<It, UI>::value, OI, OC>;
          std::pair<int, int> k{-1, -1}; u64 v = 0; bool same = true, okRef = true;
          cv = call(M_ALLOC, [&] { OX ox(it); same = (ox == it) && (it == ox) && !(ox != it) && !(it != ox); UserScope us; k = keyOf(ox->first); v = tagOf(ox->second); if (e >= 0) { OX o2 = OX(oTo(i, h.id, h.sp)); okRef = o2 == ox && o2 == it; } });
          if (h.end) { if (cv != R_FAULT && cv != R_INVCONV) fail(T(14) | ot, "conversion-at-end", std::string("converting the end iterator: ") + outcName[cv]); }
          else if (cv == R_FINE) { wantKV(k, v, "converted iterator"); if (!same || !okRef) fail(T(14) | ot, "conversion-compare", "the converted ordered iterator does not compare equal"); }
          else if (cv != R_FAULT) fail(T(14) | ot, "conversion", std::string("conversion threw ") + outcName[cv]);
          bool endsEq; { LibScope sc(M_NONE); if constexpr (std::is_same<It, UI>::value) endsEq = n.ordered_end() == n.unordered_end() && n.unordered_end() == n.ordered_end(); else endsEq = cn.ordered_end() == cn.unordered_end(); }
          if (!endsEq) fail(T(14) | ot, "end-compare", "the end iterators of one cache differ");
          if (!h.end && e >= 0) { bool x; LibScope sc(M_NONE); if constexpr (std::is_same<It, UI>::value) x = n.ordered_end() == it; else x = cn.ordered_end() == it; if (x) fail(T(14) | ot, "end-compare", "an entry's iterator equals the end"); }
        }
        for (int j = 0; j < NSLOT; j++) if (j != i && is(j)) {   // iterators of different caches denote different entries
          bool x = false; CT& q = *s[j].c; const CT& cq = q; LibScope sc(M_NONE);
          if constexpr (std::is_same<It, UI>::value || std::is_same<It, OI>::value) { x = q.ordered_end() == it || !(q.ordered_end() != it); if (!s[j].m.e.empty()) x = x || q.ordered_begin() == it; }
          else { x = cq.ordered_end() == it || !(cq.ordered_end() != it); if (!s[j].m.e.empty()) x = x || cq.ordered_begin() == it; }
          if constexpr (std::is_same<It, UI>::value) { if (!h.end && !s[j].m.e.empty()) x = x || q.unordered_begin() == it; }
          if constexpr (std::is_same<It, OI>::value) { if (!s[j].m.e.empty()) x = x || it == q.unordered_begin() || !(it != q.unordered_begin()); x = x || it == q.unordered_end(); }
          if (x) fail(T(14) | ot, "foreign-compare", "an iterator compares equal to an iterator of another cache");
        }
        if constexpr (std::is_same<It, UI>::value) { if (!h.end && e >= 0) {   // converting an iterator about to go
          std::pair<int, int> k{-1, -1}; u64 v = 0;
          { LibScope sc(M_NONE); It tmp(it); if (o.k & 1) { auto& q = *tmp; UserScope us; (void)keyOf(q.first); } OI ox(std::move(tmp)); UserScope us; k = keyOf(ox->first); v = tagOf(ox->second); }
          wantKV(k, v, "an iterator converted from an rvalue");
        } }
        if (h.end || e >= 0) {   // iterators of different constness
          bool same = true, other = false; OI oi = h.end ? n.ordered_end() : oTo(i, h.id, h.sp); LibScope sc(M_NONE); OC oc(oi); UC ue(n.unordered_end());
          if constexpr (std::is_same<It, UI>::value) { UC uc(it); same = uc == it && it == uc && !(uc != it) && !(it != uc) && oc == it && it == oc && !(oc != it); other = !h.end && (it == ue || !(ue != it) || oc == n.unordered_end()); if (h.end) same = same && it == ue && n.ordered_cend() == it; }
          if constexpr (std::is_same<It, OI>::value) { same = oc == it && !(oc != it); other = !h.end && n.ordered_cend() == it; }
          if constexpr (std::is_same<It, UC>::value) { same = oc == it && it == oc; other = !h.end && (it == n.unordered_end() || n.ordered_cend() == it); }
          if (!same || other) fail(T(14) | ot, "mixed-compare", "iterators of different constness do not compare as the positions they denote");
        }
        if constexpr (std::is_same<It, UI>::value) { LibScope sc(M_NONE); UC uc(it); if (!h.end) { UserScope us; auto k = keyOf(uc->first); wantKV(k, tagOf(uc->second), "const conversion"); } }
        if constexpr (std::is_same<It, OI>::value) { LibScope sc(M_NONE); OC oc(it); if (!h.end) { UserScope us; auto k = keyOf(oc->first); wantKV(k, tagOf(oc->second), "const conversion"); } }
        return;
      }
      case 7: {   // copies
        if (h.end) return;
        std::pair<int, int> k, k2; u64 v = 0, v2 = 0;
        { LibScope sc(M_NONE); It a(it); It b; b = it; It d0(std::move(a)), d; d = std::move(d0); it = d; UserScope us; k = keyOf(b->first); v = tagOf(b->second); k2 = keyOf(d->first); v2 = tagOf(d->second); }
        wantKV(k, v, "copied iterator"); wantKV(k2, v2, "moved iterator");
        return;
      }
      case 8: case 11: {   // write through
        if constexpr (std::is_same<It, UI>::value || std::is_same<It, OI>::value) {
          if (h.end || e < 0) return;
          u64 t = fresh();
          { V nv = mv(t); V* pv = nullptr; { LibScope sc(M_NONE); pv = &(*it).second; } *pv = nv; }
          m.e[e].val = t;
        }
        (void)ordered; return;
      }
    }
  }
  void expectOnlyT(Outc r, std::initializer_list<Outc> ok, Tags tg, const char* cls) {
    if (r == R_FAULT || r == R_OTHER) return;
    for (Outc o : ok) if (o == r) return;
    fail(tg | ot, cls, std::string("outcome ") + outcName[r]);
  }
  UI freshTo(int i, std::pair<int, int> k, UI&) { return itTo(i, k.first, k.second); }
  UC freshTo(int i, std::pair<int, int> k, UC&) { return UC(itTo(i, k.first, k.second)); }
  OI freshTo(int i, std::pair<int, int> k, OI&) { return oTo(i, k.first, k.second); }
  OC freshTo(int i, std::pair<int, int> k, OC&) { return OC(oTo(i, k.first, k.second)); }
  UI endOf(CT& n, UI&) { return n.unordered_end(); }
  UC endOf(CT& n, UC&) { return n.unordered_cend(); }
  OI endOf(CT& n, OI&) { return n.ordered_end(); }
  OC endOf(CT& n, OC&) { return n.ordered_cend(); }

  // ------------------------------------------------------------ one operation
  void run(const Op& o) override {
    op = &o; ot = opTags(o.code); aborted = false; log.clear(); pend.clear(); nestedDone = false;
    c.hook = this; c.op = &o; c.fired = 0; c.depth = 0; c.steps = 0; c.fine = 0; memset(c.cnt, 0, sizeof c.cnt);
    t0 = t1 = c.clk->shown();
    c.st.ops++; c.st.opsBy[o.code]++;
    c.mix(o.code + 1000);
    cur = o.a;
    std::vector<MCache> alts[NSLOT];
    int seenId = -1, seenSp = 0; bool passive = o.code == O_NOP || o.code == O_ADV || o.code == O_ADVTO || o.code == O_WJUMP || o.code == O_FRONTBACK || o.code == O_TRAV || o.code == O_STATQ;
    if (!passive && is(o.a)) { seenId = s[o.a].seenId; seenSp = s[o.a].seenSp; s[o.a].seenId = -1; if (is(o.b)) s[o.b].seenId = -1; }
    found_ = -1; c.hashes = 0;
    exec(o, alts);
    if (inst && found_ == 1 && !nestedDone && is(o.a)) {
      int sp = fix(o.s); auto& m = s[o.a].m;
      if (o.code != O_FIND && m.same({o.k, sp, 0, 0, 0}, seenId, seenSp) && c.hashes > 0) fail(T(20), "hashed-again", std::string(opName[o.code]) + " of key " + std::to_string(o.k) + ", which the operation before had found, called the hash function " + std::to_string(c.hashes) + " times");
      s[o.a].seenId = o.k; s[o.a].seenSp = sp;
      if (o.code != O_CONTAINS) s[o.a].seenId = -1;
    }
    t1 = c.clk->shown();
    c.op = nullptr; cur = -1;
    Tags base = ot;
    for (int i = 0; i < NSLOT; i++) {
      if (!s[i].c) continue;
      bool target = !alts[i].empty();
      std::vector<MCache> one; if (!target) one.push_back(s[i].m);
      settle(i, target ? alts[i] : one, base | (target ? 0 : T(11, 12)));
    }
    checkStats();
    if (inst) {
      i64 want = 0; for (int i = 0; i < NSLOT; i++) if (s[i].c) want += s[i].m.e.size();
      size_t held = wr ? wr->live() : 0; want += (i64)held;
      if (held != (size_t)-1 && c.liveVals != want) fail(T(16) | (aborted ? T(5) : 0) | (o.code == O_WCALL || o.code == O_WDEL ? T(15) : 0), std::string("live-values@") + opName[o.code], std::to_string(c.liveVals) + " values are alive, the caches hold " + std::to_string(want)), liveFix(want);
    }
  }
  void liveFix(i64 want) { c.liveVals = want; }
  static Tags opTags(int code) {
    switch (code) {
      case O_NEW: return T(13); case O_DESTROY: return T(16);
      case O_COPYC: case O_COPYA: return T(11);
      case O_MOVEC: case O_MOVEA: case O_SWAP: return T(12);
      case O_CONTAINS: case O_FIND: case O_LOOKUP: case O_INDEX: return T(3);
      case O_INSERT: case O_EMPLACE: case O_EMPLACEP: return T(3);
      case O_INSRANGE: case O_ASSIGN: return T(13);
      case O_ERASE: case O_ERASEIT: case O_CLEAR: return T(4);
      case O_SHRINK: return T(4, 2); case O_CAP: return T(2);
      case O_HASEXP: case O_ISVALID: case O_THROWINV: case O_ALLEXP: case O_CLREXP: return T(8);
      case O_MON: case O_STOPMON: case O_STATQ: case O_SMON: case O_SUNMON: case O_SRESET: return T(9);
      case O_CBREG: case O_CBCLR: return T(10);
      case O_ITNEW: case O_ITOP: case O_TRAV: return T(14);
      case O_FRONTBACK: return T(2);
      case O_WNEW: case O_WCALL: case O_WDEL: return T(15);
    }
    return 0;
  }

  void lookupResult(int i, int id, int sp, Outc r, bool found, bool haveVal, u64 val, std::vector<MCache>& alts) {
    MCache m = s[i].m; size_t pos = 0; int x0 = m.idx(id, sp);
    bool completed = r != R_FAULT;
    c.mix(found * 3 + 1);
    lookupModel(m, id, sp, completed, found, haveVal, val, t0, t1, pos, false);
    if (completed && pos < log.size()) fail(T(10) | ot, "callback-extra", "more callbacks were called than are registered for the outcome");
    if (completed) {
      alts.push_back(m);
      int x = m.idx(id, sp);
      if (nestedDone && found && x >= 0) { m.touch(x); alts.push_back(m); }
    } else {
      alts.push_back(m);                       // touched before the failure (if the callbacks were reached)
      if (!nestedDone) { alts.push_back(s[i].m); if (x0 >= 0) { MCache q = s[i].m; q.touch(x0); alts.push_back(q); } }
      else {
        // the nested call may have touched, stored or failed: same entries, any relative order of the two keys involved
        int x = m.idx(id, sp); if (x >= 0) { MCache q = m; q.touch(x); alts.push_back(q); }
        for (auto& e : log) if (e.type == 3) { MCache q = m; int y = q.idx(e.key, e.sp); if (y >= 0) { q.touch(y); alts.push_back(q); } MCache w = q; int z = w.idx(id, sp); if (z >= 0) { w.touch(z); alts.push_back(w); } }
      }
    }
  }

  void exec(const Op& o, std::vector<MCache>* alts) {
    int a = o.a; int id = o.k, sp = fix(o.s);
    bool useA = is(a);
    switch (o.code) {
      case O_NOP: return;
      case O_ADV: c.clk->add(o.dt); c.st.advances++; return;
      case O_WJUMP: c.clk->wall += o.dt; c.st.wjumps++; return;
      case O_ADVTO: {   // to the deadline of an entry, plus a little
        if (!useA) { return; }
        int x = s[a].m.idx(id, sp); i64 target = 0;
        if (x >= 0 && s[a].m.ttlLo < TTL_INF) target = (o.n ? s[a].m.e[x].hi : s[a].m.e[x].lo) + s[a].m.ttlLo + o.dt;
        if (target > c.clk->mono) c.clk->add(target - c.clk->mono); else c.clk->add(std::abs(o.dt) % 1000);
        c.st.advances++; return;
      }
      case O_NEW: return opNew(o, alts);
      case O_DESTROY: destroy(a); return;
      case O_COPYC: case O_MOVEC: {
        int b = o.b; if (!useA || a == b || b < 0 || b >= NSLOT) return;
        destroy(b);
        Outc r;
        if (o.code == O_COPYC) r = (o.n & 1) ? constructFrom(b, M_ALL, *s[a].c) : constructFrom(b, M_ALL, static_cast<const CT&>(*s[a].c));
        else { dropHeld(a); r = constructFrom(b, M_ALLOC, std::move(*s[a].c)); }
        MCache src = s[a].m;
        alts[a].push_back(src);
        if (r == R_FINE) {
          s[b].m = src; alts[b].push_back(src);
          if (o.code == O_MOVEC) { alts[a].clear(); movedFrom(a, {src}); alts[a].push_back(s[a].m); }
        } else if (r != R_FAULT) fail(ot, "copy-throws", outcName[r]);
        return;
      }
      case O_COPYA: {
        int b = o.b; if (!useA || !is(b)) return;   // b = a
        if (a != b) dropHeld(b);
        Outc r = call(M_ALL, [&] { if (o.n & 1) *s[b].c = *s[a].c; else *s[b].c = static_cast<const CT&>(*s[a].c); });
        alts[a].push_back(s[a].m);
        if (a != b) { if (r == R_FINE) alts[b].push_back(s[a].m); else alts[b].push_back(s[b].m); }
        return;
      }
      case O_MOVEA: {
        int b = o.b; if (!useA || !is(b) || a == b) return;
        dropHeld(a); dropHeld(b);
        MCache src = s[a].m, dst = s[b].m;
        call(M_NONE, [&] { *s[b].c = std::move(*s[a].c); });
        s[b].m = src; alts[b].push_back(src);
        movedFrom(a, {src, dst}); alts[a].push_back(s[a].m);
        return;
      }
      case O_SWAP: {
        int b = o.b; if (!useA || !is(b) || a == b) return;
        dropHeld(a); dropHeld(b);
        call(M_NONE, [&] { if (o.n % 3 == 0) s[a].c->swap(*s[b].c); else if (o.n == 4) adlSwap(*s[a].c, *s[b].c); else if (o.n % 3 == 1) { using std::swap; swap(*s[a].c, *s[b].c); } else std::swap(*s[a].c, *s[b].c); });
        std::swap(s[a].m, s[b].m);
        alts[a].push_back(s[a].m); alts[b].push_back(s[b].m);
        return;
      }
      case O_CONTAINS: case O_FIND: case O_LOOKUP: case O_INDEX: {
        if (!useA) return;
        bool isConst = o.n & 1, found = false, haveVal = false; u64 val = 0; std::pair<int, int> fk{-1, -1}; V* ref = nullptr;
        Outc r; Held* keep = o.code == O_FIND ? keepIn(o) : nullptr;
        {
          K k0 = mk(id, sp); CT& n = *s[a].c; const CT& cn = n;
          // the key may be the one the cache itself holds (unless a callback could evict it meanwhile)
          const K* own = nullptr; bool nests = false; for (auto& l : s[a].m.cb) for (auto& q : l) nests |= q.nest != 0;
          if ((o.b & 1) && !nests) { for (auto it = n.ordered_begin(); it != n.ordered_end(); ++it) { auto q = keyOf(it->first); if (q.first == id && (!inst || q.second == sp)) own = &it->first; } }
          const K& k = own ? *own : k0;
          r = call(M_ALL, [&] {
            if (o.code == O_CONTAINS) found = cn.contains(k);
            else if (o.code == O_FIND) {
              if (isConst) { auto it = cn.find(k); if (keep) { UserScope us; keep->uc.reset(new UC(it)); keep->kind = 1; } if (it != cn.end()) { found = true; UserScope us; fk = keyOf(it->first); val = tagOf(it->second); } }
              else { auto it = n.find(k); if (keep) { UserScope us; keep->u.reset(new UI(it)); keep->kind = 0; } if (it != n.end()) { found = true; UserScope us; fk = keyOf(it->first); val = tagOf(it->second); ref = &it->second; } }
              haveVal = found;
            } else {
              const V* q;
              if (o.code == O_LOOKUP) { if (isConst) q = &cn.lookup(k); else q = ref = &n.lookup(k); }
              else { if (isConst) q = &cn[k]; else q = ref = &n[k]; }
              UserScope us; found = haveVal = true; val = tagOf(*q);
            }
          });
        }
        if (r == R_KNF || (r == R_EXP && timed)) {
          if (o.code == O_CONTAINS || o.code == O_FIND) fail(ot, "lookup-throws", std::string(opName[o.code]) + " threw " + outcName[r]);
          found = false;
        } else if (r != R_FINE && r != R_FAULT) fail(ot, "lookup-throws", std::string(opName[o.code]) + " threw " + outcName[r]);
        if (found && o.code == O_FIND && !s[a].m.same({fk.first, fk.second, 0, 0, 0}, id, sp)) fail(T(3) | ot, "lookup-key", "find(" + std::to_string(id) + ") returned an iterator to key " + std::to_string(fk.first));
        if (r == R_FAULT) found = false;
        found_ = r == R_FINE && found;
        keepDone(keep, a, r, !found, fk);
        lookupResult(a, id, sp, r, found, haveVal, val, alts[a]);
        if (o.code == O_CONTAINS && o.m >= 300 && o.stalls.empty() && r == R_FINE && p.tick == 0 && p.threads <= 1 && s[a].m.cb[0].empty() && s[a].m.cb[1].empty() && s[a].m.cb[2].empty()) {
          // the same lookup many times over: counters must not wrap around
          K k = mk(id, sp); const CT& cn = *s[a].c; int hits = 0;
          { LibScope sc(M_NONE); for (int q = 0; q < o.m; q++) { c.steps = 0; hits += cn.contains(k); } }
          if (hits != (found ? o.m : 0)) fail(T(3) | ot, "lookup-differs", "of " + std::to_string(o.m) + " further lookups " + std::to_string(hits) + " found key " + std::to_string(id));
          if (s[a].m.stat >= 0) { MStats& q = st[s[a].m.stat].m; q.acc += o.m; if (found) q.hits += o.m; auto it = q.keys.find({id, sp}); if (it != q.keys.end()) (found ? it->second.first : it->second.second) += o.m; }
        }
        if (ref && r == R_FINE && (o.m & 1) && !nestedDone) { u64 t = fresh(); { V nv = mv(t); *ref = nv; } for (auto& m : alts[a]) { int x = m.idx(id, sp); if (x >= 0) m.e[x].val = t; } }
        return;
      }
      case O_INSERT: case O_EMPLACE: case O_EMPLACEP: {
        if (!useA) return;
        CT& n = *s[a].c; u64 tag = fresh(); if (o.dt > 0) tag = (u64)o.dt; bool isNew = false, atEnd = false; std::pair<int, int> k1{-1, -1}; u64 v1 = 0; V* ref = nullptr;
        Held* keep = keepIn(o);
        auto look = [&](const auto& res) {
          isNew = res.was_inserted();
          auto it = res.iterator(); atEnd = it == n.end();
          UserScope us; if (keep) { keep->u.reset(new UI(it)); keep->kind = 0; } if (isNew != (bool)res || isNew != res.first) isNew = !isNew;
          if (!atEnd) { k1 = keyOf(it->first); v1 = tagOf(it->second); ref = &it->second; }
        };
        Outc r;
        if (o.code == O_INSERT) {
          const V* alias = nullptr; const K* ka = nullptr;
          if (o.n & 1) { for (auto it = n.ordered_begin(); it != n.ordered_end(); ++it) { auto q = keyOf(it->first); if (q.first == o.b) { alias = &it->second; tag = tagOf(*alias); } if ((o.n & 2) && s[a].m.same({q.first, q.second, 0, 0, 0}, id, sp)) ka = &it->first; } }
          if (alias || ka) { K k = mk(id, sp); V v = mv(tag); const V& vr = alias ? *alias : v; const K& kr = ka ? *ka : k; r = call(M_ALL, [&] { look(n.insert(kr, vr)); }); }
          else { K k = mk(id, sp); V v = mv(tag); r = call(M_ALL, [&] { look(n.insert(k, v)); }); }
        } else if (o.code == O_EMPLACE) {
          int var = o.n % 3;
          if (var == 0) { K k = mk(id, sp); V v = mv(tag); r = call(M_ALL, [&] { look(n.emplace(k, v)); }); }
          else if (var == 1) { K k = mk(id, sp); V v = mv(tag); r = call(M_ALL, [&] { look(n.emplace(std::move(k), std::move(v))); }); }
          else { if constexpr (inst) { int code = id | sp << 16; r = call(M_ALL, [&] { look(n.emplace(code, tag)); }); } else { int t = (int)tag; r = call(M_ALL, [&] { look(n.emplace(id, t)); }); } }
        } else {
          if constexpr (inst) r = call(M_ALL, [&] { look(n.emplace(std::piecewise_construct, std::forward_as_tuple(id, sp), std::forward_as_tuple(tag, 0))); });
          else { int t = (int)tag; r = call(M_ALL, [&] { look(n.emplace(std::piecewise_construct, std::forward_as_tuple(id), std::forward_as_tuple(t))); }); }
        }
        keepDone(keep, a, r, atEnd, k1);
        if (r == R_FAULT) { alts[a].push_back(s[a].m); return; }
        expectOnly(r, {R_FINE});
        MCache m = s[a].m; int x = m.idx(id, sp); bool exp = x >= 0 && timed && m.mayMiss(m.e[x], t1);
        bool wantNew = m.store(id, sp, tag, t0, t1);
        if (r == R_FINE) {
          if (isNew != wantNew && !exp) fail(T(3) | ot, "insert-result", "was_inserted() is " + std::to_string(isNew) + ", expected " + std::to_string(wantNew));
          if (atEnd != (m.cap == 0)) fail(T(3) | ot, "insert-result", atEnd ? "the end iterator was returned for a stored entry" : "an entry iterator was returned with capacity zero");
          else if (!atEnd && (!m.same({k1.first, k1.second, 0, 0, 0}, id, sp) || v1 != tag)) fail(T(3) | ot, "insert-result", "the returned iterator denotes " + std::to_string(k1.first) + "=" + std::to_string(v1));
          if ((o.m & 1) && ref && s[a].m.cap) { u64 t = fresh(); { V nv = mv(t); *ref = nv; } int y = m.idx(id, sp); if (y >= 0) m.e[y].val = t; }
        }
        alts[a].push_back(m);
        return;
      }
      case O_INSRANGE: case O_ASSIGN: return opBulk(o, alts);
      case O_ERASE: {
        if (!useA) return;
        CT& n = *s[a].c; bool res = false; const K* self = nullptr;
        if (o.n & 1) { auto kk = keyAt(o); id = kk.first; sp = kk.second; for (auto it = n.ordered_begin(); it != n.ordered_end(); ++it) { auto q = keyOf(it->first); if (s[a].m.same({q.first, q.second, 0, 0, 0}, id, sp)) self = &it->first; } }
        int x = s[a].m.idx(id, sp);
        Outc r;
        { K k = mk(id, sp); const K& kr = self ? *self : k; r = call(M_ALL, [&] { res = n.erase(kr); }); }
        MCache m = s[a].m;
        if (r != R_FAULT) { expectOnly(r, {R_FINE}); if (r == R_FINE && res != (x >= 0)) fail(T(4) | ot, "erase-result", "erase returned " + std::to_string(res) + " for a key that was " + (x >= 0 ? "present" : "absent")); if (x >= 0) m.e.erase(m.e.begin() + x); }
        alts[a].push_back(m);
        return;
      }
      case O_ERASEIT: {
        if (!useA) return;
        CT& n = *s[a].c; auto kk = keyAt(o); int x = s[a].m.idx(kk.first, kk.second); if (o.n & 8) x = -1;
        Held* h = nullptr; if (o.n & 16) { Held& q = held[o.b % NITER]; if (q.slot == a && !q.end) { h = &q; x = s[a].m.idx(q.id, q.sp); } }
        Outc r;
        if (h) {
          r = call(M_ALL, [&] { if (h->kind == 0) n.erase(*h->u); else if (h->kind == 1) n.erase(*h->uc); else if (h->kind == 2) n.erase(*h->o); else n.erase(*h->oc); });
        } else if (o.n & 1) { OI it = x >= 0 ? oTo(a, kk.first, kk.second) : n.ordered_end(); if (o.n & 2) { OC oc(it); r = call(M_ALL, [&] { n.erase(oc); }); } else r = call(M_ALL, [&] { n.erase(it); }); }
        else { UI it = x >= 0 ? itTo(a, kk.first, kk.second) : n.unordered_end(); if (o.n & 2) { UC uc(it); r = call(M_ALL, [&] { n.erase(uc); }); } else r = call(M_ALL, [&] { n.erase(it); }); }
        MCache m = s[a].m;
        if (r != R_FAULT) {
          if (x < 0) expectOnlyT(r, {R_INVIT}, T(4), "erase-end");
          else { expectOnlyT(r, {R_FINE}, T(4), "erase-iterator"); if (r == R_FINE) m.e.erase(m.e.begin() + x); }
        }
        alts[a].push_back(m);
        return;
      }
      case O_CLEAR: {
        if (!useA) return;
        Outc r = call(M_ALL, [&] { s[a].c->clear(); });
        MCache m = s[a].m; expectOnly(r, {R_FINE});
        if (r == R_FAULT) { alts[a].push_back(m); alts[a].push_back(remaining(a)); }
        m.e.clear(); alts[a].push_back(m); return;
      }
      case O_SHRINK: case O_CAP: {
        if (!useA) return;
        size_t to = (size_t)o.n;
        Outc r = call(M_ALL, [&] { if (o.code == O_CAP) s[a].c->capacity(to); else s[a].c->shrink(to); });
        expectOnly(r, {R_FINE});
        MCache m = s[a].m;
        if (r == R_FAULT) { alts[a].push_back(m); while (m.e.size() > to) { m.e.erase(m.e.begin()); alts[a].push_back(m); } if (o.code == O_CAP) { m.cap = to; alts[a].push_back(m); } return; }
        while (m.e.size() > to) m.e.erase(m.e.begin());
        if (o.code == O_CAP) m.cap = to;
        alts[a].push_back(m); return;
      }
      case O_HASEXP: case O_ISVALID: case O_THROWINV: return opExpiry(o, alts);
      case O_ALLEXP: case O_CLREXP: {
        if constexpr (timed) {
          if (!useA) return;
          CT& n = *s[a].c; MCache m = s[a].m;
          if (o.code == O_ALLEXP) {
            bool res = false; Outc r = call(M_ALL, [&] { res = static_cast<const CT&>(n).all_expired(); });
            expectOnly(r, {R_FINE});
            if (r == R_FINE) {
              bool mustTrue = true, mustFalse = false;
              for (auto& e : m.e) { if (m.mayServe(e, t0)) mustTrue = false; if (!m.mayMiss(e, t1)) mustFalse = true; }
              if ((res && mustFalse) || (!res && mustTrue)) fail(T(8), "all-expired", std::string("all_expired() is ") + (res ? "true although an entry is alive" : "false although every entry has expired"));
            }
            alts[a].push_back(m); return;
          }
          size_t cnt = 0; Outc r = call(M_ALL, [&] { cnt = n.clear_expired(); });
          expectOnly(r, {R_FINE});
          // which entries are gone must be among those that may have expired; all that must have expired are gone
          Snap q = snap(a); MCache got = m; got.e.clear(); bool bad = false;
          auto has = [&](const MEntry& e) { for (auto& x : q.ord) if (m.same(x, e.id, e.spell)) return true; return false; };
          size_t gone = 0;
          for (auto& e : m.e) {
            bool h = has(e);
            if (h) { got.e.push_back(e); if (r == R_FINE && !m.mayServe(e, t0)) { fail(T(8), "purge-kept-expired", "clear_expired() kept key " + std::to_string(e.id) + ", which has expired"); bad = true; } }
            else { gone++; if (!m.mayMiss(e, t1)) { fail(T(8, 7), "purge-removed-live", "clear_expired() removed key " + std::to_string(e.id) + ", which is alive"); bad = true; } }
          }
          if (r == R_FINE && cnt != gone && !bad) fail(T(8), "purge-count", "clear_expired() returned " + std::to_string(cnt) + ", removed " + std::to_string(gone));
          alts[a].push_back(got);
        }
        return;
      }
      case O_MON: return opMon(o, alts);
      case O_STOPMON: { if (!useA) return; call(M_ALL, [&] { s[a].c->stop_monitoring(); }); s[a].m.stat = aborted ? s[a].m.stat : -1; return; }
      case O_STATQ: {
        if (!useA) return;
        CT& n = *s[a].c; const CT& cn = n; const void* q = nullptr; bool mon = s[a].m.stat >= 0;
        Outc r = call(M_ALL, [&] { q = (o.n & 1) ? (const void*)&cn.stats() : (const void*)&n.stats(); });
        if (r != R_FAULT) { if (mon) { expectOnly(r, {R_FINE}); if (r == R_FINE && q != st[s[a].m.stat].p.get()) fail(T(9), "stats-object", "stats() returned another object"); } else expectOnly(r, {R_NOTMON}); }
        if (mon) { auto& x = st[s[a].m.stat]; bool km = x.m.keys.count({id, sp}); K k = mk(id, sp); r = call(M_ALL, [&] { if (o.m & 1) x.p->hits_for(k); else (*x.p)[k]; }); if (r != R_FAULT) expectOnly(r, {km ? R_FINE : R_UNMON}); }
        return;
      }
      case O_SMON: case O_SUNMON: case O_SRESET: {
        StatSlot& x = st[(unsigned)o.b % st.size()]; Outc r; K k = mk(id, sp); bool km = x.m.keys.count({id, sp});
        if (o.code == O_SMON) { r = call(M_ALL, [&] { x.p->monitor(k); }); expectOnly(r, {R_FINE}); if (r == R_FINE) x.m.keys.emplace(std::make_pair(id, sp), std::make_pair(0, 0)); }
        else if (o.n & 1) { if (o.code == O_SUNMON) { r = call(M_ALL, [&] { x.p->unmonitor_all(); }); if (r == R_FINE) x.m.keys.clear(); } else { r = call(M_ALL, [&] { x.p->reset_all(); }); if (r == R_FINE) for (auto& q : x.m.keys) q.second = {0, 0}; } expectOnly(r, {R_FINE}); }
        else if (o.code == O_SUNMON) { r = call(M_ALL, [&] { x.p->unmonitor(k); }); if (r != R_FAULT) expectOnly(r, {km ? R_FINE : R_UNMON}); if (r == R_FINE) x.m.keys.erase({id, sp}); }
        else { r = call(M_ALL, [&] { x.p->reset_key(k); }); if (r != R_FAULT) expectOnly(r, {km ? R_FINE : R_UNMON}); if (r == R_FINE && km) x.m.keys[{id, sp}] = {0, 0}; }
        return;
      }
      case O_CBREG: {
        if (!useA) return;
        CT& n = *s[a].c; int type = o.n % 3, var = o.m % 3; CbF f{type, nextCb++, o.b, o.k, o.dt}; Outc r = R_FINE;
        if (type == CB_HIT) { HitF<K, V> q; static_cast<CbF&>(q) = f; r = reg<std::function<void(const K&, const V&)>>(var, q, [&](auto&& g) { n.hit_callback(std::forward<decltype(g)>(g)); }); }
        else if (type == CB_MISS) { MissF<K> q; static_cast<CbF&>(q) = f; r = reg<std::function<void(const K&)>>(var, q, [&](auto&& g) { n.miss_callback(std::forward<decltype(g)>(g)); }); }
        else { AccF<K> q; static_cast<CbF&>(q) = f; r = reg<std::function<void(const K&, bool)>>(var, q, [&](auto&& g) { n.access_callback(std::forward<decltype(g)>(g)); }); }
        if (r == R_FINE) s[a].m.cb[type].push_back({f.id, f.nest, f.nestKey, f.stall});
        expectOnly(r, {R_FINE});
        return;
      }
      case O_CBCLR: {
        if (!useA) return;
        CT& n = *s[a].c; MCache& m = s[a].m;
        call(M_ALL, [&] { switch (o.n % 4) { case 0: n.clear_hit_callbacks(); break; case 1: n.clear_miss_callbacks(); break; case 2: n.clear_access_callbacks(); break; default: n.clear_all_callbacks(); } });
        if (o.n % 4 == 3) for (auto& q : m.cb) q.clear(); else m.cb[o.n % 4].clear();
        return;
      }
      case O_ITNEW: {
        if (!useA) return;
        CT& n = *s[a].c; const CT& cn = n; Held& h = held[o.b % NITER]; h.reset();
        auto kk = keyAt(o); int x = s[a].m.idx(kk.first, kk.second); bool end = (o.s & 2) || x < 0;
        { LibScope sc(M_NONE); int kind = o.n % 4;
          UserScope us;
          if (kind == 0) h.u.reset(new UI(end ? n.unordered_end() : itTo(a, kk.first, kk.second)));
          else if (kind == 1) h.uc.reset(end ? new UC(cn.unordered_end()) : new UC(itTo(a, kk.first, kk.second)));
          else if (kind == 2) { if (end) h.o.reset(new OI(n.ordered_end())); else if (o.dt & 1) h.o.reset(new OI(itTo(a, kk.first, kk.second))); else h.o.reset(new OI(oTo(a, kk.first, kk.second))); }
          else { if (end) h.oc.reset(new OC(cn.ordered_end())); else if (o.dt & 1) { UC uc(itTo(a, kk.first, kk.second)); h.oc.reset(new OC(uc)); } else h.oc.reset(new OC(oTo(a, kk.first, kk.second))); }
          h.kind = kind; }
        h.slot = a; h.end = end; if (!end) { h.id = s[a].m.e[x].id; h.sp = s[a].m.e[x].spell; }
        return;
      }
      case O_ITOP: {
        Held& h = held[o.b % NITER]; if (h.slot < 0 || !is(h.slot)) return;
        cur = h.slot;
        if (h.kind == 0) itOp(o, h, *h.u, false); else if (h.kind == 1) itOp(o, h, *h.uc, false); else if (h.kind == 2) itOp(o, h, *h.o, true); else itOp(o, h, *h.oc, true);
        return;
      }
      case O_TRAV: {
        if (!useA) return;
        CT& n = *s[a].c; const MCache& m = s[a].m; std::vector<MEntry> v; auto add = [&](const K& k, const V& val) { UserScope us; auto x = keyOf(k); v.push_back({x.first, x.second, tagOf(val), 0, 0}); };
        size_t lim = 400; bool ordered = true;
        call(M_NONE, [&] {
          switch (o.n % 6) {
            case 0: for (auto it = n.ordered_begin(); it != n.ordered_end() && v.size() < lim; ++it) add(it->first, it->second); break;
            case 1: for (auto it = n.ordered_begin(); it != n.ordered_end() && v.size() < lim;) { auto old = it++; add(old->first, old->second); } break;
            case 2: { auto it = n.ordered_end(); while (it != n.ordered_begin() && v.size() < lim) { --it; add((*it).first, (*it).second); } std::reverse(v.begin(), v.end()); break; }
            case 3: ordered = false; for (auto& q : n) { if (v.size() >= lim) break; add(q.first, q.second); } break;
            case 4: ordered = false; for (auto it = n.unordered_begin(); it != n.unordered_end() && v.size() < lim;) { auto old = it++; add(old->first, old->second); } break;
            default: ordered = false; { const CT& cn = n; for (auto& q : cn) { if (v.size() >= lim) break; add(q.key(), q.value()); } }
          }
        });
        auto key = [&](const MEntry& x) { return std::make_tuple(x.id, m.fold ? 0 : x.spell, x.val); };
        std::vector<std::tuple<int, int, u64>> got, want; for (auto& x : v) got.push_back(key(x)); for (auto& x : m.e) want.push_back(key(x));
        if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); }
        if (got != want) fail(T(14) | ot, "traversal", "a traversal yields " + show(v) + ", the cache holds " + show(m.e));
        return;
      }
      case O_EQCMP: {
        int b = o.b; if (!useA || !is(b)) return;
        const CT& x = *s[a].c; const CT& y = *s[b].c; bool eq = false, ne = false, eq2 = false;
        if constexpr (inst) if (x.hash_function().mod != y.hash_function().mod || x.key_equal().fold != y.key_equal().fold) return;   // as for the standard containers
        call(M_NONE, [&] { eq = x == y; ne = x != y; eq2 = y == x; });
        const MCache &m = s[a].m, &q = s[b].m; bool same = m.e.size() == q.e.size(), exact = same && m.ttlLo == q.ttlLo && m.ttlHi == q.ttlHi;
        for (size_t i = 0; same && i < m.e.size(); i++) {
          auto &u = m.e[i], &v = q.e[i];
          if (u.id != v.id || u.val != v.val || (!m.fold && u.spell != v.spell)) same = false;
          if (u.spell != v.spell || (timed && a != b && !(u.lo == u.hi && v.lo == v.hi && u.lo == v.lo))) exact = false;
        }
        c.mix(eq * 2 + ne);
        std::string what = show(m.e) + " and " + show(q.e);
        if (eq == ne) fail(T(18), "eq-ne", "operator== and operator!= agree for " + what);
        if (eq != eq2) fail(T(18), "eq-asymmetric", "operator== is not symmetric for " + what);
        if (eq && !same) fail(T(18), "eq-different", "caches compare equal that hold " + what);
        if (!eq && same && exact) fail(T(18) | (a == b ? 0 : T(11)), "ne-same", "caches compare unequal that hold " + what);
        return;
      }
      case O_FRONTBACK: {
        if constexpr (!timed) {
          if (!useA) return;
          std::pair<int, int> k{-1, -1}; const CT& n = *s[a].c; const MCache& m = s[a].m;
          Outc r = call(M_ALL, [&] { const K& q = (o.n & 1) ? n.back() : n.front(); UserScope us; k = keyOf(q); });
          if (r == R_FAULT) return;
          if (m.e.empty()) { expectOnly(r, {R_EMPTY}); return; }
          expectOnly(r, {R_FINE});
          auto& e = (o.n & 1) ? m.e.front() : m.e.back();
          if (r == R_FINE && !m.same({k.first, k.second, 0, 0, 0}, e.id, e.spell)) fail(T(2), "front-back", "front() or back() names key " + std::to_string(k.first));
        }
        return;
      }
      case O_WNEW: case O_WCALL: case O_WDEL: if (wr) { wr->run(o, *this); aborted = c.fired > 0; } return;
    }
  }
  template <class Fn, class Q, class G> Outc reg(int var, const Q& q, G g) {
    if (var == 0) { Fn fn(q); Outc r = call(M_ALL, [&] { g(fn); }); return r; }
    if (var == 1) { Fn fn(q); Outc r = call(M_ALL, [&] { g(std::move(fn)); }); return r; }
    return call(M_ALL, [&] { g(q); });
  }
  void movedFrom(int i, std::vector<MCache> from) {   // whatever it is now, it must be usable: adopt it
    Snap q = snap(i);
    if (q.bad) { fail(T(12, 1), "endless-iteration", "iteration of a moved-from cache does not end"); return; }
    for (auto& x : q.ord) { bool ok = false; for (auto& m : from) for (auto& y : m.e) if (y.id == x.id && y.val == x.val) ok = true; if (!ok) fail(T(12, 3), "moved-from", "a moved-from cache holds an entry that was never stored"); }
    std::vector<const MCache*> f; i64 lo = from[0].ttlLo, hi = from[0].ttlHi;
    for (auto& m : from) { f.push_back(&m); lo = std::min(lo, m.ttlLo); hi = std::max(hi, m.ttlHi); }
    if (q.cap == 0xA5A5A5A5A5A5A5A5ull) fail(T(12, 1), "uninitialised", "the capacity of a moved-from cache is uninitialised memory");
    adopt(i, q, f); s[i].m.ttlLo = lo; s[i].m.ttlHi = hi;
  }

  void opNew(const Op& o, std::vector<MCache>* alts) {
    int a = o.a; if (a < 0 || a >= NSLOT) return;
    destroy(a);
    std::vector<u64> tags; size_t cap = (size_t)o.m; auto h = hf(); auto e = ef(); Outc r = R_FINE; int var = o.n % 10;
    ttlNs = o.dt >= TTL_INF ? TTL_INF : o.dt > 0 ? o.dt - (p.type == 2 ? o.dt % 1000000000 : p.type == 5 ? o.dt % 1000000 : 0) : 0; if (ttlNs <= 0) ttlNs = p.ttl; ttlUnit = o.s;
    std::vector<KV> kv = o.kv;
    bool explicitCap = true, hasRange = var != 0 && var != 9, lv = false, ok = true;
    if (var == 7 || var == 8) { if (kv.size() > 3) kv.resize(3); }
    if (var == 0) r = construct(a, M_ALL, cap, h, e);
    else if (var == 9) { cap = 128; r = construct(a, M_ALL, cap, h, e); if (!inst && !timed && o.b) { destroy(a); r = construct(a, M_ALL); } }
    else if (Source q; source(o, false, q, kv, tags)) {
      explicitCap = var & 1;
      auto go = [&](unsigned m, auto&&... x) { if (explicitCap) r = construct(a, m, cap, std::forward<decltype(x)>(x)..., h, e); else r = construct(a, m, std::forward<decltype(x)>(x)..., h, e); };
      const CT* cs = q.src;
      switch (q.kind) {
        case 1: go(M_ORD, cs->ordered_begin(), cs->ordered_end()); break;
        case 2: go(M_ORD, q.src->ordered_begin(), q.src->ordered_end()); break;
        case 3: go(M_ALL, q.src->begin(), q.src->end()); break;
        case 4: explicitCap = true; r = construct(a, M_ALL, cap, *q.src, h, e); break;
        case 5: explicitCap = true; r = construct(a, M_ALL, cap, *cs, h, e); break;
        case 6: explicitCap = true; r = construct(a, M_ALL, cap, std::move(*q.tmp), h, e); break;
        case 7: go(M_ALL, q.l); break;
        case 8: go(M_ALL, std::move(q.l)); break;
        case 10: explicitCap = true; r = construct(a, M_ALL, cap, SIt<Pair>{&q.st}, SIt<Pair>{}, h, e); break;
        default: go(M_ALL, q.l.begin(), q.l.end());
      }
      if (q.kind == 10) { lv = true; ok = unchanged(q.v, kv, tags) && (r != R_FINE || q.st.pos == kv.size()); }
      if (q.kind == 7 || q.kind == 9) { size_t i = 0; for (auto& x : q.l) { if (tagOf(x.second) != tags[i] || keyOf(x.first).first != kv[i].k) ok = false; i++; } lv = true; }
      sourceDone(q);
    } else {
      std::vector<Pair> v = pairs(kv, tags);
      FIt<Pair> b{v.data()}, en{v.data() + v.size()};
      switch (var) {
        case 1: r = construct(a, M_ALL, cap, b, en, h, e); lv = true; break;
        case 2: r = construct(a, M_ALL, b, en, h, e); explicitCap = false; lv = true; break;
        case 3: r = construct(a, M_ALL, cap, v, h, e); lv = true; break;
        case 4: r = construct(a, M_ALL, v, h, e); explicitCap = false; lv = true; break;
        case 5: r = construct(a, M_ALL, cap, std::move(v), h, e); break;
        case 6: r = construct(a, M_ALL, std::move(v), h, e); explicitCap = false; break;
        default: {
          auto go = [&](std::initializer_list<Pair> il) { if (var == 7) { explicitCap = false; r = construct(a, M_ALL, il, h, e); } else r = construct(a, M_ALL, cap, il, h, e); };
          if (v.size() == 0) go({}); else if (v.size() == 1) go({v[0]}); else if (v.size() == 2) go({v[0], v[1]}); else go({v[0], v[1], v[2]});
        }
      }
      if (lv) ok = unchanged(v, kv, tags);
    }
    if (lv && !ok) fail(T(13), "range-modified", "construction modified the lvalue range");
    expectOnlyT(r, {R_FINE}, T(13), "construct-throws");
    if (r != R_FINE) return;
    MCache m; m.fold = Tr::fold(p.fold); m.ttlLo = m.ttlHi = timed ? ttlNs : 0;
    m.cap = cap;
    if (!explicitCap) { m.cap = s[a].c->capacity(); if (m.cap < kv.size()) fail(T(13), "inferred-capacity", "a cache constructed from " + std::to_string(kv.size()) + " pairs has capacity " + std::to_string(m.cap)); }
    if (hasRange) { int lo, hi; m = prefixes(m, kv, tags, lo, hi).back(); }
    s[a].m = m; alts[a].push_back(m);
  }

  void opBulk(const Op& o, std::vector<MCache>* alts) {
    int a = o.a; if (!is(a)) return;
    CT& n = *s[a].c; std::vector<u64> tags; std::vector<KV> kv = o.kv; int var = o.n % 6; size_t ret = 0; Outc r = R_FINE; bool lv = var != 2 && var != 3, ok = true;
    if (var == 3 && kv.size() > 3) kv.resize(3);
    bool assign = o.code == O_ASSIGN;
    if (assign) dropHeld(a);
    if (Source q; source(o, assign, q, kv, tags)) {
      const CT* cs = q.src; lv = q.kind == 7 || q.kind == 9;
      switch (q.kind) {
        case 1: { auto x = cs->ordered_begin(), y = cs->ordered_end(); r = call(M_ORD, [&] { ret = n.insert(x, y); }); break; }
        case 2: { auto x = q.src->ordered_begin(), y = q.src->ordered_end(); r = call(M_ORD, [&] { ret = n.insert(x, y); }); break; }
        case 3: { auto x = q.src->begin(), y = q.src->end(); r = call(M_ALL, [&] { ret = n.insert(x, y); }); break; }
        case 4: r = call(M_ALL, [&] { ret = n.insert(*q.src); }); break;
        case 5: r = call(M_ALL, [&] { ret = n.insert(*cs); }); break;
        case 6: r = call(M_ALL, [&] { ret = n.insert(std::move(*q.tmp)); }); break;
        case 7: r = call(M_ALL, [&] { if (assign) n = q.l; else ret = n.insert(q.l); }); break;
        case 8: r = call(M_ALL, [&] { if (assign) n = std::move(q.l); else ret = n.insert(std::move(q.l)); }); break;
        case 10: { SIt<Pair> x{&q.st}, y; r = call(M_ALL, [&] { ret = n.insert(x, y); }); break; }
        default: r = call(M_ALL, [&] { if (assign) n = static_cast<const std::list<LPair>&>(q.l); else ret = n.insert(q.l.begin(), q.l.end()); });
      }
      if (q.kind == 10) { lv = true; ok = unchanged(q.v, kv, tags) && (r != R_FINE || q.st.pos == kv.size()); }
      else if (lv) { size_t i = 0; for (auto& x : q.l) { if (tagOf(x.second) != tags[i] || keyOf(x.first).first != kv[i].k) ok = false; i++; } }
      sourceDone(q);
    } else {
      std::vector<Pair> v = pairs(kv, tags, o.m & 3); const std::vector<Pair>& cv = v;
      FIt<Pair> b{v.data()}, e{v.data() + v.size()}; FRange<Pair> fr{&v};
      auto il = [&](std::initializer_list<Pair> l) { r = call(M_ALL, [&] { if (assign) n = l; else ret = n.insert(l); }); };
      switch (var) {
        case 0: if (assign) { r = call(M_ALL, [&] { n = fr; }); } else r = call(M_ALL, [&] { ret = n.insert(b, e); }); break;
        case 1: r = call(M_ALL, [&] { if (assign) n = v; else ret = n.insert(v); }); break;
        case 2: r = call(M_ALL, [&] { if (assign) n = std::move(v); else ret = n.insert(std::move(v)); }); break;
        case 3: if (v.size() == 0) il({}); else if (v.size() == 1) il({v[0]}); else if (v.size() == 2) il({v[0], v[1]}); else il({v[0], v[1], v[2]}); break;
        case 4: r = call(M_ALL, [&] { if (assign) n = cv; else ret = n.insert(cv); }); break;
        default: r = call(M_ALL, [&] { if (assign) n = fr; else ret = n.insert(fr); });
      }
      if (lv) ok = unchanged(v, kv, tags);
    }
    if (lv && !ok) fail(T(13), "range-modified", "the lvalue range was modified");
    expectOnly(r, {R_FINE});
    MCache m = s[a].m; int lo, hi;
    if (assign) {
      if (r == R_FAULT) { alts[a].push_back(m); alts[a].push_back(remaining(a)); m.e.clear(); alts[a].push_back(m); }
      m.e.clear(); m.cap = std::max(m.cap, kv.size());
    }
    auto pre = prefixes(m, kv, tags, lo, hi);
    for (auto& h : held) if (h.slot == a && !h.end) for (auto& q : pre) if (q.idx(h.id, h.sp) < 0) { h.reset(); break; }   // left and came back
    if (r == R_FAULT) { alts[a].insert(alts[a].end(), pre.begin(), pre.end()); return; }
    if (!assign && r == R_FINE && ((int)ret < lo || (int)ret > hi)) fail(T(13), "bulk-count", "bulk insertion returned " + std::to_string(ret) + ", inserted " + std::to_string(lo));
    alts[a].push_back(pre.back());
  }

  // a clear that stopped between two entries: those that are still there
  MCache remaining(int a) {
    Snap q = snap(a); MCache m = s[a].m, got = m; got.e.clear();
    for (auto& e : m.e) for (auto& x : q.ord) if (m.same(x, e.id, e.spell)) { got.e.push_back(e); break; }
    return got;
  }

  void opExpiry(const Op& o, std::vector<MCache>* alts) {
    int a = o.a; if (!is(a)) return;
    CT& n = *s[a].c; const CT& cn = n; auto kk = keyAt(o); const MCache m = s[a].m; int var = o.n % 5; bool end = var >= 3;
    if (var == 0 && o.code != O_HASEXP) var = 1 + (o.n / 5) % 2;
    int x = m.idx(kk.first, kk.second);
    if (var == 0) { kk = {o.k, fix(o.s)}; x = m.idx(kk.first, kk.second); } else if (end || x < 0) { end = true; x = -1; }
    bool res = false; Outc r = R_FINE;
    bool uno = var == 2 || var == 4;
    if (var == 0) {
      if constexpr (timed) { K k = mk(kk.first, kk.second); r = call(M_NONE, [&] { res = cn.has_expired(k); }); } else return;
    } else {
      Held* h = nullptr; if (!end && (o.s & 4)) { Held& q = held[o.b % NITER]; if (q.slot == a && !q.end) h = &q; }
      if (h) { x = m.idx(h->id, h->sp); uno = h->kind < 2; }
      OC oc = uno ? OC(cn.ordered_end()) : h ? (h->kind == 2 ? OC(*h->o) : *h->oc) : end ? OC(cn.ordered_end()) : OC(oTo(a, kk.first, kk.second));
      UC uc = !uno ? UC(cn.unordered_end()) : h ? (h->kind == 0 ? UC(*h->u) : *h->uc) : end ? UC(cn.unordered_end()) : UC(itTo(a, kk.first, kk.second));
      if (o.code == O_HASEXP) { if constexpr (timed) r = call(M_NONE, [&] { res = uno ? cn.has_expired(uc) : cn.has_expired(oc); }); else return; }
      else if (o.code == O_ISVALID) r = call(M_NONE, [&] { res = uno ? cn.is_valid(uc) : cn.is_valid(oc); });
      else r = call(M_ALL, [&] { if (uno) cn.throw_if_invalid(uc); else cn.throw_if_invalid(oc); });
    }
    alts[a].push_back(m);
    if (r == R_FAULT) return;
    bool canLive = x >= 0 && (!timed || m.mayServe(m.e[x], t0)), canExp = x >= 0 && timed && m.mayMiss(m.e[x], t1);
    if (o.code == O_HASEXP) {
      expectOnly(r, {R_FINE});
      if (x < 0 ? res : (res ? !canExp : !canLive)) fail(T(8) | (x >= 0 && !res ? T(6) : 0), "has-expired", std::string("has_expired is ") + (res ? "true" : "false") + (x < 0 ? " for an absent key or the end" : res ? " for a live entry" : " for an expired entry"));
    } else if (o.code == O_ISVALID) {
      expectOnly(r, {R_FINE});
      if (x < 0 ? res : (res ? !canLive : !canExp)) fail(T(8, 14) | (x >= 0 ? res ? T(6) : T(7) : 0), "is-valid", std::string("is_valid is ") + (res ? "true" : "false") + (x < 0 ? " for the end" : res ? " for an expired entry" : " for a live entry"));
    } else {
      if (x < 0) expectOnlyT(r, {R_INVIT}, T(8, 14), "throw-if-invalid");
      else if (r == R_FINE) { if (!canLive) fail(T(8, 6, 14), "throw-if-invalid", "throw_if_invalid accepted an expired entry"); }
      else if (r == R_EXP && timed) { if (!canExp) fail(T(8, 7, 14), "throw-if-invalid", "throw_if_invalid rejected a live entry"); }
      else expectOnlyT(r, {R_FINE}, T(8, 14), "throw-if-invalid");
    }
  }

  void opMon(const Op& o, std::vector<MCache>*) {
    int a = o.a; if (!is(a)) return;
    CT& n = *s[a].c; Outc r; int var = o.n % 9; int idx = (unsigned)o.b % NSTAT;
    std::vector<K> ks; for (auto& x : o.kv) { if (ks.size() < 2) ks.push_back(mk(x.k, fix(x.s))); }
    if (var == 0) { auto sp = st[idx].p; r = call(M_ALL, [&] { n.monitor(sp); }); }
    else if (var == 1) { auto sp = st[idx].p; r = call(M_ALL, [&] { n.monitor(std::move(sp)); }); }
    else if (var == 2 || ks.empty()) { var = 2; r = call(M_ALL, [&] { n.monitor(); }); }
    else if (var == 3) r = call(M_ALL, [&] { if (ks.size() == 1) n.monitor(ks[0]); else n.monitor(ks[0], ks[1]); });
    else if (var == 5) r = call(M_ALL, [&] { n.monitor(ks.begin(), ks.end()); });
    else if (var == 6) { std::initializer_list<K> il = {ks[0]}, il2 = {ks[0], ks.back()}; r = call(M_ALL, [&] { n.monitor(ks.size() == 1 ? il : il2); }); }
    else if (var == 7) { std::shared_ptr<Stat> q; r = call(M_ALL, [&] { q = std::make_shared<Stat>(ks); n.monitor(q); }); }
    else if (var == 8) { std::shared_ptr<Stat> q; r = call(M_ALL, [&] { if (ks.size() == 1) q = std::make_shared<Stat>(ks[0]); else q = std::make_shared<Stat>(ks[0], ks[1]); n.monitor(std::move(q)); }); }
    else r = call(M_ALL, [&] { n.monitor(ks); });
    expectOnly(r, {R_FINE});
    if (r != R_FINE) return;
    if (var <= 1) s[a].m.stat = idx;
    else {
      if (!n.is_monitoring() || !n.shared_stats()) { fail(T(9), "stats-attached", "monitor() attached nothing"); return; }
      size_t before = st.size(); int j = newStat(n.shared_stats()); s[a].m.stat = j;
      if ((size_t)j != before) { fail(T(9), "stats-attached", "monitor() did not create a new statistics object"); return; }
      if (var >= 3) for (size_t q = 0; q < ks.size(); q++) { auto kk = keyOf(ks[q]); st[j].m.keys.emplace(kk, std::make_pair(0, 0)); }
    }
  }

  // ------------------------------------------------------------ sharing and the end
  void cloneOther(Exec& o) override { cloneFrom(static_cast<ExecT&>(o)); }
  void cloneFrom(ExecT& other) {
    for (int i = 0; i < NSLOT; i++) if (other.s[i].c) {
      void* mem = malloc(sizeof(CT)); memset(mem, 0xA5, sizeof(CT));
      { LibScope sc(M_NONE); const CT& src = *other.s[i].c; s[i].c = new (mem) CT(src); s[i].c->stop_monitoring(); }
      s[i].m = other.s[i].m; s[i].m.stat = -1;
    }
    nextCb = other.nextCb; nextTag = other.nextTag;
    if (inst) { i64 w = 0; for (auto& x : s) if (x.c) w += x.m.e.size(); if (c.liveVals != w) fail(T(11, 16), "live-values@clone", "a copy did not copy the values"); }
  }
  void finish() override {
    static const Op none{}; op = &none; ot = 0; t0 = t1 = c.clk->shown(); c.hook = nullptr;
    for (auto& h : held) h.reset();
    if (wr) { wr->finish(*this); wr.reset(); }
    int first = (int)(p.seed % NSLOT);
    if (p.seed & 4) st.clear();
    for (int i = 0; i < NSLOT; i++) destroy((i + first) % NSLOT);
    st.clear(); log.clear();
    if (inst && (c.liveVals || c.liveKeys)) fail(T(16), "leak-objects", std::to_string(c.liveKeys) + " keys and " + std::to_string(c.liveVals) + " values are alive after every cache was destroyed");
    if (c.liveLib) fail(T(16), "leak-memory", std::to_string(c.liveLib) + " blocks of memory allocated by the library were not released");
  }
  ~ExecT() override {}
};

template <class Dur, class K_, class V_, class H_, class E_> struct TrT {
  using C = LRU::TimedCache<K_, V_, Dur, H_, E_>; using K = K_; using V = V_; using H = H_; using E = E_; using D = Dur;
  static constexpr bool timed = true, inst = std::is_same<K_, TKey>::value;
  static H hash(int m) { if constexpr (inst) return H(m); else return H(); }
  static E eq(int f) { if constexpr (inst) return E(f); else return E(); }
  static int fold(int f) { return inst ? f : 1; }
  static D ttl(i64 ns) { if (ns >= TTL_INF) return D::max(); if constexpr (std::chrono::treat_as_floating_point<typename D::rep>::value) return D(ns / 1e6); else return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)); }
};
template <class K_, class V_, class H_, class E_> struct TrU {
  using C = LRU::Cache<K_, V_, H_, E_>; using K = K_; using V = V_; using H = H_; using E = E_; using D = int;
  static constexpr bool timed = false, inst = std::is_same<K_, TKey>::value;
  static H hash(int m) { if constexpr (inst) return H(m); else return H(); }
  static E eq(int f) { if constexpr (inst) return E(f); else return E(); }
  static int fold(int f) { return inst ? f : 1; }
  static D ttl(i64) { return 0; }
};
