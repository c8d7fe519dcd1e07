// One integer seed -> one plan: configuration, operations, failures, clock moves, thread switches.
#include "sim.hpp"

namespace {
struct Rng {
  u64 s; explicit Rng(u64 x) : s(x) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); }
  i64 below64(i64 n) { return n <= 0 ? 0 : (i64)(next() % (u64)n); }
  bool p(double q) { return (next() >> 11) * (1.0 / 9007199254740992.0) < q; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((int)l.size())); }
  template <class T> const T& pick(const std::vector<T>& l) { return l[below((int)l.size())]; }
  int geo(double q, int cap) { int n = 0; while (n < cap && p(q)) n++; return n; }
};

struct Gen {
  Plan p; Rng r; int prop; bool thorough;
  double w[NOPS] = {}, wsum = 0; double pFault = 0, pStall = 0; unsigned kinds = M_ALL; int nthMax = 6; int slots = 1; bool timed, wrap = false;
  bool large = false, huge = false, equalVals = false; std::vector<int> caps; double pAlias = .08, pWrite = .1, pKeep = .04;
  Gen(int prop_, u64 seed, bool th) : r(seed * 0x9e3779b97f4a7c15ull + (u64)prop_ * 0xd1342543de82ef95ull + 12345), prop(prop_), thorough(th) { p.prop = prop_; p.seed = seed; r.next(); }

  void mul(std::initializer_list<int> l, double f) { for (int o : l) w[o] *= f; }
  int key() { return r.below(large && r.p(wrap ? .1 : .4) ? 6 : p.nkeys); }
  int spell() { return r.below(p.spells); }
  std::vector<KV> range(int mx) { std::vector<KV> v; int n = r.below((huge && r.p(.6) ? 190 : large && r.p(.5) ? 40 : mx) + 1); for (int i = 0; i < n; i++) v.push_back({key(), spell()}); return v; }
  i64 span() {   // an amount of time on the scale of the time to live
    i64 t = p.ttl >= TTL_INF ? 1000000000 : std::max<i64>(p.ttl, 10);
    if (r.p(.02)) return r.pick<i64>({3600000000000, 4000000000000000, 30000000000000000});
    switch (r.below(10)) { case 0: return 1; case 1: return t; case 2: return t + 1; case 3: return t - 1; case 4: return t / 2; case 5: return t / 10; case 6: return t * 2; case 7: return t / 3 * 2; case 8: return r.below64(t); default: return p.ttl >= TTL_INF && r.p(.3) ? (i64)4e15 : t / 4 + r.below64(t); }
  }
  i64 otherTtl() {   // a time to live of its own for one cache
    if (p.type == 2) return r.pick<i64>({1000000000, 2000000000, 3000000000, 7000000000});
    return r.p(.1) ? TTL_INF : r.pick<i64>({1000000, 2000000, 3000000, 10000000, 50000000, 1000000000});
  }
  void weights() {
    auto S = [&](std::initializer_list<std::pair<int, double>> l) { for (auto& x : l) w[x.first] = x.second; };
    S({{O_CONTAINS, 6}, {O_FIND, 8}, {O_LOOKUP, 8}, {O_INDEX, 4}, {O_INSERT, 13}, {O_EMPLACE, 5}, {O_EMPLACEP, 3}, {O_INSRANGE, 2}, {O_ASSIGN, 1}, {O_ERASE, 4}, {O_ERASEIT, 3}, {O_CLEAR, .7}, {O_SHRINK, 1}, {O_CAP, 1.5}, {O_ISVALID, 1}, {O_THROWINV, 1},
       {O_MON, 1}, {O_STOPMON, .4}, {O_STATQ, .5}, {O_SMON, .7}, {O_SUNMON, .3}, {O_SRESET, .4}, {O_CBREG, 1}, {O_CBCLR, .3}, {O_ITNEW, 2}, {O_ITOP, 4}, {O_TRAV, 1}, {O_FRONTBACK, .7}, {O_COPYC, .6}, {O_COPYA, .6}, {O_MOVEC, .4}, {O_MOVEA, .4}, {O_SWAP, .4}, {O_NEW, .4}, {O_DESTROY, .3}});
    if (timed) { S({{O_HASEXP, 2}, {O_ALLEXP, 1.2}, {O_CLREXP, 1.5}, {O_ADV, 5}, {O_ADVTO, 4}, {O_WJUMP, .7}}); w[O_FRONTBACK] = 0; }
    w[O_EQCMP] = .4;
    switch (prop) {
      case 1: mul({O_CAP, O_SHRINK, O_CLEAR}, 2.5); break;
      case 2: mul({O_FRONTBACK}, 4); mul({O_CAP, O_SHRINK}, 3); mul({O_CBREG, O_MON, O_NEW}, .5); break;
      case 3: pKeep = .15; mul({O_FIND, O_LOOKUP, O_CONTAINS, O_INDEX}, 1.5); pAlias = .2; pWrite = .3; break;
      case 4: mul({O_ERASE, O_ERASEIT}, 4); mul({O_CLEAR, O_ITNEW}, 3); mul({O_SHRINK, O_CLREXP}, 1.5); break;
      case 5: mul({O_INSRANGE, O_ASSIGN, O_COPYC, O_COPYA, O_MON, O_CBREG, O_SHRINK, O_CAP, O_CLREXP}, 2); break;
      case 6: mul({O_ADV, O_ADVTO}, 2.5); mul({O_WJUMP}, 3); mul({O_ISVALID, O_THROWINV, O_ITOP, O_ITNEW, O_HASEXP}, 1.5); break;
      case 7: mul({O_ADV, O_ADVTO}, 2.5); mul({O_WJUMP}, 3); mul({O_ASSIGN, O_INSRANGE}, 2); break;
      case 8: mul({O_HASEXP, O_ISVALID, O_THROWINV, O_ALLEXP, O_CLREXP}, 4); mul({O_ADV, O_ADVTO}, 2); break;
      case 9: mul({O_MON, O_STOPMON, O_STATQ, O_SMON, O_SUNMON, O_SRESET}, 3.5); mul({O_FIND, O_LOOKUP, O_CONTAINS, O_INDEX}, 1.5); mul({O_COPYC, O_COPYA, O_SWAP}, 1.5); break;
      case 10: mul({O_CBREG}, 6); mul({O_CBCLR}, 3); mul({O_FIND, O_LOOKUP, O_CONTAINS, O_INDEX}, 2); break;
      case 11: mul({O_COPYC, O_COPYA, O_EQCMP}, 10); mul({O_DESTROY, O_MON, O_CBREG}, 3); break;
      case 12: mul({O_MOVEC, O_MOVEA, O_SWAP}, 10); mul({O_MON, O_CBREG, O_NEW}, 3); break;
      case 13: mul({O_INSRANGE, O_ASSIGN}, 8); mul({O_NEW}, 10); mul({O_CAP, O_SHRINK}, 2); break;
      case 14: pKeep = .5; mul({O_ITNEW}, 5); mul({O_ITOP}, 7); mul({O_TRAV}, 5); break;
      case 17: mul({O_COPYC, O_COPYA, O_MOVEC, O_MOVEA, O_SWAP}, r.p(.6) ? .1 : 1); mul({O_ITNEW, O_ITOP}, r.p(.6) ? .3 : 1); break;
      case 18: w[O_EQCMP] = 40; mul({O_COPYC, O_COPYA}, 3); break;
      case 20: mul({O_CONTAINS, O_LOOKUP, O_INDEX}, 3); break;
      case 16: mul({O_COPYC, O_COPYA, O_MOVEC, O_MOVEA, O_SWAP, O_NEW, O_DESTROY, O_CLEAR, O_ASSIGN}, 3); break;
    }
  }
  void config() {
    static const double pf[22] = {0, .6, .4, .4, .45, .97, .2, .25, .25, .35, .5, .5, .2, .5, .4, .55, .7, .4, .3, 0, .3, .3};
    std::vector<int> types;
    switch (prop) {
      case 6: case 7: case 8: types = {1, 1, 1, 2, 5, 4}; break;
      case 2: types = {0, 0, 0, 3, 1, 2}; break;
      case 15: types = {0}; break;
      case 21: types = {0, 1, 3, 3, 4, 4}; break;
      case 17: types = {0, 0, 1, 1, 3, 4}; break;
      case 9: case 10: types = {0, 0, 1, 1, 2, 4, 3}; break;
      default: types = {0, 0, 0, 1, 1, 2, 3, 4}; break;
    }
    p.type = r.pick(types); timed = typeTimed(p.type);
    wrap = prop == 15 || (prop == 17 && p.type == 0 && r.p(.6));
    p.nkeys = r.pick({2, 3, 3, 4, 4, 5, 6, 8}); p.spells = typeInst(p.type) && r.p(prop == 3 ? .5 : .25) ? 2 : 1;
    p.fold = p.spells == 1 || r.p(.6); p.mod = r.pick({1, 2, 4, 1 << 16, 1 << 16});
    if (timed || wrap) {
      if (p.type == 2) p.ttl = r.pick<i64>({1000000000, 1000000000, 2000000000, 5000000000});
      else p.ttl = r.pick<i64>({1000000, 2000000, 10000000, 1000000000});
      if (p.type == 1 && r.p(.2)) p.ttl = r.pick<i64>({1, 1000, 1500, 2500001});
      if (r.p(.04)) p.ttl = r.pick<i64>({3600000000000, 40 * 86400000000000, 800 * 86400000000000});
      if (r.p(.05)) p.ttl = TTL_INF;
      if (r.p(.03)) p.ttl = 0;
      p.tick = r.pick<i64>({0, 0, 0, 0, 0, 1, 1000}); if (r.p(.1)) p.tick = p.ttl < TTL_INF ? p.ttl / 7 : 1;
      p.res = r.pick<i64>({1, 1, 1, 1, 1, 1000, 1000000, 15600000});
    }
    pFault = r.p(pf[prop]) ? (prop == 5 ? r.pick({.15, .3, .5, .7}) : r.pick({.08, .2, .2, .4, .7})) : 0;
    if (pFault > 0 && r.p(.5)) { kinds = 0; while (!kinds) kinds = (unsigned)r.next() & M_ALL; }
    nthMax = r.pick({2, 3, 4, 8, 20});
    bool ts = prop == 6 || prop == 7 || prop == 8;
    pStall = (timed || wrap) && r.p(ts ? .45 : .2) ? r.pick({.05, .15, .4}) : 0;
    slots = prop == 11 || prop == 12 || prop == 18 ? r.pick({2, 2, 3}) : prop == 9 || prop == 16 || prop == 5 || prop == 13 || prop == 1 ? r.pick({1, 2, 2, 3}) : r.pick({1, 1, 1, 2});
    caps = {1, 2, 2, 3, 3, 4, 5, 8}; if (r.p(.12)) caps.push_back(0); if (r.p(.15)) caps.push_back(128); if (prop == 2 && r.p(.5)) caps = {2, 3};
    if (!wrap && r.p(.03)) { large = true; p.nkeys = r.pick({16, 24, 40, 60}); caps = {4, 12, 16, 20, 40, 64, 128}; }
    // more entries than an unspecified capacity holds
    if (!wrap && !large && r.p(prop == 13 || prop == 1 ? .008 : .003)) { large = huge = true; p.nkeys = r.pick({135, 150, 180}); caps = {100, 128, 129, 140, 200}; }
    if (r.p(.04)) caps.push_back(-1);
    equalVals = r.p(.12);   // the same value is stored again and again under a key
    weights();
    // swarm: leave some operations out, favour others
    for (int i = 0; i < NOPS; i++) { if (i == O_INSERT || i == O_FIND) continue; if (r.p(.2)) w[i] *= .05; else if (r.p(.12)) w[i] *= 4; }
    wsum = 0; for (double x : w) wsum += x;
  }
  int pickOp() { double x = (r.next() >> 11) * (1.0 / 9007199254740992.0) * wsum; for (int i = 0; i < NOPS; i++) { if (x < w[i]) return i; x -= w[i]; } return O_INSERT; }

  Op mk(int code) {
    Op o; o.code = code; o.a = r.below(slots); o.k = key(); o.s = spell();
    int n = p.nkeys;
    switch (code) {
      case O_ADV: o.dt = span(); o.k = o.s = o.a = 0; break;
      case O_ADVTO: o.dt = r.pick<i64>({-1, 0, 1, 1, 2, -1000, 1000}); o.n = r.below(2); break;
      case O_WJUMP: o.dt = (r.p(.5) ? 1 : -1) * (r.p(.5) ? span() * 3 : (i64)86400 * 1000000000 * (1 + r.below(4000))); o.k = o.s = o.a = 0; break;
      case O_NEW: o.n = r.below(10); o.m = r.pick(caps); o.b = r.below(2); o.k = 0; o.s = timed && r.p(.4) ? r.below(5) : 0; if (o.n != 0 && o.n != 9) { o.kv = range(6); if (r.p(.25)) { o.k = 1 + r.below(10); o.b = r.below(slots); } } if (timed && slots > 1 && r.p(.4)) o.dt = otherTtl(); break;
      case O_DESTROY: o.k = o.s = 0; if (o.a == 0) o.a = slots - 1; break;
      case O_COPYC: case O_COPYA: case O_MOVEC: case O_MOVEA: case O_SWAP: o.k = o.s = 0; o.b = r.below(NSLOT < slots + 1 ? NSLOT : slots + 1); o.n = r.below(6); break;
      case O_CONTAINS: o.n = r.below(2); o.b = r.p(.06); break;
      case O_FIND: case O_LOOKUP: case O_INDEX: o.n = r.below(2); o.m = r.p(pWrite); o.b = r.p(.06); break;
      case O_INSERT: if (equalVals && r.p(.7)) o.dt = 1 + o.k * 4 + (r.p(.15) ? 1 : 0); o.n = r.p(pAlias) ? 1 + 2 * r.below(2) : 0; o.b = r.below(n); o.m = r.p(pWrite); if (prop == 18) { o.n = 0; o.dt = 1 + o.k * 4 + (r.p(.15) ? 1 : 0); } break;
      case O_EMPLACE: if (equalVals && r.p(.7)) o.dt = 1 + o.k * 4 + (r.p(.15) ? 1 : 0); o.n = r.below(3); o.m = r.p(pWrite); break;
      case O_EMPLACEP: if (equalVals && r.p(.7)) o.dt = 1 + o.k * 4; o.m = r.p(pWrite); break;
      case O_INSRANGE: case O_ASSIGN: o.n = r.below(6); o.m = equalVals ? 2 + (r.p(.15) ? 1 : 0) : 0; o.kv = range(6); o.k = r.p(.25) ? 1 + r.below(10) : 0; o.b = o.k ? r.below(slots) : 0; o.s = 0; break;
      case O_ERASE: o.n = r.p(.2); o.m = r.below(6); break;
      case O_ERASEIT: o.n = r.below(4) + (r.p(.06) ? 8 : 0) + (r.p(.25) ? 16 : 0); o.m = r.p(.2) ? -1 : r.below(6); o.b = r.below(NITER); break;
      case O_CLEAR: case O_ALLEXP: case O_CLREXP: o.k = o.s = 0; break;
      case O_SHRINK: case O_CAP: o.n = r.p(.1) ? 0 : r.p(.5) ? r.pick(caps) : 1 + r.below(huge ? 180 : large ? 40 : 6); o.k = o.s = 0; break;
      case O_HASEXP: case O_ISVALID: case O_THROWINV: o.n = r.below(10); if (r.p(.6) && o.n % 5 >= 3) o.n -= 2; o.m = r.p(.2) ? -1 : r.below(6); o.s |= r.p(.3) ? 4 : 0; o.b = r.below(NITER); break;
      case O_EQCMP: o.k = o.s = 0; o.b = r.below(slots); break;
      case O_MON: o.n = r.below(9); o.b = r.below(r.p(.6) ? 1 : NSTAT); o.k = o.s = 0; if (o.n >= 3) { o.kv = range(2); } break;
      case O_STOPMON: o.k = o.s = 0; break;
      case O_STATQ: o.n = r.below(2); o.m = r.below(2); break;
      case O_SMON: case O_SUNMON: case O_SRESET: o.b = r.below(r.p(.7) ? 2 : 5); o.n = r.p(.2); o.a = 0; break;
      case O_CBREG: o.n = r.below(3); o.m = r.below(3); o.b = r.p(prop == 10 || prop == 17 ? .45 : .15) ? 1 + r.below(5) : 0; o.s = 0; o.dt = timed && r.p(.15) ? span() : 0; break;
      case O_CBCLR: o.n = r.below(4); o.k = o.s = 0; break;
      case O_ITNEW: o.b = r.below(NITER); o.n = r.below(4); o.m = r.p(.25) ? -1 : r.below(6); o.s = (o.s & 1) | (r.p(.12) ? 2 : 0); o.dt = r.below(2); break;
      case O_ITOP: o.b = r.below(NITER); o.n = r.below(14); o.k = r.below(4); o.m = r.below(6); o.s = r.below(4); o.a = 0; break;
      case O_TRAV: o.n = r.below(6); o.k = o.s = 0; break;
      case O_FRONTBACK: o.n = r.below(2); o.k = o.s = 0; break;
      case O_WNEW: o.a = r.below(slots); o.b = r.p(.5) ? 0 : r.below(4); o.n = prop == 17 && r.p(.5) ? r.pick({0, 0, 5}) : r.below(6); o.m = r.pick(caps); o.s = r.p(.75) ? r.below(2) : r.below(4); o.k = 0; if (r.p(.35)) o.dt = otherTtl(); break;
      case O_WCALL: o.a = r.below(slots); o.n = r.below(3) + 3 * r.below(r.p(.2) ? 8 : 2); o.s = spell(); o.m = r.p(prop == 17 ? .12 : .25) ? 1 + r.below(2) : 0; o.b = r.below(slots); o.dt = r.p(.12) ? span() : 0; break;
      case O_WDEL: o.a = r.below(slots); o.k = o.s = 0; o.n = r.p(.6); break;
    }
    return o;
  }
  // the seams an operation of this kind usually passes
  static std::vector<int> meets(const Op& o) {
    switch (o.code) {
      case O_CONTAINS: case O_FIND: case O_LOOKUP: case O_INDEX: return {F_HASH, F_EQ, F_CB, F_CB};
      case O_INSERT: case O_EMPLACE: case O_EMPLACEP: return {F_ALLOC, F_ALLOC, F_KCOPY, F_VCOPY, F_VASSIGN, F_HASH, F_EQ};
      case O_INSRANGE: case O_ASSIGN: case O_NEW: return {F_ALLOC, F_ALLOC, F_KCOPY, F_VCOPY, F_VASSIGN, F_HASH, F_EQ, F_ITER};
      case O_ERASE: case O_ERASEIT: case O_SHRINK: case O_CAP: case O_CLREXP: case O_SUNMON: case O_SRESET: case O_HASEXP: case O_STATQ: return {F_HASH, F_EQ};
      case O_COPYC: case O_COPYA: return {F_ALLOC, F_ALLOC, F_KCOPY, F_VCOPY, F_HASH};
      case O_MON: case O_SMON: return {F_ALLOC, F_KCOPY, F_HASH, F_EQ};
      case O_CBREG: case O_ITOP: case O_ITNEW: case O_MOVEC: case O_MOVEA: case O_SWAP: case O_WNEW: return {F_ALLOC};
      case O_WCALL: return {F_FUNC, F_FUNC, F_ALLOC, F_VCOPY, F_KCOPY, F_HASH, F_EQ};
    }
    return {};
  }
  void hurt(Op& o) {
    if (pFault > 0 && r.p(pFault)) {
      int nf = 1 + (r.p(.35) ? 1 : 0);
      for (int i = 0; i < nf; i++) {
        std::vector<int> ks; for (int k = 0; k < NFAULT; k++) if (kinds >> k & 1) { ks.push_back(k); if (k == F_ALLOC) ks.push_back(k); }
        int k = r.pick(ks);
        if (r.p(.8)) { std::vector<int> rel; for (int x : meets(o)) if (kinds >> x & 1) rel.push_back(x); if (rel.empty() && r.p(.5)) rel = meets(o); if (!rel.empty()) k = r.pick(rel); }
        o.faults.push_back({k, r.p(.7) ? r.geo(.45, nthMax) : r.below(nthMax)});
      }
    }
    if (pStall > 0 && r.p(pStall)) o.stalls.push_back({r.geo(.5, 3), span()});
  }
  Plan run() {
    config();
    if (prop == 17) return threads();
    if (prop == 21) return cost();
    int n = r.pick({6, 12, 20, 30, 45}); if (thorough && r.p(.3)) n *= 2; if (huge) n = r.pick({6, 12, 20}); else if (r.p(thorough ? .02 : .006)) n = r.pick({200, 400, 700}); else if (r.p(.0005)) n = r.pick({1500, 2500, 4000});
    if (wrap) { if (r.p(.012)) { large = huge = true; p.nkeys = r.pick({12, 40, 135, 150, 180}); caps = {4, 12, 40, 100, 128, 129, 140, 200}; n = r.pick({100, 300, 500}); } wrapOps(n, 0); return p; }
    for (int i = 0; i < slots; i++) if (i == 0 || r.p(.7)) { Op o = mk(O_NEW); o.a = i; if (r.p(prop == 13 ? .2 : .7)) { o.n = 0; o.kv.clear(); } p.ops.push_back(o); }
    if (prop == 9 || r.p(.2)) { Op o = mk(O_MON); o.a = 0; p.ops.push_back(o); }
    if (prop == 10 || r.p(.15)) { int q = 1 + r.below(3); while (q--) { Op o = mk(O_CBREG); p.ops.push_back(o); } }
    if (large || r.p(.6)) { int q = huge ? r.below(160) : large ? 10 + r.below(50) : 1 + r.below(4); while (q--) p.ops.push_back(mk(O_INSERT)); }
    for (int i = 0; i < n; i++) {
      Op o = mk(pickOp()); bool keep = (o.code == O_FIND || o.code == O_INSERT || o.code == O_EMPLACE || o.code == O_EMPLACEP) && r.p(pKeep); if (keep) o.m |= (1 + r.below(NITER)) << 1;
      hurt(o); p.ops.push_back(o);
      if (keep && r.p(.6)) { Op q = mk(O_ITOP); q.b = (o.m >> 1) - 1; hurt(q); p.ops.push_back(q); }
      if (prop == 18 && (o.code == O_INSERT || o.code == O_ERASE || (o.code >= O_CONTAINS && o.code <= O_INDEX)) && r.p(.7)) { Op q = o; q.faults.clear(); q.stalls.clear(); q.a = r.below(slots); p.ops.push_back(q); if (r.p(.5)) p.ops.push_back(mk(O_EQCMP)); }
      if (prop == 20 && r.p(.5)) { Op q = mk(O_CONTAINS); q.a = o.a; p.ops.push_back(q); q.code = r.pick({O_LOOKUP, O_LOOKUP, O_INDEX, O_CONTAINS}); q.n = r.below(2); p.ops.push_back(q); }
      // access what an operation has just touched, straight afterwards
      if (r.p(.3)) { Op q = mk(r.pick({O_FIND, O_LOOKUP, O_CONTAINS, O_INDEX, O_INSERT, O_ERASE})); q.a = o.a; q.k = o.kv.empty() ? o.code == O_INSRANGE || o.code == O_ASSIGN ? 0 : o.k : o.kv[0].k; if (r.p(.3)) hurt(q); p.ops.push_back(q); if (r.p(.5)) { q.n = r.below(2); q.code = r.pick({O_FIND, O_LOOKUP, O_CONTAINS}); p.ops.push_back(q); } }
    }
    if (prop == 9 && p.tick == 0 && r.p(.005)) {   // very many lookups of one key
      size_t at = p.ops.size() - r.below(4); Op m = mk(O_MON); m.a = 0; Op o = mk(O_CONTAINS); o.a = 0; o.m = r.pick({300, 33000, 66000}); Op q = mk(O_SMON); q.k = o.k; q.s = o.s; q.n = 0;
      std::vector<Op> add{m}; { Op x = mk(O_CBCLR); x.a = 0; x.n = 3; add.push_back(x); } if (r.p(.7)) { Op x = mk(O_INSERT); x.a = 0; x.k = o.k; x.s = o.s; add.push_back(x); } for (q.b = 0; q.b < 3; q.b++) add.push_back(q); add.push_back(o); if (r.p(.5)) { o.k = r.below(p.nkeys); add.push_back(o); }
      p.ops.insert(p.ops.begin() + at, add.begin(), add.end());
    }
    // nothing fails any more: the caches must be usable
    if (pFault > 0 && r.p(.6)) for (int s = 0; s < slots; s++) for (int i = 0; i < p.nkeys && i < 5; i++) { Op o = mk(r.p(.6) ? O_INSERT : O_FIND); o.a = s; o.k = i; p.ops.push_back(o); }
    return p;
  }
  void wrapOps(int n, int th) {
    slots = r.pick({1, 2, 2, 3, 4}); size_t first = p.ops.size();
    for (int i = 0; i < slots; i++) { Op o = mk(O_WNEW); o.a = i; p.ops.push_back(o); }
    for (int i = 0; i < n; i++) {
      int q = r.below(100); Op o = mk(q < 72 || (large && q < 96) ? O_WCALL : q < 76 ? O_WNEW : q < 80 ? O_WDEL : q < 97 ? O_ADV : O_WJUMP);
      hurt(o); p.ops.push_back(o);
    }
    for (size_t i = first; i < p.ops.size(); i++) p.ops[i].th = th;
  }
  // large caches, operations in batches
  Plan cost() {
    int big = r.pick({4000, 5000, 6000, 8000}); p.nkeys = big + (r.p(.5) ? big / 2 : 0); p.mod = 1 << 16; p.spells = p.fold = 1; p.tick = 0; p.res = 1;
    auto make = [&](int a) { Op o; o.code = O_NEW; o.a = a; o.m = r.p(.8) ? big : p.nkeys; o.n = r.p(.9) ? o.m : big / 10; o.b = r.below(4); o.k = r.below(p.nkeys); return o; };
    p.ops.push_back(make(0));
    if (r.p(timed && p.ttl < TTL_INF ? .4 : .1)) {   // entries of two ages, of which the older are the more recently used
      int h = r.pick({big / 10, big / 2, big / 2, big - 20}); Op q; p.ops[0].m = p.nkeys = big; p.ops[0].n = h; p.ops[0].k = 0;
      q.code = O_ADV; q.dt = p.ttl < TTL_INF ? p.ttl / 5 * 3 : 1000; p.ops.push_back(q);
      Op f; f.code = O_INSRANGE; f.k = h; f.n = big - h; f.b = r.below(3); p.ops.push_back(f);
      if (r.p(.8)) { Op l; l.code = r.pick({O_FIND, O_LOOKUP, O_CONTAINS}); l.s = r.below(2); l.b = 4; l.n = h; p.ops.push_back(l); }
      p.ops.push_back(q); if (timed && r.p(.7)) { Op e; e.code = r.pick({O_CLREXP, O_CLREXP, O_ALLEXP}); p.ops.push_back(e); }
    }
    if (r.p(.4)) { Op o; o.code = O_MON; p.ops.push_back(o); } if (r.p(.4)) { Op o; o.code = O_CBREG; p.ops.push_back(o); }
    int n = 3 + r.below(7);
    while (n--) {
      Op o; o.a = r.p(.85) ? 0 : 1; o.k = r.below(1 << 20); o.s = r.below(2); o.m = r.p(.7) ? 0 : r.p(.5) ? 10 : big; o.n = 50 + r.below(200);
      if (r.p(.78)) o.b = r.p(.2) ? 4 : 0, o.code = r.pick({O_CONTAINS, O_FIND, O_LOOKUP, O_INDEX, O_INSERT, O_INSERT, O_EMPLACE, O_EMPLACEP, O_ERASE, O_ERASEIT, O_FRONTBACK, O_STATQ, O_ITOP, O_TRAV, O_HASEXP});
      else { o.code = r.pick({O_COPYC, O_COPYA, O_EQCMP, O_SWAP, O_CLEAR, O_SHRINK, O_CAP, O_CLREXP, O_ALLEXP, O_INSRANGE, O_DESTROY, O_NEW, O_WCALL}); o.b = 1 - o.a; }
      if (o.code == O_NEW) { int a = o.a; o = make(a); } else if (o.code == O_INSRANGE) { o.n = r.below(big); o.b = r.below(4); } else if (o.code == O_SHRINK || o.code == O_CAP) o.n = r.pick({0, big / 2, big - 10, -1}); else if (o.code == O_WCALL) { o.m = big; }
      if (pFault > 0 && r.p(pFault)) o.faults.push_back({r.below(NFAULT), r.below(60)});
      p.ops.push_back(o);
      if (timed && r.p(.3)) { Op q; q.code = O_ADV; q.dt = span(); p.ops.push_back(q); }
    }
    return p;
  }
  Plan threads() {
    if (r.p(.5)) { int f = 1 + r.below(3); while (f--) { int i = r.below(NOPS); if (w[i] > 0) w[i] = std::max(w[i] * 4, 20.); } wsum = 0; for (double x : w) wsum += x; }   // threads that do the same
    double pMon = r.pick({0., .4, 1.}), pCb = r.pick({0., .3, .8});
    p.threads = r.pick({2, 2, 2, 3}); bool prelude = !wrap && r.p(.5);
    if (prelude) {
      for (int i = 0; i < slots; i++) { Op o = mk(O_NEW); o.a = i; o.th = 9; p.ops.push_back(o); }
      int q = 2 + r.below(8); while (q--) { int code; do code = pickOp(); while (code == O_MON || code == O_SMON || code == O_ITNEW || code == O_ITOP || (code >= O_NEW && code <= O_SWAP)); Op o = mk(code); o.th = 9; p.ops.push_back(o); }
    }
    int keep = slots;
    for (int t = 0; t < p.threads; t++) {
      int n = 5 + r.below(12); slots = keep;
      if (wrap && r.p(.8)) { wrapOps(n, t); continue; }
      size_t first = p.ops.size();
      if (!prelude) for (int i = 0; i < slots; i++) { Op o = mk(O_NEW); o.a = i; p.ops.push_back(o); }
      if (r.p(pMon)) { Op o = mk(O_MON); o.a = 0; p.ops.push_back(o); }
      if (r.p(pCb)) { Op o = mk(O_CBREG); o.a = 0; p.ops.push_back(o); }
      for (int i = 0; i < n; i++) { Op o = mk(pickOp()); hurt(o); p.ops.push_back(o); }
      for (size_t i = first; i < p.ops.size(); i++) p.ops[i].th = t;
    }
    int m = 4 + r.below(40); int g = r.pick({2, 6, 20});
    if (r.p(.6)) { p.gran = 1; g = r.pick({6, 20, 100, 100, 400}); m = 4 + r.below(120); }
    while (m--) p.sched.push_back({1 + r.below(g), r.below(p.threads)});
    return p;
  }
};
}
Plan generate(int prop, u64 seed, bool thorough) { return Gen(prop, seed, thorough).run(); }
