// Symbolic engine: expression table, canonical polynomials, path exploration, obligation discharge (z3).
#include <gmpxx.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <malloc.h>
#include <quadmath.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <z3++.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <unordered_map>
#include <unordered_set>

#include "sx.h"
namespace sx { struct EigenAssert { const char* expr; const char* file; int line; }; }

namespace sx {
using std::string; using std::vector; using std::map; using std::set; using std::pair;
typedef mpq_class Q;

struct Unsupported { string what; };
struct PathAbort {};
struct Infeasible {};

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ nodes
enum Op : uint8_t { CONST, VAR, ADD, MUL, NANN, UNINIT, PINF, NINF };
struct Node { Op op; int a, b; };
static vector<Node> N(1);
static vector<Q> consts;
struct KeyHash { size_t operator()(const std::tuple<int,int,int>& k) const {
  return std::get<0>(k) * 1000003u ^ (size_t)std::get<1>(k) * 2654435761u ^ (size_t)std::get<2>(k) * 40503u * 7919u; } };
static std::unordered_map<std::tuple<int,int,int>, int, KeyHash> ntab;
static std::unordered_map<string, int> ctab;
static int mkNode(Op op, int a, int b) {
  auto k = std::make_tuple((int)op, a, b);
  auto it = ntab.find(k);
  if (it != ntab.end()) return it->second;
  N.push_back({op, a, b});
  int id = (int)N.size() - 1;
  ntab[k] = id;
  return id;
}
static int mkConst(const Q& q) {
  string s = q.get_str(36);
  auto it = ctab.find(s);
  if (it != ctab.end()) return it->second;
  consts.push_back(q);
  N.push_back({CONST, (int)consts.size() - 1, 0});
  int id = (int)N.size() - 1;
  ctab[s] = id;
  return id;
}
static int special(Op op) { return mkNode(op, 0, 0); }
static bool isC(int n) { return N[n].op == CONST; }
static const Q& cv(int n) { return consts[N[n].a]; }
static bool nonfin(int n) { Op o = N[n].op; return o >= NANN; }

// the simplest rational that rounds to v (literals such as 1.0/6 or 0.4165-0.209 read as intended)
static Q rationalise(double v) {
  if (v == 0) return Q(0);
  if (v == std::floor(v) && std::fabs(v) < 1e15) return Q(v);
  double av = std::fabs(v), err = av * 8.9e-16;
  {  // continued fraction, denominators up to 1e5
    double x = av; long long p0 = 1, q0 = 0, p1 = (long long)std::floor(x), q1 = 1;
    if (av < 1e9)
      for (int i = 0; i < 40; i++) {
        if (q1 > 100000) break;
        if (q1 > 0 && std::fabs((double)((long double)p1 / q1) - av) <= err && p1 > 0) {
          Q r(mpz_class((long)p1), mpz_class((long)q1)); r.canonicalize(); return v < 0 ? -r : r;
        }
        double f = x - std::floor(x); if (f < 1e-13) break; x = 1 / f;
        if (x > 1e9) break;
        long long a = (long long)std::floor(x), p2 = a * p1 + p0, q2 = a * q1 + q0;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
      }
  }
  char buf[64];
  for (int prec = 1; prec <= 17; prec++) {
    snprintf(buf, sizeof buf, "%.*e", prec - 1, av);
    if (prec == 17 || std::fabs(strtod(buf, 0) - av) <= err) break;
  }
  // buf = d.ddddde[+-]XX
  string s(buf); size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1); string m = s.substr(0, e);
  size_t dot = m.find('.'); int fr = 0;
  if (dot != string::npos) { fr = (int)(m.size() - dot - 1); m.erase(dot, 1); }
  mpz_class num(m), ten; int k = ex - fr;
  mpz_ui_pow_ui(ten.get_mpz_t(), 10, std::abs(k));
  Q r = k >= 0 ? Q(num * ten) : Q(num, ten);
  r.canonicalize();
  return v < 0 ? -r : r;
}

static std::unordered_map<uint64_t, int> litCache;
static int toNode(const Real& r) {
  if (r.id > 0 && r.id < (int)N.size()) return r.id;
  if (r.id != 0) return special(UNINIT);
  uint64_t bits; memcpy(&bits, &r.c, 8);
  auto it = litCache.find(bits);
  if (it != litCache.end()) return it->second;
  int n;
  if (std::isnan(r.c)) n = special(NANN);
  else if (std::isinf(r.c)) n = special(r.c > 0 ? PINF : NINF);
  else n = mkConst(rationalise(r.c));
  litCache[bits] = n;
  return n;
}
static Real mkReal(int n) { return Real(0.0, n); }
static bool signNeg(int n);   // forks
// Sums and products are shared modulo associativity, commutativity and constant factors: every node has a
// linear form over non-sum nodes and every non-constant product a factor list; equal lists give the same node.
typedef vector<pair<int, int>> LinF;     // (node, constant node), sorted by node; node 0 is the constant term
static std::unordered_map<int, LinF> linOf;
static std::unordered_map<int, vector<int>> facOf;
struct VecHash { size_t operator()(const vector<int>& v) const { size_t h = v.size(); for (int x : v) { h ^= (size_t)x; h *= 1099511628211ull; h ^= h >> 31; } return h; } };
static std::unordered_map<vector<int>, int, VecHash> linTab, facTab;
static const size_t LIN_MAX = 80, FAC_MAX = 12;
static LinF linForm(int n) {
  auto it = linOf.find(n);
  if (it != linOf.end()) return it->second;
  if (isC(n)) return {{0, n}};
  if (N[n].op == MUL && isC(N[n].a)) return {{N[n].b, N[n].a}};
  return {{n, mkConst(Q(1))}};
}
static vector<int> linKey(const LinF& l) { vector<int> k; for (auto& x : l) { k.push_back(x.first); k.push_back(x.second); } return k; }
static int mul(int a, int b);
static int add(int a, int b) {
  if (nonfin(a) || nonfin(b)) {
    if (N[a].op == UNINIT || N[b].op == UNINIT) return special(UNINIT);
    if (N[a].op == NANN || N[b].op == NANN) return special(NANN);
    if (nonfin(a) && nonfin(b)) return a == b ? a : special(NANN);
    return nonfin(a) ? a : b;
  }
  if (isC(a) && isC(b)) return mkConst(cv(a) + cv(b));
  if (isC(a) && cv(a) == 0) return b;
  if (isC(b) && cv(b) == 0) return a;
  if (a > b) std::swap(a, b);
  LinF x = linForm(a), y = linForm(b), r; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { Q q = cv(x[i].second) + cv(y[j].second); if (q != 0) r.push_back({x[i].first, mkConst(q)}); i++; j++; }
  }
  if (r.empty()) return mkConst(Q(0));
  if (r.size() == 1) return r[0].first == 0 ? r[0].second : mul(r[0].second, r[0].first);
  if (r.size() > LIN_MAX) return mkNode(ADD, a, b);
  auto ins = linTab.emplace(linKey(r), 0);
  if (!ins.second) return ins.first->second;
  int n = mkNode(ADD, a, b); ins.first->second = n; linOf[n] = std::move(r);
  return n;
}
static bool isZeroNode(int n);
static int mul(int a, int b) {
  if (nonfin(a) || nonfin(b)) {
    if (N[a].op == UNINIT || N[b].op == UNINIT) return special(UNINIT);
    if (N[a].op == NANN || N[b].op == NANN) return special(NANN);
    if (!nonfin(a)) std::swap(a, b);
    bool neg = N[a].op == NINF;
    if (nonfin(b)) neg ^= N[b].op == NINF;
    else {
      if (isC(b)) { if (cv(b) == 0) return special(NANN); neg ^= cv(b) < 0; }
      else { if (mkReal(b) == Real(0)) return special(NANN); neg ^= signNeg(b); }
    }
    return special(neg ? NINF : PINF);
  }
  if (isC(a) && isC(b)) return mkConst(cv(a) * cv(b));
  if (isC(b)) std::swap(a, b);
  if (isC(a)) {
    if (cv(a) == 0) return a;
    if (cv(a) == 1) return b;
    if (N[b].op == MUL && isC(N[b].a)) return mul(mkConst(cv(a) * cv(N[b].a)), N[b].b);
    auto l = linOf.find(b);
    if (l == linOf.end()) return mkNode(MUL, a, b);
    LinF r = l->second; for (auto& x : r) x.second = mkConst(cv(x.second) * cv(a));
    auto ins = linTab.emplace(linKey(r), 0);
    if (!ins.second) return ins.first->second;
    int n = mkNode(MUL, a, b); ins.first->second = n; linOf[n] = std::move(r);
    return n;
  }
  Q c = 1;
  if (N[a].op == MUL && isC(N[a].a)) { c *= cv(N[a].a); a = N[a].b; }
  if (N[b].op == MUL && isC(N[b].a)) { c *= cv(N[b].a); b = N[b].b; }
  if (a > b) std::swap(a, b);
  int n;
  auto fa = facOf.find(a), fb = facOf.find(b);
  size_t na = fa == facOf.end() ? 1 : fa->second.size(), nb = fb == facOf.end() ? 1 : fb->second.size();
  if (na + nb > FAC_MAX) n = mkNode(MUL, a, b);
  else {
    vector<int> f; if (na == 1) f.push_back(a); else f = fa->second;
    if (nb == 1) f.push_back(b); else f.insert(f.end(), fb->second.begin(), fb->second.end());
    std::sort(f.begin(), f.end());
    auto ins = facTab.emplace(f, 0);
    if (ins.second) { n = mkNode(MUL, a, b); ins.first->second = n; facOf[n] = std::move(f); } else n = ins.first->second;
  }
  return c == 1 ? n : mul(mkConst(c), n);
}
static int negn(int a) { return mul(mkConst(Q(-1)), a); }
static int subn(int a, int b) { if (a == b && !nonfin(a)) return mkConst(Q(0)); return add(a, negn(b)); }

// ------------------------------------------------------------------ polynomials
typedef vector<uint32_t> Mono;      // sorted (var << 7 | exponent)
struct MonoHash { size_t operator()(const Mono& m) const { size_t h = 1469598103934665603ull; for (uint32_t x : m) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
typedef std::unordered_map<Mono, Q, MonoHash> Poly;
enum Kind { K_SYM, K_SQRT, K_SIN, K_COS, K_IV, K_MINV, K_FUN, K_CUT };
struct Var {
  Kind kind; string name; double lo = 0, hi = 0, wlo = 0, whi = 0;   // sampling range and the wider range the solver decides
  int argNode = 0;            // SQRT, SIN, COS: argument; IV with polynomial base: base; CUT: the node
  Poly argPoly;               // SQRT: argument; IV: base polynomial
  int pair = -1;              // SIN <-> COS
  int base = -1;              // IV: base variable or -1
  int iv = -1;                // variable that is the inverse of this one
  int mid = -1, mi = 0, mj = 0;
  vector<int> funArgs;
  bool sqrule = false; Poly sqPoly; int sqNode = 0;   // SYM with s*s == sqPoly
  int node = 0;
};
static vector<Var> V;
static const size_t CAP_TERMS = 60000;
static double g_mulBudget = 0;
struct CapExceeded {};
static inline uint32_t mv(uint32_t x) { return x >> 7; }
static inline uint32_t me(uint32_t x) { return x & 127; }
static bool pzero(const Poly& p) { return p.empty(); }
static Poly pconst(const Q& q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
static Poly pvar(int v, int e = 1) { Poly p; p[Mono{(uint32_t)v << 7 | (uint32_t)e}] = 1; return p; }
static void paddTo(Poly& p, const Mono& m, const Q& q) {
  auto r = p.emplace(m, q);
  if (!r.second) { r.first->second += q; if (r.first->second == 0) p.erase(r.first); }
}
static void paddScaled(Poly& p, const Poly& o, const Q& k) { for (auto& t : o) paddTo(p, t.first, t.second * k); }
static Poly padd(const Poly& a, const Poly& b) { Poly r = a; paddScaled(r, b, 1); return r; }
static Poly psub(const Poly& a, const Poly& b) { Poly r = a; paddScaled(r, b, -1); return r; }
static Poly pscale(const Poly& a, const Q& k) { Poly r; if (k == 0) return r; for (auto& t : a) r[t.first] = t.second * k; return r; }
static Mono mmul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && mv(a[i]) < mv(b[j]))) r.push_back(a[i++]);
    else if (i == a.size() || mv(b[j]) < mv(a[i])) r.push_back(b[j++]);
    else { uint32_t e = me(a[i]) + me(b[j]); if (e > 126) throw CapExceeded(); r.push_back(mv(a[i]) << 7 | e); i++; j++; }
  }
  return r;
}
static uint32_t mexp(const Mono& m, int v) { for (uint32_t x : m) if ((int)mv(x) == v) return me(x); return 0; }
static Mono mset(const Mono& m, int v, uint32_t e) {
  Mono r; bool done = false;
  for (uint32_t x : m) { if ((int)mv(x) == v) { if (e) r.push_back((uint32_t)v << 7 | e); done = true; } else { if (!done && (int)mv(x) > v) { if (e) r.push_back((uint32_t)v << 7 | e); done = true; } r.push_back(x); } }
  if (!done && e) r.push_back((uint32_t)v << 7 | e);
  return r;
}
// relation g_v of variable v, as polynomial that vanishes
static Poly relation(int v) {
  Var& x = V[v];
  if (x.kind == K_SQRT) return psub(pvar(v, 2), x.argPoly);
  if (x.kind == K_COS) return psub(padd(pvar(v, 2), pvar(x.pair, 2)), pconst(1));
  if (x.kind == K_IV) { Poly p = x.base >= 0 ? pvar(x.base) : x.argPoly; Poly r; for (auto& t : p) paddTo(r, mmul(t.first, Mono{(uint32_t)v << 7 | 1}), t.second); paddTo(r, Mono(), -1); return r; }
  if (x.sqrule) return psub(pvar(v, 2), x.sqPoly);
  return Poly();
}
typedef map<int, Poly> Cof;       // relation variable -> cofactor
static void cofAdd(Cof* c, int v, const Mono& m, const Q& q) { if (c) paddTo((*c)[v], m, q); }
// reduces p modulo the monomial rules; records p_old = p_new + sum cof_v * g_v
static void reducePoly(Poly& p, Cof* cof) {
  vector<pair<Mono, Q>> work; Poly out;
  auto reducible = [&](const Mono& m) -> int {
    for (uint32_t x : m) {
      Var& v = V[mv(x)];
      if (v.kind == K_SQRT || v.kind == K_COS || v.sqrule) { if (me(x) >= 2) return (int)mv(x); }
      if (v.kind == K_IV && v.base >= 0 && mexp(m, v.base)) return (int)mv(x);
    }
    return -1;
  };
  bool any = false;
  for (auto& t : p) if (reducible(t.first) >= 0) { any = true; break; }
  if (!any) return;
  // process through a map so that equal monomials merge before they are reduced further
  Poly cur = std::move(p), next;
  long guard = 0;
  while (!cur.empty()) {
    next.clear();
    for (auto& t : cur) {
      int v = reducible(t.first);
      if (v < 0) { paddTo(out, t.first, t.second); continue; }
      if (++guard > 3000000) throw CapExceeded();
      Var& x = V[v]; uint32_t e = mexp(t.first, v);
      if (x.kind == K_IV) {
        // iv*b -> 1 ; lead monomial iv*b, g = iv*b - 1
        uint32_t eb = mexp(t.first, x.base);
        Mono rest = mset(mset(t.first, v, e - 1), x.base, eb - 1);
        cofAdd(cof, v, rest, t.second);
        paddTo(next, rest, t.second);
      } else {
        Mono rest = mset(t.first, v, e - 2);
        cofAdd(cof, v, rest, t.second);
        if (x.kind == K_COS) { paddTo(next, rest, t.second); paddTo(next, mmul(rest, Mono{(uint32_t)x.pair << 7 | 2}), -t.second); }
        else { const Poly& ap = x.kind == K_SQRT ? x.argPoly : x.sqPoly; for (auto& u : ap) paddTo(next, mmul(rest, u.first), t.second * u.second); }
      }
      if (out.size() + next.size() > 4 * CAP_TERMS) throw CapExceeded();
    }
    cur.swap(next);
  }
  p = std::move(out);
}
static Poly pmulRaw(const Poly& a, const Poly& b) {
  if ((double)a.size() * b.size() > 3e6) throw CapExceeded();
  Poly r; r.reserve(std::min((size_t)CAP_TERMS, a.size() * b.size()));
  for (auto& x : a) for (auto& y : b) paddTo(r, mmul(x.first, y.first), x.second * y.second);
  if (r.size() > CAP_TERMS) throw CapExceeded();
  return r;
}
static Poly pmul(const Poly& a, const Poly& b, Cof* cof = nullptr) { Poly r = pmulRaw(a, b); reducePoly(r, cof); if (r.size() > CAP_TERMS) throw CapExceeded(); return r; }
static Poly ppow(const Poly& a, int e) { Poly r = pconst(1); for (int i = 0; i < e; i++) r = pmul(r, a); return r; }
static string pkey(const Poly& p) {
  vector<pair<Mono, const Q*>> t; for (auto& x : p) t.push_back({x.first, &x.second});
  std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first < b.first; });
  string s; for (auto& x : t) { for (uint32_t m : x.first) { s += std::to_string(m); s += '.'; } s += ':'; s += x.second->get_str(36); s += ';'; }
  return s;
}
static const pair<const Mono, Q>& plead(const Poly& p) {
  auto best = p.begin();
  for (auto it = p.begin(); it != p.end(); ++it) if (best->first < it->first) best = it;
  return *best;
}
static int nodeOfVar(int v) { if (!V[v].node) V[v].node = mkNode(VAR, v, 0); return V[v].node; }
static int nodeOfPoly(const Poly& p) {
  vector<pair<Mono, Q>> t(p.begin(), p.end());
  std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first < b.first; });
  int r = mkConst(0);
  for (auto& x : t) {
    int m = mkConst(x.second);
    for (uint32_t u : x.first) for (uint32_t k = 0; k < me(u); k++) m = mul(m, nodeOfVar(mv(u)));
    r = add(r, m);
  }
  return r;
}
struct PolyEntry { bool ok = false, cap = false; Poly p; Cof cof; };
struct PolyCtx {
  std::unordered_map<int, PolyEntry> memo;
  std::unordered_map<int, int> cut;     // node -> CUT var
  size_t limit = CAP_TERMS;
  const PolyEntry& get(int n) {
    // iterative post-order
    vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      auto it = memo.find(x);
      if (it != memo.end()) { st.pop_back(); continue; }
      const Node nd = N[x];
      auto c = cut.find(x);
      if (c != cut.end()) { PolyEntry e; e.ok = true; e.p = pvar(c->second); memo[x] = std::move(e); st.pop_back(); continue; }
      if (nd.op == CONST) { PolyEntry e; e.ok = true; e.p = pconst(cv(x)); memo[x] = std::move(e); st.pop_back(); continue; }
      if (nd.op == VAR) { PolyEntry e; e.ok = true; e.p = pvar(nd.a); memo[x] = std::move(e); st.pop_back(); continue; }
      if (nd.op >= NANN) { PolyEntry e; e.cap = true; memo[x] = std::move(e); st.pop_back(); continue; }
      auto ia = memo.find(nd.a), ib = memo.find(nd.b);
      if (ia == memo.end()) { st.push_back(nd.a); if (ib == memo.end() && nd.b != nd.a) st.push_back(nd.b); continue; }
      if (ib == memo.end()) { st.push_back(nd.b); continue; }
      PolyEntry e;
      if (ia->second.cap || ib->second.cap) e.cap = true;
      else try {
        if (nd.op == MUL && limit < CAP_TERMS && (double)ia->second.p.size() * ib->second.p.size() > 40.0 * limit) throw CapExceeded();
        if (nd.op == ADD) e.p = padd(ia->second.p, ib->second.p);
        else e.p = pmul(ia->second.p, ib->second.p, &e.cof);
        if (e.p.size() > limit) throw CapExceeded();
        e.ok = true;
      } catch (CapExceeded&) { e.cap = true; e.p.clear(); e.cof.clear(); }
      memo[x] = std::move(e);
      st.pop_back();
    }
    return memo[n];
  }
};
static PolyCtx G;
static bool isZeroNode(int n) { if (nonfin(n)) return false; auto& e = G.get(n); return e.ok && e.p.empty(); }

// ------------------------------------------------------------------ atoms
static map<string, int> atomTab;
static map<string, int> symTab;
static int newVar(Kind k, const string& name) { Var v; v.kind = k; v.name = name; V.push_back(v); return (int)V.size() - 1; }
static string ckey(int node) {     // canonical key of a value
  if (nonfin(node)) return "#" + std::to_string(node);
  auto& e = G.get(node);
  if (e.ok) return pkey(e.p);
  return "n" + std::to_string(node);
}
static int ivVar(int v) {
  if (V[v].kind == K_IV && V[v].base >= 0) return V[v].base;
  if (V[v].iv >= 0) return V[v].iv;
  int w = newVar(K_IV, "inv(" + V[v].name + ")");
  V[w].base = v; V[v].iv = w; V[w].argNode = nodeOfVar(v);
  return w;
}
static mpz_class gcdz(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Q content(const Poly& p) {   // positive rational c with p/c primitive
  mpz_class g = 0, l = 1;
  for (auto& t : p) { g = gcdz(g, t.second.get_num()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den().get_mpz_t()); }
  Q r(g, l); r.canonicalize(); return r;
}
static Mono monoGcd(const Poly& p) {
  bool first = true; Mono g;
  for (auto& t : p) {
    if (first) { g = t.first; first = false; continue; }
    Mono r; for (uint32_t x : g) { uint32_t e = std::min(me(x), mexp(t.first, mv(x))); if (e) r.push_back(mv(x) << 7 | e); }
    g = r; if (g.empty()) break;
  }
  return g;
}
static Poly pdivMono(const Poly& p, const Mono& m) { Poly r; for (auto& t : p) { Mono k = t.first; for (uint32_t x : m) k = mset(k, mv(x), mexp(k, mv(x)) - me(x)); r[k] = t.second; } return r; }
static bool perfectSquare(const Q& q, Q& r) {
  if (q < 0) return false;
  if (!mpz_perfect_square_p(q.get_num().get_mpz_t()) || !mpz_perfect_square_p(q.get_den().get_mpz_t())) return false;
  mpz_class a, b; mpz_sqrt(a.get_mpz_t(), q.get_num().get_mpz_t()); mpz_sqrt(b.get_mpz_t(), q.get_den().get_mpz_t());
  r = Q(a, b); return true;
}
static int invn(int n) {
  if (N[n].op == UNINIT || N[n].op == NANN) return n;
  if (nonfin(n)) return mkConst(0);
  if (isC(n)) { if (cv(n) == 0) return special(PINF); return mkConst(1 / cv(n)); }
  auto& e = G.get(n);
  if (!e.ok) {
    string k = "iv:n" + std::to_string(n);
    auto it = atomTab.find(k);
    if (it != atomTab.end()) return nodeOfVar(it->second);
    throw Unsupported{"division by an expression too large to normalise"};
  }
  if (e.p.empty()) return special(PINF);
  Poly p = e.p;
  Q c = content(p);
  if (plead(p).second < 0) c = -c;
  p = pscale(p, 1 / c);
  Mono g = monoGcd(p);
  int r = mkConst(1 / c);
  for (uint32_t x : g) for (uint32_t k = 0; k < me(x); k++) r = mul(r, nodeOfVar(ivVar(mv(x))));
  if (!g.empty()) p = pdivMono(p, g);
  if (p.size() == 1 && p.begin()->first.empty()) return mul(r, mkConst(1 / p.begin()->second));
  string k = "iv:" + pkey(p);
  auto it = atomTab.find(k);
  int v;
  if (it != atomTab.end()) v = it->second;
  else {
    v = newVar(K_IV, "inv#" + std::to_string(V.size())); V[v].argPoly = p; V[v].argNode = nodeOfPoly(p); atomTab[k] = v;
  }
  return mul(r, nodeOfVar(v));
}
static bool nonneg(int v) {
  Var& x = V[v];
  if (x.kind == K_SYM) return x.wlo >= 0;
  if (x.kind == K_SQRT) return true;
  if (x.kind == K_IV && x.base >= 0) return nonneg(x.base);
  return false;
}
static int sqrtn(int n) {
  if (N[n].op == UNINIT || N[n].op == NANN) return n;
  if (N[n].op == PINF) return n;
  if (N[n].op == NINF) return special(NANN);
  auto& e = G.get(n);
  if (!e.ok) throw Unsupported{"square root of an expression too large to normalise"};
  Poly p = e.p;
  if (p.empty()) return mkConst(0);
  if (p.size() == 1 && p.begin()->first.empty()) {
    if (p.begin()->second < 0) return special(NANN);
    Q r; if (perfectSquare(p.begin()->second, r)) return mkConst(r);
  }
  Q c = content(p), r;
  int front = mkConst(1);
  if (perfectSquare(c, r)) { p = pscale(p, 1 / c); front = mkConst(r); }
  Mono g = monoGcd(p), h;
  for (uint32_t x : g) {
    uint32_t e2 = me(x) / 2 * 2;
    if (!e2) continue;
    h.push_back(mv(x) << 7 | e2);
    int nv = nodeOfVar(mv(x));
    if ((e2 / 2) % 2 == 1 && !nonneg(mv(x)) && signNeg(nv)) nv = negn(nv);
    for (uint32_t k = 0; k < e2 / 2; k++) front = mul(front, nv);
  }
  if (!h.empty()) p = pdivMono(p, h);
  if (p.size() == 1 && p.begin()->first.empty()) {
    Q q; if (perfectSquare(p.begin()->second, q)) return mul(front, mkConst(q));
  }
  string k = "sqrt:" + pkey(p);
  auto it = atomTab.find(k);
  int v;
  if (it != atomTab.end()) v = it->second;
  else { v = newVar(K_SQRT, "sqrt#" + std::to_string(V.size())); V[v].argPoly = p; V[v].argNode = nodeOfPoly(p); atomTab[k] = v; }
  return mul(front, nodeOfVar(v));
}
static pair<int, int> sincosUnit(const Poly& u) {   // nodes of sin, cos
  string k = "trig:" + pkey(u);
  auto it = atomTab.find(k);
  int s;
  if (it != atomTab.end()) s = it->second;
  else {
    int an = nodeOfPoly(u);
    s = newVar(K_SIN, "sin#" + std::to_string(V.size()));
    int c = newVar(K_COS, "cos#" + std::to_string(V.size()));
    V[s].argNode = V[c].argNode = an; V[s].argPoly = V[c].argPoly = u; V[s].pair = c; V[c].pair = s; atomTab[k] = s;
  }
  return {nodeOfVar(s), nodeOfVar(V[s].pair)};
}
static pair<int, int> sincosMult(int n, pair<int, int> sc) {
  if (n == 1) return sc;
  auto r = sincosMult(n - 1, sc);
  return {add(mul(r.first, sc.second), mul(r.second, sc.first)), subn(mul(r.second, sc.second), mul(r.first, sc.first))};
}
static pair<int, int> sincosn(int n) {
  if (nonfin(n)) { int r = N[n].op == UNINIT ? n : special(NANN); return {r, r}; }
  auto& e = G.get(n);
  if (!e.ok) throw Unsupported{"trigonometric function of an expression too large to normalise"};
  if (e.p.empty()) return {mkConst(0), mkConst(1)};
  vector<pair<Mono, Q>> terms(e.p.begin(), e.p.end());
  std::sort(terms.begin(), terms.end(), [](auto& a, auto& b) { return a.first < b.first; });
  int S = mkConst(0), Cc = mkConst(1);
  if (terms.size() > 4) {      // no expansion: one unit, sign-normalised
    Poly u = e.p; bool neg = plead(u).second < 0; if (neg) u = pscale(u, -1);
    auto sc = sincosUnit(u); return {neg ? negn(sc.first) : sc.first, sc.second};
  }
  for (auto& t : terms) {
    Q q = t.second; bool neg = q < 0; if (neg) q = -q;
    long num = q.get_num().fits_slong_p() ? q.get_num().get_si() : 99;
    if (num > 6) num = 1; else q /= num;
    Poly u; u[t.first] = q;
    auto sc = sincosMult((int)num, sincosUnit(u));
    int s = neg ? negn(sc.first) : sc.first, c = sc.second;
    int S2 = add(mul(S, c), mul(Cc, s)), C2 = subn(mul(Cc, c), mul(S, s));
    S = S2; Cc = C2;
  }
  return {S, Cc};
}
static int funn(const string& f, const vector<int>& args) {
  for (int a : args) if (nonfin(a)) return N[a].op == UNINIT ? a : special(NANN);
  string k = "fun:" + f; for (int a : args) k += "|" + ckey(a);
  auto it = atomTab.find(k);
  if (it != atomTab.end()) return nodeOfVar(it->second);
  int v = newVar(K_FUN, f); V[v].funArgs = args; atomTab[k] = v;
  return nodeOfVar(v);
}
struct MatInv { int n; vector<int> a; bool sym; };
static vector<MatInv> mats;

vector<Real> matinv(const vector<Real>& m, int n) {
  vector<int> a; for (auto& x : m) a.push_back(toNode(x));
  for (int x : a) if (nonfin(x)) return vector<Real>(n * n, mkReal(N[x].op == UNINIT ? x : special(NANN)));
  bool allc = true;
  vector<Q> cq(n * n);
  for (int i = 0; i < n * n; i++) { auto& e = G.get(a[i]); if (e.ok && (e.p.empty() || (e.p.size() == 1 && e.p.begin()->first.empty()))) cq[i] = e.p.empty() ? Q(0) : e.p.begin()->second; else allc = false; }
  vector<Real> out(n * n);
  if (allc) {
    vector<Q> b(n * n, Q(0)); for (int i = 0; i < n; i++) b[i * n + i] = 1;
    for (int c = 0; c < n; c++) {
      int p = -1; for (int r = c; r < n; r++) if (cq[r * n + c] != 0) { p = r; break; }
      if (p < 0) return vector<Real>(n * n, mkReal(special(NANN)));
      for (int j = 0; j < n; j++) { std::swap(cq[p * n + j], cq[c * n + j]); std::swap(b[p * n + j], b[c * n + j]); }
      Q d = cq[c * n + c]; for (int j = 0; j < n; j++) { cq[c * n + j] /= d; b[c * n + j] /= d; }
      for (int r = 0; r < n; r++) if (r != c) { Q f = cq[r * n + c]; if (f != 0) for (int j = 0; j < n; j++) { cq[r * n + j] -= f * cq[c * n + j]; b[r * n + j] -= f * b[c * n + j]; } }
    }
    for (int i = 0; i < n * n; i++) out[i] = mkReal(mkConst(b[i]));
    return out;
  }
  vector<string> ks; for (int x : a) ks.push_back(ckey(x));
  string z = pkey(Poly());
  bool diag = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && ks[i * n + j] != z) diag = false;
  if (n == 1 || diag) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) out[i * n + j] = i == j ? mkReal(invn(a[i * n + i])) : Real(0); return out; }
  if (n >= 3) {   // [R A; 0 I] with R orthonormal: the inverse is [R^T -R^T A; 0 I]
    string one = ckey(mkConst(1)); bool rigid = true;
    for (int i = 3; i < n && rigid; i++) for (int j = 0; j < n; j++) if (ks[i * n + j] != (i == j ? one : z)) { rigid = false; break; }
    for (int i = 0; i < 3 && rigid; i++) for (int j = 0; j <= i; j++) { int d = mkConst(0); for (int m = 0; m < 3; m++) d = add(d, mul(a[i * n + m], a[j * n + m])); if (ckey(d) != (i == j ? one : z)) { rigid = false; break; } }
    if (rigid) {
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (i >= 3) { out[i * n + j] = Real(i == j ? 1 : 0); continue; }
        if (j < 3) { out[i * n + j] = m[j * n + i]; continue; }
        int d = mkConst(0); for (int k = 0; k < 3; k++) d = add(d, mul(a[k * n + i], a[k * n + j])); out[i * n + j] = mkReal(negn(d));
      }
      return out;
    }
  }
  bool sy = true; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (ks[i * n + j] != ks[j * n + i]) sy = false;
  string k = "minv" + std::to_string(n); for (auto& s : ks) k += "|" + s;
  auto it = atomTab.find(k);
  int mid;
  if (it != atomTab.end()) mid = it->second;
  else {
    mid = (int)mats.size(); mats.push_back({n, a, sy}); atomTab[k] = mid;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
      if (sy && j < i) continue;
      int v = newVar(K_MINV, "Minv" + std::to_string(mid) + "_" + std::to_string(i) + std::to_string(j));
      V[v].mid = mid; V[v].mi = i; V[v].mj = j; atomTab["minvvar" + std::to_string(mid) + "_" + std::to_string(i) + "_" + std::to_string(j)] = v;
    }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    int x = i, y = j; if (mats[mid].sym && y < x) std::swap(x, y);
    out[i * n + j] = mkReal(nodeOfVar(atomTab["minvvar" + std::to_string(mid) + "_" + std::to_string(x) + "_" + std::to_string(y)]));
  }
  return out;
}

// ------------------------------------------------------------------ operators
Real rt_add(const Real& a, const Real& b) { return mkReal(add(toNode(a), toNode(b))); }
Real rt_sub(const Real& a, const Real& b) { return mkReal(subn(toNode(a), toNode(b))); }
Real rt_mul(const Real& a, const Real& b) { return mkReal(mul(toNode(a), toNode(b))); }
Real rt_div(const Real& a, const Real& b) {
  int x = toNode(a), y = toNode(b);
  if (!nonfin(y) && isZeroNode(y)) {
    if (nonfin(x)) return mkReal(N[x].op == UNINIT || N[x].op == NANN ? x : x);
    if (isZeroNode(x)) return mkReal(special(NANN));
    if (isC(x)) return mkReal(special(cv(x) < 0 ? NINF : PINF));
    if (mkReal(x) == Real(0)) return mkReal(special(NANN));
    return mkReal(special(signNeg(x) ? NINF : PINF));
  }
  if (nonfin(x) && !nonfin(y)) { if (N[x].op == UNINIT || N[x].op == NANN) return mkReal(x); return mkReal(mul(x, y)); }
  if (nonfin(x) && nonfin(y)) return mkReal(N[x].op == UNINIT || N[y].op == UNINIT ? special(UNINIT) : special(NANN));
  return mkReal(mul(x, invn(y)));
}
Real rt_neg(const Real& a) { return mkReal(negn(toNode(a))); }
Real& Real::operator+=(const Real& o) { return *this = *this + o; }
Real& Real::operator-=(const Real& o) { return *this = *this - o; }
Real& Real::operator*=(const Real& o) { return *this = *this * o; }
Real& Real::operator/=(const Real& o) { return *this = *this / o; }
Real sqrt(const Real& a) { return mkReal(sqrtn(toNode(a))); }
Real sin(const Real& a) { return mkReal(sincosn(toNode(a)).first); }
Real cos(const Real& a) { return mkReal(sincosn(toNode(a)).second); }
Real tan(const Real& a) { return sin(a) / cos(a); }
#define SX_F1(f) Real f(const Real& a) { return mkReal(funn(#f, {toNode(a)})); }
SX_F1(asin) SX_F1(acos) SX_F1(atan) SX_F1(exp) SX_F1(log) SX_F1(sinh) SX_F1(cosh) SX_F1(tanh)
Real atan2(const Real& a, const Real& b) { return mkReal(funn("atan2", {toNode(a), toNode(b)})); }
Real pow(const Real& a, const Real& b) {
  int n = toNode(b);
  if (nonfin(n)) return mkReal(n);
  auto& e = G.get(n);
  if (e.ok && (e.p.empty() || (e.p.size() == 1 && e.p.begin()->first.empty()))) {
    Q q = e.p.empty() ? Q(0) : e.p.begin()->second;
    if (q.get_den() == 2) { Real r = sqrt(a); return pow(r, Real((int)mpz_get_si(q.get_num().get_mpz_t()))); }
    if (q.get_den() == 1 && abs(q) < 64) {
      int k = (int)q.get_num().get_si(); Real r(1); for (int i = 0; i < std::abs(k); i++) r = r * a;
      return k < 0 ? Real(1) / r : r;
    }
  }
  return mkReal(funn("pow", {toNode(a), n}));
}
static bool decide(int op, int a, int b);   // 0 lt, 1 le, 2 eq
static bool signNeg(int n) { return decide(0, n, mkConst(0)); }
Real abs(const Real& a) { int n = toNode(a); if (N[n].op == NANN || N[n].op == UNINIT) return mkReal(n); if (N[n].op == NINF) return mkReal(special(PINF)); return signNeg(n) ? -a : a; }
bool isnan(const Real& a) { return N[toNode(a)].op == NANN; }
bool isinf(const Real& a) { int n = toNode(a); return N[n].op == PINF || N[n].op == NINF; }
static const Q* constOf(int n) {
  static Q zero(0);
  if (nonfin(n)) return nullptr;
  if (isC(n)) return &cv(n);
  auto& e = G.get(n);
  if (!e.ok) return nullptr;
  if (e.p.empty()) return &zero;
  if (e.p.size() == 1 && e.p.begin()->first.empty()) return &e.p.begin()->second;
  return nullptr;
}
dbl Real::concrete() const { const Q* q = constOf(toNode(*this)); if (!q) throw Unsupported{"conversion of a symbolic value to a machine number"}; return q->get_d(); }
Real f32(const Real& a) {
  int n = toNode(a); if (nonfin(n)) return mkReal(n);
  if (const Q* q = constOf(n)) { double f = (double)(float)q->get_d(); return f == q->get_d() ? mkReal(n) : mkReal(toNode(Real(f))); }
  return mkReal(funn("f32", {n}));
}
bool Real::conv(bool*) const { return *this != Real(0); }
Real floor(const Real& a) { const Q* q = constOf(toNode(a)); if (!q) return mkReal(funn("floor", {toNode(a)})); mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q->get_num().get_mpz_t(), q->get_den().get_mpz_t()); return mkReal(mkConst(Q(r))); }
bool operator<(const Real& a, const Real& b) { return decide(0, toNode(a), toNode(b)); }
bool operator<=(const Real& a, const Real& b) { return decide(1, toNode(a), toNode(b)); }
bool operator>(const Real& a, const Real& b) { return decide(0, toNode(b), toNode(a)); }
bool operator>=(const Real& a, const Real& b) { return decide(1, toNode(b), toNode(a)); }
bool operator==(const Real& a, const Real& b) { return decide(2, toNode(a), toNode(b)); }
bool operator!=(const Real& a, const Real& b) { return !decide(2, toNode(a), toNode(b)); }
string show(const Real& r) {
  int n = toNode(r);
  if (isC(n)) { char b[64]; snprintf(b, sizeof b, "%.17g", cv(n).get_d()); if (rationalise(strtod(b, 0)) == cv(n)) return b; }
  if (N[n].op == NANN) return "nan"; if (N[n].op == PINF) return "inf"; if (N[n].op == NINF) return "-inf";
  return "@" + std::to_string(n) + "@";
}
// text output: a stream with fewer than 15 significant digits loses information (modelled as a rounding function)
std::ostream& operator<<(std::ostream& os, const Real& r) {
  int p = (int)os.precision(), n = toNode(r); if (p >= 15 || &os == &std::cout || &os == &std::cerr || &os == &std::clog) return os << show(r);
  if (isC(n)) { char b[64]; snprintf(b, sizeof b, "%.*g", p, cv(n).get_d()); return os << b; }
  return os << show(mkReal(funn("round" + std::to_string(p), {n})));
}
Real parse_real(const string& t) {
  if (!t.empty() && t[0] == '@') return mkReal(atoi(t.c_str() + 1));
  return Real(strtod(t.c_str(), 0));
}
std::istream& operator>>(std::istream& is, Real& r) { string s; if (is >> s) r = parse_real(s); return is; }

// ------------------------------------------------------------------ conditions
enum COp { C_LT, C_LE, C_EQ, C_AND, C_OR, C_NOT, C_TRUE, C_FALSE };
struct CN { COp op; int a, b; };
static vector<CN> CNs;
static map<std::tuple<int,int,int>, int> ctabc;
static int mkCond(COp op, int a = 0, int b = 0) {
  auto k = std::make_tuple((int)op, a, b); auto it = ctabc.find(k); if (it != ctabc.end()) return it->second;
  CNs.push_back({op, a, b}); return ctabc[k] = (int)CNs.size() - 1;
}
static int cmpCond(COp op, int a, int b) {
  if (nonfin(a) || nonfin(b)) {
    if (N[a].op == UNINIT || N[b].op == UNINIT || N[a].op == NANN || N[b].op == NANN) return mkCond(C_FALSE);
    auto val = [](int n) { return N[n].op == PINF ? 1 : N[n].op == NINF ? -1 : 0; };
    int x = val(a), y = val(b);
    bool r = op == C_LT ? x < y : op == C_LE ? x <= y : (x == y);
    return mkCond(r ? C_TRUE : C_FALSE);
  }
  const Q* q = constOf(subn(a, b));
  if (q) { bool r = op == C_LT ? *q < 0 : op == C_LE ? *q <= 0 : *q == 0; return mkCond(r ? C_TRUE : C_FALSE); }
  return mkCond(op, a, b);
}
Cond lt(const Real& a, const Real& b) { return {cmpCond(C_LT, toNode(a), toNode(b))}; }
Cond le(const Real& a, const Real& b) { return {cmpCond(C_LE, toNode(a), toNode(b))}; }
Cond eq(const Real& a, const Real& b) { return {cmpCond(C_EQ, toNode(a), toNode(b))}; }
Cond C(bool b) { return {mkCond(b ? C_TRUE : C_FALSE)}; }
Cond Not(Cond a) { if (CNs[a.id].op == C_TRUE) return C(false); if (CNs[a.id].op == C_FALSE) return C(true); if (CNs[a.id].op == C_NOT) return {CNs[a.id].a}; return {mkCond(C_NOT, a.id)}; }
Cond ne(const Real& a, const Real& b) { return Not(eq(a, b)); }
Cond And(Cond a, Cond b) { if (CNs[a.id].op == C_FALSE || CNs[b.id].op == C_TRUE) return a; if (CNs[b.id].op == C_FALSE || CNs[a.id].op == C_TRUE) return b; return {mkCond(C_AND, a.id, b.id)}; }
Cond Or(Cond a, Cond b) { if (CNs[a.id].op == C_TRUE || CNs[b.id].op == C_FALSE) return a; if (CNs[b.id].op == C_TRUE || CNs[a.id].op == C_FALSE) return b; return {mkCond(C_OR, a.id, b.id)}; }

// ------------------------------------------------------------------ numeric evaluation
typedef __float128 Num;
static Num nsqrt(Num x) { return x > 0 ? sqrtq(x) : (Num)0; }
static Num znum(const mpz_class& z) {
  if (z.fits_slong_p()) return (Num)z.get_si();
  size_t bits = mpz_sizeinbase(z.get_mpz_t(), 2); long sh = bits > 118 ? (long)bits - 118 : 0;
  mpz_class t = abs(z) >> sh; Num r = 0; mpz_class lo = t & mpz_class("18446744073709551615"), hi = t >> 64;
  r = (Num)hi.get_ui() * 18446744073709551616.0Q + (Num)lo.get_ui();
  r = scalbnq(r, (int)sh); return z < 0 ? -r : r;
}
static Num qnum(const Q& q) { return znum(q.get_num()) / znum(q.get_den()); }
static void rigidLog(const double* T, double* L);
struct Eval {
  std::unordered_map<int, double> vals;   // SYM var -> value
  std::unordered_map<int, Num> memo;
  map<int, vector<Num>> minv;
  Num var(int v);
  Num node(int n) {
    vector<int> st{n};
    while (!st.empty()) {
      int x = st.back();
      if (memo.count(x)) { st.pop_back(); continue; }
      const Node& nd = N[x];
      switch (nd.op) {
        case CONST: memo[x] = qnum(cv(x)); st.pop_back(); break;
        case VAR: { Num r = var(nd.a); memo[x] = r; st.pop_back(); break; }
        case ADD: case MUL: {
          auto ia = memo.find(nd.a); if (ia == memo.end()) { st.push_back(nd.a); break; }
          auto ib = memo.find(nd.b); if (ib == memo.end()) { st.push_back(nd.b); break; }
          Num r = nd.op == ADD ? ia->second + ib->second : ia->second * ib->second;
          memo[x] = r; st.pop_back(); break;
        }
        case PINF: memo[x] = INFINITY; st.pop_back(); break;
        case NINF: memo[x] = -INFINITY; st.pop_back(); break;
        default: memo[x] = NAN; st.pop_back();
      }
    }
    return memo[n];
  }
  bool cond(int c, double* margin = nullptr) {
    const CN& x = CNs[c];
    switch (x.op) {
      case C_LT: { Num d = node(x.a) - node(x.b); if (margin) *margin = std::min(*margin, std::fabs((double)d)); return d < 0; }
      case C_LE: { Num d = node(x.a) - node(x.b); if (margin && d != 0) *margin = std::min(*margin, std::fabs((double)d)); return d <= 0; }
      case C_EQ: return node(x.a) == node(x.b);
      case C_AND: return cond(x.a, margin) && cond(x.b, margin);
      case C_OR: return cond(x.a, margin) || cond(x.b, margin);
      case C_NOT: return !cond(x.a, margin);
      case C_TRUE: return true;
      default: return false;
    }
  }
};
Num Eval::var(int v) {
  Var& x = V[v];
  switch (x.kind) {
    case K_SYM: { if (x.sqrule) return nsqrt(node(x.sqNode)); auto it = vals.find(v); return it == vals.end() ? (Num)(0.5 * (x.lo + x.hi)) : (Num)it->second; }
    case K_SQRT: return nsqrt(node(x.argNode));
    case K_SIN: return sinq(node(x.argNode));
    case K_COS: return cosq(node(x.argNode));
    case K_IV: return 1 / node(x.argNode);
    case K_CUT: return node(x.argNode);
    case K_MINV: {
      auto it = minv.find(x.mid);
      if (it == minv.end()) {
        MatInv& m = mats[x.mid]; int n = m.n; vector<Num> a(n * n), b(n * n, 0);
        for (int i = 0; i < n * n; i++) a[i] = node(m.a[i]);
        for (int i = 0; i < n; i++) b[i * n + i] = 1;
        for (int c = 0; c < n; c++) {
          int p = c; for (int r = c; r < n; r++) if (fabsq(a[r * n + c]) > fabsq(a[p * n + c])) p = r;
          for (int j = 0; j < n; j++) { std::swap(a[p * n + j], a[c * n + j]); std::swap(b[p * n + j], b[c * n + j]); }
          Num d = a[c * n + c]; for (int j = 0; j < n; j++) { a[c * n + j] /= d; b[c * n + j] /= d; }
          for (int r = 0; r < n; r++) if (r != c) { Num f = a[r * n + c]; for (int j = 0; j < n; j++) { a[r * n + j] -= f * a[c * n + j]; b[r * n + j] -= f * b[c * n + j]; } }
        }
        it = minv.emplace(x.mid, b).first;
      }
      return it->second[x.mi * mats[x.mid].n + x.mj];
    }
    case K_FUN: {
      double a = (double)node(x.funArgs[0]), b = x.funArgs.size() > 1 ? (double)node(x.funArgs[1]) : 0;
      const string& f = x.name;
      if (f == "asin") return std::asin(a); if (f == "acos") return std::acos(a); if (f == "atan") return std::atan(a);
      if (f == "exp") return std::exp(a); if (f == "log") return std::log(a); if (f == "sinh") return std::sinh(a);
      if (f == "cosh") return std::cosh(a); if (f == "tanh") return std::tanh(a); if (f == "atan2") return std::atan2(a, b);
      if (f == "pow") return std::pow(a, b);
      if (f == "f32") return (double)(float)a;
      if (f == "floor") return floorq(node(x.funArgs[0]));
      if (f.compare(0, 8, "rigidlog") == 0) { double T[16], L[16]; for (int i = 0; i < 16; i++) T[i] = (double)node(x.funArgs[i]); rigidLog(T, L); return L[atoi(f.c_str() + 8)]; }
      if (f.compare(0, 5, "round") == 0) { char t[64]; snprintf(t, sizeof t, "%.*g", atoi(f.c_str() + 5), a); return strtod(t, 0); }
      return NAN;
    }
  }
  return NAN;
}

// ------------------------------------------------------------------ z3
static z3::context* zc;
static std::unordered_map<int, z3::expr>* zmemo;
static double g_solverTime = 0; static long g_queries = 0, g_unsat = 0, g_sat = 0, g_unknown = 0;
static z3::expr zq(const Q& q) { return zc->real_val(q.get_str().c_str()); }
static z3::expr zvar(int v) { return zc->real_const(("v" + std::to_string(v)).c_str()); }
static z3::expr znode(int n) {
  vector<int> st{n};
  while (!st.empty()) {
    int x = st.back();
    if (zmemo->count(x)) { st.pop_back(); continue; }
    const Node& nd = N[x];
    if (nd.op == CONST) { zmemo->emplace(x, zq(cv(x))); st.pop_back(); continue; }
    if (nd.op == VAR) { zmemo->emplace(x, zvar(nd.a)); st.pop_back(); continue; }
    if (nd.op >= NANN) { zmemo->emplace(x, zc->real_const(("nonfinite" + std::to_string(x)).c_str())); st.pop_back(); continue; }
    auto ia = zmemo->find(nd.a); if (ia == zmemo->end()) { st.push_back(nd.a); continue; }
    auto ib = zmemo->find(nd.b); if (ib == zmemo->end()) { st.push_back(nd.b); continue; }
    z3::expr e = nd.op == ADD ? ia->second + ib->second : ia->second * ib->second;
    zmemo->emplace(x, e); st.pop_back();
  }
  return zmemo->at(n);
}
static z3::expr zcond(int c) {
  const CN& x = CNs[c];
  switch (x.op) {
    case C_LT: return znode(x.a) < znode(x.b);
    case C_LE: return znode(x.a) <= znode(x.b);
    case C_EQ: return znode(x.a) == znode(x.b);
    case C_AND: return zcond(x.a) && zcond(x.b);
    case C_OR: return zcond(x.a) || zcond(x.b);
    case C_NOT: return !zcond(x.a);
    case C_TRUE: return zc->bool_val(true);
    default: return zc->bool_val(false);
  }
}
static z3::expr zpoly(const Poly& p) {
  z3::expr_vector ts(*zc);
  vector<pair<Mono, Q>> t(p.begin(), p.end());
  std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& x : t) {
    z3::expr_vector fs(*zc);
    if (x.second != 1 || x.first.empty()) fs.push_back(zq(x.second));
    for (uint32_t u : x.first) for (uint32_t k = 0; k < me(u); k++) fs.push_back(zvar(mv(u)));
    if (fs.size() == 1) ts.push_back(fs[0]);
    else { vector<Z3_ast> as; for (unsigned i = 0; i < fs.size(); i++) as.push_back(fs[i]); ts.push_back(z3::expr(*zc, Z3_mk_mul(*zc, as.size(), as.data()))); }
  }
  if (ts.empty()) return zc->real_val(0);
  if (ts.size() == 1) return ts[0];
  return z3::sum(ts);
}
static void nodeVars(int n, set<int>& out, set<int>& seen) {
  vector<int> st{n};
  while (!st.empty()) {
    int x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    const Node& nd = N[x];
    if (nd.op == VAR) {
      if (!out.insert(nd.a).second) continue;
      Var& v = V[nd.a];
      if (v.argNode) st.push_back(v.argNode);
      if (v.pair >= 0 && !out.count(v.pair)) { out.insert(v.pair); }
      if (v.base >= 0) st.push_back(nodeOfVar(v.base));
      if (v.sqrule) st.push_back(v.sqNode);
      if (v.kind == K_MINV) for (int a : mats[v.mid].a) st.push_back(a);
      for (int a : v.funArgs) st.push_back(a);
    } else if (nd.op == ADD || nd.op == MUL) { st.push_back(nd.a); st.push_back(nd.b); }
  }
}
static void condVars(int c, set<int>& out, set<int>& seen) {
  const CN& x = CNs[c];
  if (x.op <= C_EQ) { nodeVars(x.a, out, seen); nodeVars(x.b, out, seen); }
  else if (x.op == C_AND || x.op == C_OR) { condVars(x.a, out, seen); condVars(x.b, out, seen); }
  else if (x.op == C_NOT) condVars(x.a, out, seen);
}
static void sideOf(int v, z3::solver& s, bool withMat) {
  Var& x = V[v];
  switch (x.kind) {
    case K_SYM:
      s.add(zvar(v) >= zq(rationalise(x.wlo)) && zvar(v) <= zq(rationalise(x.whi)));
      if (x.sqrule) s.add(zvar(v) * zvar(v) == znode(x.sqNode));
      break;
    case K_SQRT: s.add(zvar(v) >= 0 && zvar(v) * zvar(v) == znode(x.argNode)); break;
    case K_SIN: s.add(zvar(v) * zvar(v) + zvar(x.pair) * zvar(x.pair) == 1 && zvar(v) <= 1 && zvar(v) >= -1); break;
    case K_COS: s.add(zvar(v) <= 1 && zvar(v) >= -1); break;
    case K_IV: s.add(zvar(v) * znode(x.argNode) == 1); break;
    case K_MINV:
      if (withMat) { MatInv& m = mats[x.mid]; int n = m.n; for (int i = 0; i < n; i++) { z3::expr e = zc->real_val(0);
        for (int k = 0; k < n; k++) { int p = k, q = x.mj; if (m.sym && q < p) std::swap(p, q); e = e + znode(m.a[i * n + k]) * zvar(atomTab["minvvar" + std::to_string(x.mid) + "_" + std::to_string(p) + "_" + std::to_string(q)]); }
        s.add(e == (i == x.mj ? 1 : 0)); } }
      break;
    case K_FUN:
      if (x.name == "floor") { z3::expr a = znode(x.funArgs[0]); s.add(zvar(v) <= a && a < zvar(v) + 1); }
      if (x.name == "f32") { z3::expr a = znode(x.funArgs[0]), e = zc->real_val(1, 16777216); s.add(z3::ite(a >= 0, zvar(v) <= a + e * a && zvar(v) >= a - e * a, zvar(v) >= a + e * a && zvar(v) <= a - e * a)); }
      break;
    default: break;
  }
}
static const char* g_phase = ""; static bool g_prof = getenv("SX_PROF") != nullptr;
struct Phase { const char* old; Phase(const char* p) : old(g_phase) { g_phase = p; } ~Phase() { g_phase = old; } };
static z3::check_result zcheck(z3::solver& s) {
  double t = now(); g_queries++;
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception&) { r = z3::unknown; }
  g_solverTime += now() - t;
  if (g_prof && now() - t > 0.2) { FILE* f = fopen("/tmp/sx_prof", "a"); fprintf(f, "%d %s %.2f %d\n", getpid(), g_phase, now() - t, (int)r); fclose(f); }
  if (r == z3::unsat) g_unsat++; else if (r == z3::sat) g_sat++; else g_unknown++;
  return r;
}
static z3::solver mkSolver(unsigned ms) { z3::solver s(*zc); z3::params p(*zc); p.set("timeout", ms); s.set(p); return s; }
// all polynomial identities lhs_i == rhs_i hold for all real values of the variables
static bool zIdentities(const vector<pair<z3::expr, z3::expr>>& ids) {
  if (ids.empty()) return true;
  z3::params sp(*zc); sp.set("som", true); sp.set("som_blowup", 4000000000u); sp.set("flat", true); sp.set("hoist_mul", false);
  z3::tactic t = z3::with(z3::tactic(*zc, "simplify"), sp) & z3::tactic(*zc, "smt");
  z3::solver s = t.mk_solver();
  z3::params p(*zc); p.set("timeout", 120000u); s.set(p);
  z3::expr_vector v(*zc);
  for (auto& i : ids) v.push_back(i.first != i.second);
  s.add(z3::mk_or(v));
  return zcheck(s) == z3::unsat;
}

// ------------------------------------------------------------------ path exploration
struct Dec { bool isChoose; int val; int n; bool other; };   // other: the alternative is still to be explored
struct Oblig { string label; int kind; int a, b; double tol; bool lemma = false; };   // kind 0 eq nodes, 1 cond, 2 failed concretely
struct PathS {
  vector<int> pc;
  vector<Dec> dec; size_t pos = 0;
  vector<Oblig> obs;
  vector<pair<string, int>> chooses;
  std::unique_ptr<z3::solver> zs;
  set<int> sided;
  std::unordered_map<string, bool> cache;
  vector<string> notes;
};
static PathS* P;
static long g_decisions = 0, g_paths = 0, g_unk_feas = 0;
static double g_deadline = 1e18;
static long g_maxPaths = 2000000;
struct Eval; static Eval* g_probe = nullptr;   // probe: the path follows one concrete input instead of forking
static bool probeCond(int c); static void probeSym(int v); static void probeRoot(int node);
static void pcAdd(int c) {
  P->pc.push_back(c);
  if (g_probe) return;
  set<int> vs, seen; condVars(c, vs, seen);
  for (int v : vs) if (P->sided.insert(v).second) sideOf(v, *P->zs, false);
  P->zs->add(zcond(c));
}
// Abstraction of the path condition: non-trivial polynomials are named by their normal form, so that
// comparisons over the same quantity meet syntactically. Unsat here implies unsat of the real condition.
static z3::expr zlin(int n) {
  auto& e = G.get(n);
  if (!e.ok) return znode(n);
  Q c0 = 0; Poly rest;
  for (auto& t : e.p) if (t.first.empty()) c0 = t.second; else rest.emplace(t.first, t.second);
  if (rest.empty()) return zq(c0);
  size_t deg = 0; for (auto& t : rest) { size_t d = 0; for (uint32_t u : t.first) d += me(u); deg = std::max(deg, d); }
  if (rest.size() <= 3 && deg <= 2) return zq(c0) + zpoly(rest);
  map<uint32_t, uint32_t> common; bool first = true;
  for (auto& t : rest) {
    map<uint32_t, uint32_t> m; for (uint32_t u : t.first) m[mv(u)] = me(u);
    if (first) { common = m; first = false; }
    else { for (auto it = common.begin(); it != common.end();) { auto f = m.find(it->first); if (f == m.end()) it = common.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } }
    if (common.empty()) break;
  }
  z3::expr fac = zc->real_val(1); bool hasFac = false;
  for (auto& k : common) { hasFac = true; for (uint32_t i = 0; i < k.second; i++) fac = fac * zvar(k.first); }
  if (hasFac) { Poly q; for (auto& t : rest) { Mono m = t.first; for (auto& k : common) m = mset(m, k.first, mexp(m, k.first) - k.second); q.emplace(m, t.second); } rest = q; }
  Q c = plead(rest).second; Poly r = pscale(rest, 1 / c);
  if (hasFac) return zq(c0) + zq(c) * fac * zc->real_const(("nf" + pkey(r)).c_str());
  return zq(c0) + zq(c) * zc->real_const(("nf" + pkey(r)).c_str());
}
static z3::expr zabs(int c) {
  const CN x = CNs[c];
  switch (x.op) {
    case C_LT: return zlin(subn(x.a, x.b)) < 0;
    case C_LE: return zlin(subn(x.a, x.b)) <= 0;
    case C_EQ: return zlin(subn(x.a, x.b)) == 0;
    case C_AND: return zabs(x.a) && zabs(x.b);
    case C_OR: return zabs(x.a) || zabs(x.b);
    case C_NOT: return !zabs(x.a);
    case C_TRUE: return zc->bool_val(true);
    default: return zc->bool_val(false);
  }
}
static bool abstractUnsat(const vector<int>& cs) {
  Phase ph("abstract");
  z3::solver s = mkSolver(700);
  set<int> vs, seen; for (int c : cs) condVars(c, vs, seen);
  for (int v : vs) {
    Var x = V[v];
    switch (x.kind) {
      case K_SYM: s.add(zvar(v) >= zq(rationalise(x.wlo)) && zvar(v) <= zq(rationalise(x.whi))); if (x.sqrule) s.add(zvar(v) * zvar(v) == zlin(x.sqNode)); break;
      case K_SQRT: s.add(zvar(v) >= 0 && zvar(v) * zvar(v) == zlin(x.argNode)); break;
      case K_SIN: case K_COS: s.add(zvar(v) <= 1 && zvar(v) >= -1); break;
      case K_IV: s.add(zvar(v) * zlin(x.argNode) == 1); break;
      default: break;
    }
  }
  for (int c : cs) s.add(zabs(c));
  if (getenv("SX_DUMP")) { std::string t = Z3_solver_to_string(*zc, s); fprintf(stderr, "----\n%s\n", t.c_str()); }
  return zcheck(s) == z3::unsat;
}
static bool feasible(int c) {
  { vector<int> cs = P->pc; cs.push_back(c); if (abstractUnsat(cs)) return false; }
  Phase ph("feasible");
  set<int> vs, seen; condVars(c, vs, seen);
  P->zs->push();
  for (int v : vs) if (!P->sided.count(v)) sideOf(v, *P->zs, false);
  P->zs->add(zcond(c));
  auto r = zcheck(*P->zs);
  P->zs->pop();
  if (r == z3::unknown) g_unk_feas++;
  return r != z3::unsat;
}
static bool nextDec(int c, const string& key) {
  // returns the truth value chosen for condition c
  g_decisions++;
  bool val;
  if (P->pos < P->dec.size()) { val = P->dec[P->pos].val; P->pos++; }
  else if (g_probe) { val = probeCond(c); P->dec.push_back({false, val, 2, false}); P->pos++; }
  else {
    bool f1 = feasible(c), f0 = feasible(Not({c}).id);
    if (!f1 && !f0) throw PathAbort();
    val = f1;
    P->dec.push_back({false, val, 2, f1 && f0});
    P->pos++;
  }
  pcAdd(val ? c : Not({c}).id);
  P->cache[key] = val;
  return val;
}
static bool decide(int op, int a, int b) {
  if (nonfin(a) || nonfin(b)) {
    if (N[a].op == UNINIT || N[b].op == UNINIT) {
      fail("branch on an uninitialised value");
      return false;
    }
    if (N[a].op == NANN || N[b].op == NANN) return false;
    auto val = [](int n) { return N[n].op == PINF ? 1 : N[n].op == NINF ? -1 : 0; };
    int x = val(a), y = val(b);
    return op == 0 ? x < y : op == 1 ? x <= y : x == y;
  }
  int d = subn(a, b);
  auto& e = G.get(d);
  string key;
  int cn;
  if (e.ok) {
    const Q* q = constOf(d);
    if (q) return op == 0 ? *q < 0 : op == 1 ? *q <= 0 : *q == 0;
    // canonical sign: d = c*p with p normalised
    Q c = plead(e.p).second;
    Poly p = pscale(e.p, 1 / c);
    bool neg = c < 0;
    string pk = pkey(p);
    int pn = nodeOfPoly(p), z = mkConst(0);
    // conditions on p: LT p<0, GT p>0, EQ
    auto known = [&](const string& k, bool& v) { auto it = P->cache.find(k + pk); if (it == P->cache.end()) return false; v = it->second; return true; };
    bool v;
    auto eval = [&](char w) -> bool {   // w in {<,>,=}
      if (known(string(1, w), v)) return v;
      for (char o : {'<', '>', '='}) if (o != w && known(string(1, o), v) && v) return false;
      int f = 0; for (char o : {'<', '>', '='}) if (o != w && known(string(1, o), v) && !v) f++;
      if (f == 2) return true;
      int cc = w == '<' ? cmpCond(C_LT, pn, z) : w == '>' ? cmpCond(C_LT, z, pn) : cmpCond(C_EQ, pn, z);
      return nextDec(cc, string(1, w) + pk);
    };
    if (!P) throw Unsupported{"comparison of symbolic values outside a path"};
    if (op == 2) return eval('=');
    if (op == 0) return eval(neg ? '>' : '<');
    return !eval(neg ? '<' : '>');        // d <= 0  <=>  not d > 0
  }
  if (!P) throw Unsupported{"comparison of symbolic values outside a path"};
  cn = op == 0 ? mkCond(C_LT, a, b) : op == 1 ? mkCond(C_LE, a, b) : mkCond(C_EQ, a, b);
  key = "c" + std::to_string(cn);
  auto it = P->cache.find(key);
  if (it != P->cache.end()) return it->second;
  return nextDec(cn, key);
}
// A symbolic value converted to an integer: the path forks on up to three values it can take, the others stay undecided.
static long long probeWhole(int n);
long long Real::whole() const {
  int n = toNode(*this);
  if (const Q* q = constOf(n)) { mpz_class r; mpz_tdiv_q(r.get_mpz_t(), q->get_num().get_mpz_t(), q->get_den().get_mpz_t()); return (long long)r.get_si(); }
  if (nonfin(n) || !P) throw Unsupported{"conversion of a symbolic value to a machine number"};
  if (g_probe) return probeWhole(n);
  static map<pair<int, vector<int>>, pair<bool, long>> known;
  for (int k = 0; k < 3; k++) {
    vector<int> st = P->pc; st.push_back(k);
    auto it = known.find({n, st});
    if (it == known.end()) {
      Phase ph("whole"); z3::solver s = mkSolver(1500); pair<bool, long> r(false, 0);
      set<int> vs, seen; nodeVars(n, vs, seen); for (int c : P->pc) condVars(c, vs, seen);
      for (int v : vs) sideOf(v, s, false);
      for (int c : P->pc) s.add(zcond(c));
      z3::expr t = zc->real_const("whole"); s.add(t == znode(n));
      s.push(); s.add(t > k && t < 1000000);
      z3::check_result c = zcheck(s);
      if (c != z3::sat) { s.pop(); c = zcheck(s); }
      if (c == z3::sat) { z3::expr v = s.get_model().eval(t, true); double d = strtod(v.get_decimal_string(9).c_str(), 0); if (std::fabs(d) < 9e15) r = {true, (long)d}; }
      it = known.emplace(make_pair(n, st), r).first;
    }
    if (!it->second.first) break;
    long w = it->second.second;
    bool in = w > 0 ? decide(1, mkConst(Q(w)), n) && decide(0, n, mkConst(Q(w + 1))) : w < 0 ? decide(1, n, mkConst(Q(w))) && decide(0, mkConst(Q(w - 1)), n) : decide(0, mkConst(Q(-1)), n) && decide(0, n, mkConst(Q(1)));
    if (in) return w;
  }
  throw Unsupported{"conversion of a symbolic value to a machine number"};
}
static int probeChoose(int n);
int choose(const string& name, int n) {
  int val;
  if (n <= 1) val = 0;
  else if (P->pos < P->dec.size()) { val = P->dec[P->pos].val; P->pos++; }
  else if (g_probe) { val = probeChoose(n); P->dec.push_back({true, val, n, false}); P->pos++; }
  else { P->dec.push_back({true, 0, n, n > 1}); P->pos++; val = 0; }
  g_decisions++;
  P->chooses.push_back({name, val});
  return val;
}
void assume(Cond c) {
  Phase ph("assume");
  if (CNs[c.id].op == C_TRUE) return;
  if (CNs[c.id].op == C_FALSE) throw Infeasible();
  if (g_probe) { if (!probeCond(c.id)) throw Infeasible(); pcAdd(c.id); return; }
  pcAdd(c.id);
  if (P->pos >= P->dec.size()) { auto r = zcheck(*P->zs); if (r == z3::unsat) throw Infeasible(); }
}
static double wideFactor() { static double f = getenv("SX_WIDE") ? atof(getenv("SX_WIDE")) : 500; return f; }
static int symVar(const string& name, dbl lo, dbl hi) {
  auto it = symTab.find(name);
  int v;
  if (it != symTab.end()) v = it->second;
  else { v = newVar(K_SYM, name); V[v].lo = lo; V[v].hi = hi; double f = wideFactor(), a = lo, b = hi; if (f > 1) { if (lo == -hi && hi >= 0.99) { a *= f; b *= f; } else if ((lo > 0 && hi >= 5 * lo) || (lo == 0 && hi >= 1)) { a *= 10 / f; b *= f / 10; } } V[v].wlo = a; V[v].whi = b; symTab[name] = v; }
  return v;
}
Real sym(const string& name, dbl lo, dbl hi) {
  int v = symVar(name, lo, hi);
  if (g_probe) probeSym(v);
  return mkReal(nodeOfVar(v));
}
Real sym(const string& name, dbl lo, dbl hi, dbl wlo, dbl whi) {
  int v = symVar(name, lo, hi); V[v].wlo = wlo; V[v].whi = whi;
  if (g_probe) probeSym(v);
  return mkReal(nodeOfVar(v));
}
void define_square(const Real& s, const Real& value) {
  int n = toNode(s); Var& v = V[N[n].a];
  if (v.sqrule) { if (g_probe) probeRoot(v.sqNode); return; }
  v.sqrule = true; v.sqNode = toNode(value); v.sqPoly = G.get(v.sqNode).p;
  if (g_probe) probeRoot(v.sqNode);
}
void check(Cond c, const string& label) { if (CNs[c.id].op == C_FALSE) P->obs.push_back({label, 2, 0, 0, 0}); else P->obs.push_back({label, 1, c.id, 0, 0}); }
void check(bool b, const string& label) { P->obs.push_back({label, b ? 1 : 2, mkCond(C_TRUE), 0, 0}); }
void fail(const string& label) { P->obs.push_back({label, 2, 0, 0, 0}); }
static bool g_lemmaMode = false;
void lemma_mode(bool on) { g_lemmaMode = on; }
void check_eq(const Real& a, const Real& b, const string& label, dbl tol) {
  int x = toNode(a), y = toNode(b);
  if (nonfin(x) || nonfin(y)) { bool same = x == y && (N[x].op == PINF || N[x].op == NINF); P->obs.push_back({label, same ? 1 : 2, mkCond(C_TRUE), 0, 0}); return; }
  P->obs.push_back({label, 0, x, y, tol, g_lemmaMode});
}
// logarithm of a rigid transform (4x4), by contract: log(exp(xi)) = xi for the twists the harness announces
static vector<pair<vector<Real>, vector<Real>>> g_logs;
static bool pathModel(Eval& ev, const vector<int>& pc, bool& provedInfeasible, int extraCond = -1, unsigned ms = 4000);

void log_hint(const vector<Real>& m, const vector<Real>& l) { g_logs.push_back({m, l}); }
static void rigidLog(const double* T, double* L) {   // numeric
  double c = std::max(-1.0, std::min(1.0, (T[0] + T[5] + T[10] - 1) / 2)), th = std::acos(c), k = th < 1e-9 ? 0.5 : th / (2 * std::sin(th));
  double w[3] = {k * (T[9] - T[6]), k * (T[2] - T[8]), k * (T[4] - T[1])}, W[9] = {0, -w[2], w[1], w[2], 0, -w[0], -w[1], w[0], 0}, b = th < 1e-6 ? 1.0 / 12 : (1 - th * std::cos(th / 2) / (2 * std::sin(th / 2))) / (th * th);
  for (int i = 0; i < 16; i++) L[i] = 0;
  for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) L[4 * i + j] = W[3 * i + j]; double s = T[4 * i + 3]; for (int j = 0; j < 3; j++) { double q = 0; for (int m = 0; m < 3; m++) q += W[3 * i + m] * W[3 * m + j]; s += (-W[3 * i + j] / 2 + b * q) * T[4 * j + 3]; } L[4 * i + 3] = s; }
}
vector<Real> matlog(const vector<Real>& m) {
  for (auto& h : g_logs) {
    Eval ev; bool inf = false; if (g_probe) ev = *g_probe; else if (!pathModel(ev, P->pc, inf, -1, 4000)) continue; bool same = true;
    for (int i = 0; i < 16 && same; i++) { double a = (double)ev.node(toNode(m[i])), b = (double)ev.node(toNode(h.first[i])); same = std::fabs(a - b) < 1e-7 * (1 + std::fabs(b)); }
    if (!same) continue;
    for (int i = 0; i < 16; i++) check_eq(m[i], h.first[i], "model: argument of the matrix logarithm", 1e-6);
    return h.second;
  }
  vector<int> a; for (auto& x : m) a.push_back(toNode(x)); vector<Real> r; for (int i = 0; i < 16; i++) r.push_back(mkReal(funn("rigidlog" + std::to_string(i), a))); return r;
}
Real nan_value() { return mkReal(special(NANN)); }
Real inf_value() { return mkReal(special(PINF)); }
bool is_nan_value(const Real& r) { return N[toNode(r)].op == NANN; }
bool is_uninit(const Real& r) { return N[toNode(r)].op == UNINIT; }
void note(const string& s) { if (P) P->notes.push_back(s); }
void stop(const string& why) { throw Stop{why}; }

// ------------------------------------------------------------------ differentiation
static int diffn(int f, int var, std::unordered_map<int, int>& memo) {
  vector<int> st{f};
  while (!st.empty()) {
    int x = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    const Node nd = N[x];
    if (nd.op == CONST) { memo[x] = mkConst(0); st.pop_back(); continue; }
    if (nd.op == ADD || nd.op == MUL) {
      if (!memo.count(nd.a)) { st.push_back(nd.a); continue; }
      if (!memo.count(nd.b)) { st.push_back(nd.b); continue; }
      int da = memo[nd.a], db = memo[nd.b];
      memo[x] = nd.op == ADD ? add(da, db) : add(mul(da, nd.b), mul(nd.a, db));
      st.pop_back(); continue;
    }
    if (nd.op != VAR) throw Unsupported{"derivative of a non-finite value"};
    Var v = V[nd.a];
    if (v.kind == K_SYM) {
      if (v.sqrule) { if (!memo.count(v.sqNode)) { st.push_back(v.sqNode); continue; } int d = memo[v.sqNode]; memo[x] = isZeroNode(d) ? mkConst(0) : mul(mul(mkConst(Q(1, 2)), invn(x)), d); st.pop_back(); continue; }
      memo[x] = mkConst(nd.a == var ? 1 : 0); st.pop_back(); continue;
    }
    if (v.kind == K_MINV || v.kind == K_FUN || v.kind == K_CUT) throw Unsupported{"derivative of an atom"};
    if (!memo.count(v.argNode)) { st.push_back(v.argNode); continue; }
    int d = memo[v.argNode], r;
    if (isZeroNode(d)) r = mkConst(0);
    else if (v.kind == K_SQRT) r = mul(mul(mkConst(Q(1, 2)), invn(x)), d);
    else if (v.kind == K_SIN) r = mul(nodeOfVar(v.pair), d);
    else if (v.kind == K_COS) r = mul(negn(nodeOfVar(v.pair)), d);
    else r = mul(mul(negn(x), x), d);
    memo[x] = r; st.pop_back();
  }
  return memo[f];
}
Real diff(const Real& f, const Real& x) {
  int n = toNode(x); if (N[n].op != VAR) throw Unsupported{"diff with respect to a non-symbol"};
  std::unordered_map<int, int> memo; return mkReal(diffn(toNode(f), N[n].a, memo));
}
vector<Real> jac(const std::function<vector<Real>(const Real&)>& f, const Real& x0) {
  vector<Real> y = f(x0), r; int n = toNode(x0);
  std::unordered_map<int, int> memo;
  for (auto& v : y) r.push_back(mkReal(diffn(toNode(v), N[n].a, memo)));
  return r;
}

// ------------------------------------------------------------------ discharge
static std::unordered_map<long long, int> provenPairs;   // 1 proven
static std::unordered_set<int> certified;                 // nodes whose normal form z3 has certified
static long g_lemmas = 0;
static int g_useCuts = 1; static size_t g_fullFirst = getenv("SX_FF") ? atoi(getenv("SX_FF")) : 150;

static void coneNodes(int n, vector<int>& order, std::unordered_set<int>& seen, const std::unordered_map<int, int>* cut) {
  vector<pair<int, int>> st{{n, 0}};
  while (!st.empty()) {
    auto& t = st.back();
    int x = t.first;
    if (t.second == 0) {
      if (seen.count(x) || (cut && cut->count(x)) || N[x].op == CONST || N[x].op == VAR || N[x].op >= NANN) { st.pop_back(); continue; }
      t.second = 1; st.push_back({N[x].a, 0});
    } else if (t.second == 1) { t.second = 2; st.push_back({N[x].b, 0}); }
    else { if (seen.insert(x).second) order.push_back(x); st.pop_back(); }
  }
}
// lemmas: for every MUL/ADD node n of the cone, poly(n) equals the combination of its children's polynomials modulo relations
static bool certifyCone(PolyCtx& ctx, const vector<int>& roots, std::unordered_set<int>& done) {
  Phase ph("certify");
  vector<int> order; std::unordered_set<int> seen;
  for (int r : roots) coneNodes(r, order, seen, &ctx.cut);
  vector<pair<z3::expr, z3::expr>> ids;
  size_t w = 0;
  for (int n : order) {
    if (done.count(n)) continue;
    const Node nd = N[n];
    auto& e = ctx.get(n);
    if (!e.ok) return false;
    auto &ea = ctx.get(nd.a), &eb = ctx.get(nd.b);
    z3::expr lhs = nd.op == ADD ? zpoly(ea.p) + zpoly(eb.p) : zpoly(ea.p) * zpoly(eb.p);
    z3::expr rhs = zpoly(e.p);
    for (auto& c : e.cof) if (!c.second.empty()) rhs = rhs + zpoly(c.second) * zpoly(relation(c.first));
    ids.push_back({lhs, rhs});
    w += e.p.size() + ea.p.size() * (nd.op == MUL ? eb.p.size() : 1);
    done.insert(n); g_lemmas++;
    if (w > 40000) { if (!zIdentities(ids)) return false; ids.clear(); w = 0; }
  }
  return zIdentities(ids);
}
// D (reduced) is zero modulo all relations, given that all inverted quantities are non-zero
static bool zeroTest(const Poly& D0, bool certify) {
  Phase ph("zerotest");
  if (D0.empty()) return true;
  Poly D = D0; Cof cof; Poly mult = pconst(1);
  vector<pair<z3::expr, z3::expr>> ids;
  try {
    for (int round = 0; round < 8; round++) {
      // clear one inverse variable at a time
      int iv = -1; uint32_t k = 0;
      for (auto& t : D) for (uint32_t x : t.first) if (V[mv(x)].kind == K_IV && (int)mv(x) > iv) iv = (int)mv(x);
      if (iv < 0) break;
      for (auto& t : D) k = std::max(k, mexp(t.first, iv));
      Poly base = V[iv].base >= 0 ? pvar(V[iv].base) : V[iv].argPoly;
      Poly bk = ppow(base, k);
      // D*base^k = sum_j D_j iv^j base^k ; replace iv^j base^k by base^(k-j)
      map<uint32_t, Poly> parts;
      for (auto& t : D) { uint32_t j = mexp(t.first, iv); paddTo(parts[j], mset(t.first, iv, 0), t.second); }
      Poly next;
      for (auto& pr : parts) paddScaled(next, pmulRaw(pr.second, ppow(base, k - pr.first)), 1);
      // cofactor of g = iv*base-1 : sum_j D_j base^(k-j) * sum_{i<j} (iv*base)^i
      if (certify) {
        Poly cf;
        Poly ivb = pmulRaw(pvar(iv), base);
        for (auto& pr : parts) {
          Poly s, pw = pconst(1);
          for (uint32_t i = 0; i < pr.first; i++) { paddScaled(s, pw, 1); pw = pmulRaw(pw, ivb); }
          if (!s.empty()) paddScaled(cf, pmulRaw(pmulRaw(pr.second, ppow(base, k - pr.first)), s), 1);
        }
        Poly bkraw = pconst(1); for (uint32_t i = 0; i < k; i++) bkraw = pmulRaw(bkraw, base);
        // ppow reduces; keep the identity purely polynomial by using the same (reduced) powers when base is a variable
        z3::expr lhs = zpoly(D) * zpoly(bkraw), rhs = zpoly(next) + zpoly(cf) * zpoly(relation(iv));
        if (V[iv].base >= 0) {
          // base^k may itself be reducible (square-root rule): use raw powers throughout
          Poly nx; for (auto& pr : parts) { Poly q = pconst(1); for (uint32_t i = 0; i < k - pr.first; i++) q = pmulRaw(q, base); paddScaled(nx, pmulRaw(pr.second, q), 1); }
          Poly cf2; for (auto& pr : parts) { Poly s, pw = pconst(1); for (uint32_t i = 0; i < pr.first; i++) { paddScaled(s, pw, 1); pw = pmulRaw(pw, ivb); } Poly q = pconst(1); for (uint32_t i = 0; i < k - pr.first; i++) q = pmulRaw(q, base); if (!s.empty()) paddScaled(cf2, pmulRaw(pmulRaw(pr.second, q), s), 1); }
          rhs = zpoly(nx) + zpoly(cf2) * zpoly(relation(iv));
          next = nx;
        }
        ids.push_back({lhs, rhs});
      }
      Cof c2; Poly before = next; reducePoly(next, certify ? &c2 : nullptr);
      if (getenv("SX_DUMPZ")) fprintf(stderr, "zeroTest round %d certify %d: D %zu k %u base %zu parts %zu next(raw) %zu reduced %zu\n", round, certify, D.size(), k, base.size(), parts.size(), before.size(), next.size());
      if (certify) { z3::expr rhs = zpoly(next); for (auto& c : c2) if (!c.second.empty()) rhs = rhs + zpoly(c.second) * zpoly(relation(c.first)); ids.push_back({zpoly(before), rhs}); }
      D = next;
      if (D.empty()) break;
    }
  } catch (CapExceeded&) { return false; }
  if (!D.empty()) return false;
  return certify ? zIdentities(ids) : true;
}
static bool trySub(int a, int b, PolyCtx& ctx, std::unordered_set<int>& done) {
  auto& ea = ctx.get(a); if (!ea.ok) return false;
  auto& eb = ctx.get(b); if (!eb.ok) return false;
  Poly D = psub(ctx.memo[a].p, ctx.memo[b].p);
  if (!zeroTest(D, false)) {
    if (getenv("SX_DUMPD")) {
      fprintf(stderr, "DIFF %zu terms (%zu, %zu) cuts %zu\n", D.size(), ctx.memo[a].p.size(), ctx.memo[b].p.size(), ctx.cut.size());
      int k = 0; for (auto& t : D) { if (k++ > 8) break; fprintf(stderr, "   %s", t.second.get_str().c_str()); for (uint32_t u : t.first) fprintf(stderr, " %s[%d]^%u", V[mv(u)].name.c_str(), V[mv(u)].kind, me(u)); fprintf(stderr, "\n"); }
    }
    return false;
  }
  if (!certifyCone(ctx, {a, b}, done)) return false;
  if (D.empty()) { return true; }
  return zeroTest(D, true);
}
static int g_method[6];
static vector<Eval>* g_sig = nullptr;
static void makeSig(std::mt19937_64& rng);
static std::unordered_map<int, int> rep;       // proven-equal representative
static int find(int n) { int r = n; while (true) { auto it = rep.find(r); if (it == rep.end()) break; r = it->second; } if (r != n) rep[n] = r; return r; }
// rebuild a node over representatives
static std::unordered_map<int, int> rebuilt;
static int rebuild(int n) {
  vector<int> st{n};
  while (!st.empty()) {
    int x = st.back();
    if (rebuilt.count(x)) { st.pop_back(); continue; }
    const Node nd = N[x];
    if (nd.op != ADD && nd.op != MUL) { rebuilt[x] = find(x); st.pop_back(); continue; }
    int r0 = find(x);
    if (r0 != x) { if (!rebuilt.count(r0)) { st.push_back(r0); continue; } rebuilt[x] = rebuilt[r0]; st.pop_back(); continue; }
    if (!rebuilt.count(nd.a)) { st.push_back(nd.a); continue; }
    if (!rebuilt.count(nd.b)) { st.push_back(nd.b); continue; }
    int y = nd.op == ADD ? add(rebuilt[nd.a], rebuilt[nd.b]) : mul(rebuilt[nd.a], rebuilt[nd.b]);
    rebuilt[x] = find(y); st.pop_back();
  }
  return rebuilt[n];
}
static void merge(int a, int b) { a = find(a); b = find(b); if (a == b) return; if (a > b) std::swap(a, b); rep[b] = a; rebuilt.clear(); }
// common nodes of the two cones become cuts, unless their normal form over the cuts below is small
static bool sharedCuts(int a, int b, PolyCtx& ctx, size_t cutMin) {   // false: no difference to cutting everything
  bool kept = false;
  vector<int> oa, ob; std::unordered_set<int> sa, sb;
  coneNodes(a, oa, sa, nullptr); coneNodes(b, ob, sb, nullptr);
  for (int n : oa) if (sb.count(n) && n != a && n != b) {
    auto& e = ctx.get(n); if (e.ok && e.p.size() <= cutMin) { kept = true; continue; }
    ctx.memo.erase(n);
    int v = newVar(K_CUT, "cut" + std::to_string(n)); V[v].argNode = n; ctx.cut[n] = v;
  }
  return kept;
}
static PolyCtx GS;    // normal forms of moderate size only
static int proveEqCore(int a, int b, bool allowFull) {
  if (a == b) return 1;
  static const vector<int> mins = [] { vector<int> r; const char* e = getenv("SX_CUTMIN"); std::istringstream is(e ? e : "0 4"); int k; while (is >> k) r.push_back(k); return r; }();
  for (int m : mins) {  // cut at shared structure
    PolyCtx ctx; std::unordered_set<int> done; ctx.limit = m ? 3000 : 20000;
    bool kept = sharedCuts(a, b, ctx, m);
    if (m && !kept) break;
    if (!ctx.cut.empty() && trySub(a, b, ctx, done)) return 2;
  }
  if (!allowFull) return 0;
  if (trySub(a, b, G, certified)) return 3;
  return 0;
}
static std::unordered_set<long long> sweepDone;
// SAT-sweeping over the reals: merge nodes of the two cones that have equal signatures and that z3 proves equal
static void sweep(int a, int b) {
  if (!g_sig) return;
  vector<int> oa, ob; std::unordered_set<int> sa, sb;
  coneNodes(a, oa, sa, nullptr); coneNodes(b, ob, sb, nullptr);
  std::unordered_map<long long, vector<int>> idx;
  auto sig = [&](int n, double* out) { for (size_t i = 0; i < g_sig->size(); i++) out[i] = (double)(*g_sig)[i].node(n); };
  auto bucket = [](double x) -> long long { if (x == 0) return 0; int e; double m = std::frexp(x, &e); return (long long)std::llround(m * 1e8) * 4096 + e; };
  for (int n : oa) if (!sb.count(n)) { double s[4]; sig(n, s); if (!std::isfinite(s[0])) continue; idx[bucket(s[0])].push_back(n); }
  double budget = now() + 60;
  for (int n : ob) {
    if (sa.count(n) || find(n) != n) continue;
    if (now() > budget || now() > g_deadline) break;
    double s[4]; sig(n, s);
    if (!std::isfinite(s[0]) || s[0] == 0) continue;
    long long k = bucket(s[0]);
    bool merged = false;
    for (long long d = -1; d <= 1 && !merged; d++) {
      auto it = idx.find(k + d * 4096); if (it == idx.end()) continue;
      int tries = 0;
      for (int m : it->second) {
        double t[4]; sig(m, t); bool ok = true;
        for (size_t i = 0; i < g_sig->size(); i++) if (!(std::fabs(s[i] - t[i]) <= 1e-9 * (std::fabs(s[i]) + std::fabs(t[i])))) ok = false;
        if (!ok) continue;
        long long key = (long long)m << 32 | n;
        if (!sweepDone.insert(key).second) continue;
        int ra = rebuild(m), rb = rebuild(n);
        int r = ra == rb ? 1 : proveEqCore(ra, rb, true);
        if (r) { int fm = find(m); if (fm != n && find(n) == n && fm < n) { rep[n] = fm; } else if (fm != n && fm > n) { rep[fm] = n; } rebuilt.clear(); merged = true; break; }
        if (++tries >= 3) break;
      }
    }
  }
}
struct Result { string status; string method; string cex; string why; };
static std::mt19937_64 g_rng(1);
static double randVal(double lo, double hi) {
  std::uniform_int_distribution<int> d(0, 256);
  double v = lo + (hi - lo) * (d(g_rng) / 256.0);
  double q = std::ldexp(1.0, -7);
  double r = std::round(v / q) * q;
  if (r < lo || r > hi) r = v;
  return r;
}
// a model of the path condition; returns false if none was found
static bool pathModel(Eval& ev, const vector<int>& pc, bool& provedInfeasible, int extraCond, unsigned ms) {
  Phase ph("pathmodel");
  provedInfeasible = false;
  set<int> syms; for (size_t i = 0; i < V.size(); i++) if (V[i].kind == K_SYM && !V[i].sqrule) syms.insert((int)i);
  vector<int> cs = pc; if (extraCond >= 0) cs.push_back(extraCond);
  for (int trial = 0; trial < 40; trial++) {
    ev = Eval();
    double scale = trial % 2 && trial > 4 ? std::pow(10.0, -(double)(g_rng() % 100) / 10) : 1;
    for (int v : syms) { double x = randVal(V[v].lo, V[v].hi); if (scale != 1 && V[v].lo <= 0 && V[v].hi >= 0) x *= scale; ev.vals[v] = x; }
    bool ok = true; for (int c : cs) { double mg = 1; if (!ev.cond(c, &mg) || mg < 1e-12) { ok = false; if (getenv("SX_DUMP")) { std::ostringstream os; os << zabs(c); fprintf(stderr, "pathModel: fails (margin %g) %.300s\n", mg, os.str().c_str()); } break; } }
    if (ok) return true;
  }
  if (abstractUnsat(cs)) { provedInfeasible = true; return false; }
  z3::solver s = mkSolver(ms);
  set<int> vs, seen; for (int c : cs) condVars(c, vs, seen);
  for (size_t i = 0; i < V.size(); i++) if (V[i].kind == K_SYM && V[i].sqrule && !vs.count((int)i)) { set<int> in, sn; nodeVars(V[i].sqNode, in, sn); for (int v : in) if (vs.count(v)) { vs.insert((int)i); vs.insert(in.begin(), in.end()); break; } }   // roots defined over these symbols exist
  for (int v : vs) sideOf(v, s, true);
  for (int c : cs) s.add(zcond(c));
  auto r = zcheck(s);
  if (r == z3::unsat) { provedInfeasible = true; return false; }
  if (r == z3::unknown) return false;
  // randomise: pin symbols one after the other while satisfiable
  vector<int> order; for (int v : vs) if (V[v].kind == K_SYM && !V[v].sqrule) order.push_back(v);
  std::shuffle(order.begin(), order.end(), g_rng);
  z3::model m = s.get_model();
  double t0 = now();
  for (int v : order) {
    if (now() - t0 > 5) break;
    for (int k = 0; k < 2; k++) {
      s.push(); s.add(zvar(v) == zq(rationalise(randVal(V[v].lo, V[v].hi))));
      auto r2 = zcheck(s);
      if (r2 == z3::sat) { m = s.get_model(); break; }
      s.pop();
    }
  }
  ev = Eval();
  for (int v : syms) {
    if (!vs.count(v)) { ev.vals[v] = randVal(V[v].lo, V[v].hi); continue; }
    z3::expr e = m.eval(zvar(v), true);
    double d = 0;
    if (e.is_numeral()) { string t = e.get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); d = strtod(t.c_str(), 0); }
    else if (e.is_algebraic()) { string t = e.get_decimal_string(20); if (!t.empty() && t.back() == '?') t.pop_back(); d = strtod(t.c_str(), 0); }
    ev.vals[v] = d;
  }
  for (size_t i = 0; i < V.size(); i++) if (V[i].kind == K_SYM && V[i].sqrule && ev.node(V[i].sqNode) < 0) return false;
  return true;
}
static string jstr(const string& s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string assignJson(Eval& ev) {
  string r = "{"; bool first = true; char b[64];
  for (auto& x : P->chooses) { if (!first) r += ","; first = false; r += jstr("choose:" + x.first) + ":" + std::to_string(x.second); }
  for (size_t i = 0; i < V.size(); i++) if (V[i].kind == K_SYM && !V[i].sqrule) { auto it = ev.vals.find((int)i); if (it == ev.vals.end()) continue; snprintf(b, 64, "%.17g", it->second); if (!first) r += ","; first = false; r += jstr(V[i].name) + ":" + b; }
  for (size_t i = 0; i < V.size(); i++) if (V[i].kind == K_SYM && V[i].sqrule) { snprintf(b, 64, "%.17g", (double)ev.var((int)i)); if (!first) r += ","; first = false; r += jstr(V[i].name) + ":" + b; }
  return r + "}";
}
static FILE* g_out = stdout;
static vector<string> g_failJson;
static long g_obl = 0, g_disch = 0, g_trivial = 0, g_reused = 0, g_fail = 0, g_unproved = 0, g_mine = 0, g_witness = 0, g_nowitness = 0;
static int g_shard = 0, g_shards = 1;
static map<string, long> g_labels, g_failLabels;

// solver-side confirmation: with all inputs pinned to the model the negated obligation is satisfiable
static bool confirmSat(Eval& ev, const Oblig& o) {
  z3::solver s = mkSolver(g_probe ? 1500 : 8000);
  set<int> vs, seen; for (int c : P->pc) condVars(c, vs, seen);
  if (o.kind == 0) { nodeVars(o.a, vs, seen); nodeVars(o.b, vs, seen); }
  if (o.kind == 1) condVars(o.a, vs, seen);
  auto box = [&](int v) { double x = ev.var(v), d = 1e-9 * (1 + std::fabs(x)); s.add(zvar(v) >= zq(rationalise(x - d)) && zvar(v) <= zq(rationalise(x + d))); };
  for (int v : vs) if (V[v].kind == K_SYM && !V[v].sqrule) s.add(zvar(v) == zq(Q(ev.vals.count(v) ? ev.vals[v] : 0.5 * (V[v].lo + V[v].hi)))); else box(v);
  for (auto& c : P->pc) { (void)c; }
  if (o.kind == 0) { double x = ev.node(o.a), y = ev.node(o.b), d = std::fabs(x - y) / 4; (void)d; s.add(znode(o.a) != znode(o.b)); }
  else if (o.kind == 1) s.add(!zcond(o.a));
  return zcheck(s) == z3::sat;
}
static void emitFail(const Oblig& o, Eval& ev, bool solver, double l, double r) {
  g_fail++; g_failLabels[o.label]++;
  if (g_failLabels[o.label] > 4) return;
  char b[128]; snprintf(b, sizeof b, "\"lhs\":%s,\"rhs\":%s,", std::isfinite(l) ? std::to_string(l).c_str() : "null", std::isfinite(r) ? std::to_string(r).c_str() : "null");
  string notes = "["; for (size_t i = 0; i < P->notes.size() && i < 6; i++) { if (i) notes += ","; notes += jstr(P->notes[i]); } notes += "]";
  fprintf(g_out, "{\"type\":\"fail\",\"label\":%s,\"solver_sat\":%s,%s\"notes\":%s,\"assign\":%s}\n", jstr(o.label).c_str(), solver ? "true" : "false", b, notes.c_str(), assignJson(ev).c_str());
  fflush(g_out);
}
static void emitUnproved(const Oblig& o, const string& why) {
  g_unproved++;
  string ch; for (auto& x : P->chooses) ch += x.first + "=" + std::to_string(x.second) + " ";
  fprintf(g_out, "{\"type\":\"unproved\",\"label\":%s,\"why\":%s,\"path\":%s,\"index\":%d}\n", jstr(o.label).c_str(), jstr(why).c_str(), jstr(ch).c_str(), (int)(&o - P->obs.data())); fflush(g_out);
}
// divisors of a checked value may not vanish under the path condition (a vanishing one makes the value NaN or infinite)
static map<int, int> g_defined;   // per path: inverse variable -> 1 proved non-zero, 2 undecided, 3 reported
static long g_defQ = 0, g_defUnk = 0;
static bool definedness(const Oblig& o, int root) {
  Phase ph("defined");
  set<int> vs, seen; nodeVars(root, vs, seen);
  bool clean = true;
  for (int v : vs) if (V[v].kind == K_IV && (V[v].base < 0 || V[V[v].base].kind != K_MINV)) {
    if (g_defined.count(v)) continue;
    set<int> vv, ss; nodeVars(V[v].argNode, vv, ss);
    bool mat = false; for (int w : vv) if (V[w].kind == K_MINV || V[w].kind == K_FUN) mat = true;
    if (mat) { g_defined[v] = 2; g_defUnk++; continue; }
    z3::solver s = mkSolver(5000);
    set<int> all = vv, s2; for (int c : P->pc) condVars(c, all, s2);
    for (int w : all) sideOf(w, s, false);
    for (int c : P->pc) s.add(zcond(c));
    s.add(znode(V[v].argNode) == 0);
    g_defQ++;
    { vector<int> cs = P->pc; cs.push_back(mkCond(C_EQ, V[v].argNode, mkConst(0))); if (abstractUnsat(cs)) { g_defined[v] = 1; continue; } }
    auto r = zcheck(s);
    if (r == z3::unsat) { g_defined[v] = 1; continue; }
    bool inf = false, hit = false; Eval ev;
    if (pathModel(ev, P->pc, inf, mkCond(C_EQ, V[v].argNode, mkConst(0)), 5000)) {
      double x = (double)ev.node(root);
      if (!std::isfinite(x)) { g_defined[v] = 3; emitFail(o, ev, true, x, (double)ev.node(o.kind == 0 ? o.b : root)); hit = true; clean = false; }
    }
    if (!hit) { g_defined[v] = 2; g_defUnk++; }
  }
  return clean;
}
static vector<std::shared_ptr<Eval>> g_pathEvals;
static int proveEq(const Oblig& o) {
  int meth = 0;
  double tp = now(); auto prof = [&](const char* w) { if (g_prof && now() - tp > 0.3) { FILE* f = fopen("/tmp/sx_prof", "a"); fprintf(f, "%d stage-%s %.2f %d %s\n", getpid(), w, now() - tp, meth, o.label.c_str()); fclose(f); } tp = now(); };
  try {
    int a = rebuild(o.a), b = rebuild(o.b);
    meth = proveEqCore(a, b, false); prof("cut");
    if (!meth) { GS.limit = 600; bool ok1 = GS.get(a).ok; auto& eb = GS.get(b); auto& ea = GS.get(a); if (ok1 && eb.ok && ea.p.size() + eb.p.size() < g_fullFirst) meth = proveEqCore(a, b, true); prof("small"); }
    if (!meth && g_useCuts) { sweep(a, b); prof("sweep"); a = rebuild(o.a); b = rebuild(o.b); meth = proveEqCore(a, b, false); prof("cut2"); if (!meth) meth = proveEqCore(a, b, true); prof("full"); if (meth) meth = 5; }
  } catch (CapExceeded&) { meth = 0; }
  return meth;
}
// proves an equality that another shard reports, for use in later proofs
static void learn(const Oblig& o) {
  if (o.kind != 0 || o.a == o.b) return;
  long long key = (long long)std::min(o.a, o.b) << 32 | std::max(o.a, o.b);
  if (provenPairs.count(key)) return;
  if (proveEq(o)) { provenPairs[key] = 1; merge(o.a, o.b); }
}
static void discharge(const Oblig& o, vector<Eval>& models) {
  bool inf = false;
  if (o.kind == 2) {
    if (!models.empty()) { emitFail(o, models[0], confirmSat(models[0], o), NAN, NAN); for (size_t i = 1; i < models.size() && i < 3; i++) emitFail(o, models[i], true, NAN, NAN); }
    else emitUnproved(o, "no model of the path condition found");
    return;
  }
  if (o.kind == 1) {
    if (CNs[o.a].op == C_TRUE) { g_disch++; g_trivial++; return; }
    { vector<int> cs = P->pc; cs.push_back(Not({o.a}).id); if (abstractUnsat(cs)) { g_disch++; g_method[4]++; return; } }
    z3::solver s = mkSolver(20000);
    set<int> vs, seen; for (int c : P->pc) condVars(c, vs, seen); condVars(o.a, vs, seen);
    for (int v : vs) sideOf(v, s, true);
    for (int c : P->pc) s.add(zcond(c));
    s.add(!zcond(o.a));
    auto r = zcheck(s);
    if (r == z3::unsat) { g_disch++; g_method[4]++; return; }
    Eval ev;
    for (auto& m : models) if (!m.cond(o.a)) { emitFail(o, m, confirmSat(m, o), NAN, NAN); return; }
    for (int k = 0; k < 4; k++) if (pathModel(ev, P->pc, inf, Not({o.a}).id, 8000) && !ev.cond(o.a)) { emitFail(o, ev, r == z3::sat, NAN, NAN); return; }
    emitUnproved(o, r == z3::sat ? "counterexample could not be made concrete" : "solver gave up");
    return;
  }
  // equality of expressions
  if (!definedness(o, o.a)) return;
  if (o.a == o.b) { g_disch++; g_trivial++; return; }
  long long key = (long long)std::min(o.a, o.b) << 32 | std::max(o.a, o.b);
  if (provenPairs.count(key)) { g_disch++; g_reused++; return; }
  auto differs = [&](Eval& m, double f) { double x = (double)m.node(o.a), y = (double)m.node(o.b); return !(std::fabs(x - y) <= f * o.tol * (1 + std::max(std::fabs(x), std::fabs(y)))); };
  for (auto& m : models) if (differs(m, 20)) { emitFail(o, m, confirmSat(m, o), m.node(o.a), m.node(o.b)); return; }
  if (now() > g_deadline) { emitUnproved(o, "time budget of the check exhausted"); return; }
  int meth = proveEq(o);
  if (meth) { g_disch++; g_method[meth]++; provenPairs[key] = 1; merge(o.a, o.b); return; }
  // last resort: the whole query with path condition
  {
    Phase ph("last");
    z3::solver s = mkSolver(15000);
    set<int> vs, seen; for (int c : P->pc) condVars(c, vs, seen); nodeVars(o.a, vs, seen); nodeVars(o.b, vs, seen);
    for (int v : vs) sideOf(v, s, true);
    for (int c : P->pc) s.add(zcond(c));
    z3::expr d = znode(o.a) - znode(o.b); z3::expr t = zq(rationalise(o.tol));
    s.add(d > t || d < -t);
    auto r = zcheck(s);
    if (r == z3::unsat) { g_disch++; g_method[4]++; return; }
  }
  int dt = mkCond(C_LE, subn(o.a, o.b), mkConst(rationalise(20 * o.tol))), dt2 = mkCond(C_LE, subn(o.b, o.a), mkConst(rationalise(20 * o.tol)));
  Eval ev;
  for (int k = 0; k < 30; k++) if (pathModel(ev, P->pc, inf) && differs(ev, 20)) { emitFail(o, ev, confirmSat(ev, o), ev.node(o.a), ev.node(o.b)); return; }
  for (int c : {Not({dt}).id, Not({dt2}).id}) if (pathModel(ev, P->pc, inf, c, 8000) && differs(ev, 5)) { emitFail(o, ev, true, ev.node(o.a), ev.node(o.b)); return; }
  emitUnproved(o, "neither proved nor refuted");
}
static long g_valid = 0; static long g_validMax = 6;
static long g_pathModels = 3;
// ------------------------------------------------------------------ probes
// Before and beside the exhaustive exploration a child process follows some paths along one concrete input each, so that a
// counterexample is found early where the exploration has many branches. A probe only ever reports violations.
static int g_probeMode = 0; static bool refute(const Oblig& o, vector<Eval>& models);
static bool probeCond(int c) { double mg = 1; bool r = g_probe->cond(c, &mg); if (mg < 1e-11 || std::isnan(mg)) throw PathAbort(); return r; }
static void probeSym(int v) {
  if (g_probe->vals.count(v)) return;
  Var& x = V[v]; double r = randVal(x.lo, x.hi);
  if (g_probeMode == 1 && x.lo <= 0 && x.hi >= 0) r *= std::pow(10.0, -(double)(g_rng() % 90) / 10);
  if (g_probeMode == 2) { double f = (double)(g_rng() % 1000) / 1000; r = randVal(x.lo + f * (x.wlo - x.lo), x.hi + f * (x.whi - x.hi)); }
  if (g_probeMode == 3) switch (g_rng() % 6) { case 0: r = x.lo; break; case 1: r = x.hi; break; case 2: if (x.lo <= 0 && x.hi >= 0) r = 0; break; default: break; }
  g_probe->vals[v] = r;
}
static void probeRoot(int node) { if (g_probe->node(node) < 0) throw Infeasible(); }
static long long probeWhole(int n) { double d = (double)g_probe->node(n); if (!(std::fabs(d) < 9e15)) throw PathAbort(); return (long long)d; }
static int probeChoose(int n) { return (int)(g_rng() % n); }
static long g_probePaths = 0;
static void finishProbe() {
  vector<Eval> models; models.push_back(*g_probe); g_probePaths++;
  for (auto& o : P->obs) {
    if (o.kind == 2) { emitFail(o, models[0], false, NAN, NAN); continue; }
    if (o.kind == 0 && o.a != o.b && (!std::isfinite((double)models[0].node(o.a)) || !std::isfinite((double)models[0].node(o.b)))) continue;
    refute(o, models);
  }
}
// a path whose proofs take long is put off until the other paths have been seen
struct Deferred { vector<Dec> dec; long obl0; size_t start; };
static vector<Deferred> g_deferred; static Deferred* g_resume = nullptr; static double g_pathBudget = 1e18;
static bool refute(const Oblig& o, vector<Eval>& models) {
  if (o.kind == 2) { discharge(o, models); return true; }
  if (o.kind == 1) {
    for (auto& m : models) if (!m.cond(o.a)) { emitFail(o, m, confirmSat(m, o), NAN, NAN); return true; }
  } else if (o.kind == 0 && o.a != o.b) {
    for (auto& m : models) { double x = (double)m.node(o.a), y = (double)m.node(o.b); if (!(std::fabs(x - y) <= 20 * o.tol * (1 + std::max(std::fabs(x), std::fabs(y))))) { emitFail(o, m, confirmSat(m, o), m.node(o.a), m.node(o.b)); return true; } }
  }
  return false;
}
static void finishPath() {
  if (g_probe) { finishProbe(); return; }
  // models of this path: reachability witness, quick refutation, trace validation
  bool mine = false; g_defined.clear();
  vector<pair<const Oblig*, bool>> todo;
  const long obl1 = g_obl; if (g_resume) g_obl = g_resume->obl0;
  const long obl0 = g_obl;
  for (auto& o : P->obs) { g_obl++; if (!g_resume) g_labels[o.label]++; if ((long)(g_obl % g_shards) == g_shard) { todo.push_back({&o, true}); mine = true; } else if (o.lemma) todo.push_back({&o, false}); }
  if (g_resume) g_obl = obl1;
  vector<Eval> models; bool inf = false;
  if (mine || g_paths % g_shards == g_shard) {
    for (int k = 0; k < g_pathModels; k++) { Eval ev; if (pathModel(ev, P->pc, inf)) { bool ok = true; for (int c : P->pc) if (!ev.cond(c)) ok = false; if (ok) models.push_back(std::move(ev)); else if (k == g_pathModels - 1 && models.empty()) models.push_back(std::move(ev)); } if (inf) break; }
    if (inf) return;   // the path is infeasible after all (over-approximated branch)
    if (!g_resume) { if (!models.empty()) g_witness++; else g_nowitness++; }
  }
  vector<Eval> sigs; for (size_t i = 0; i < models.size() && i < 2; i++) sigs.push_back(models[i]);
  if (!sigs.empty()) { g_sig = &sigs; sweepDone.clear(); } else g_sig = nullptr;
  vector<char> failed(todo.size(), 0);
  if (!g_resume) for (size_t i = 0; i < todo.size(); i++) if (todo[i].second && refute(*todo[i].first, models)) { failed[i] = 1; g_mine++; }
  const double tp = now();
  for (size_t i = g_resume ? g_resume->start : 0; i < todo.size(); i++) {
    if (!g_resume && now() - tp > g_pathBudget && now() < g_deadline) { vector<Dec> d(P->dec.begin(), P->dec.begin() + std::min(P->pos, P->dec.size())); g_deferred.push_back({d, obl0, i}); break; }
    if (failed[i]) continue;
    if (todo[i].second) { g_mine++; discharge(*todo[i].first, models); } else if (mine) learn(*todo[i].first);
  }
  g_sig = nullptr;
  if (!g_resume && !models.empty() && g_valid < g_validMax && g_paths % g_shards == g_shard) {
    g_valid++;
    string v = "["; bool first = true; char b[96]; int cnt = 0;
    for (auto& o : P->obs) if (o.kind == 0) { if (++cnt > 400) break; snprintf(b, sizeof b, "%.15g", (double)models[0].node(o.a)); if (!std::isfinite((double)models[0].node(o.a))) snprintf(b, sizeof b, "null"); if (!first) v += ","; first = false; v += "[" + jstr(o.label) + "," + b + "]"; }
    v += "]";
    string notes = "["; for (size_t i = 0; i < P->notes.size() && i < 6; i++) { if (i) notes += ","; notes += jstr(P->notes[i]); } notes += "]";
    fprintf(g_out, "{\"type\":\"trace\",\"assign\":%s,\"notes\":%s,\"values\":%s}\n", assignJson(models[0]).c_str(), notes.c_str(), v.c_str()); fflush(g_out);
  }
}

// ------------------------------------------------------------------ runner
struct HReg { string name; void (*fn)(); };
static vector<HReg>& regs() { static vector<HReg> r; return r; }
Reg::Reg(const char* n, void (*f)()) { regs().push_back({n, f}); }
static map<string, string> g_params;
string param(const string& n, const string& d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second; }
bool thorough() { return param("tier", "quick") == "thorough"; }
static string g_tmp;
string tmpdir() { return g_tmp; }
static sigjmp_buf g_jmp; static volatile int g_inPath = 0; static volatile int g_sigNo = 0;
static void onSig(int s) { if (g_inPath) { g_sigNo = s; siglongjmp(g_jmp, 1); } _exit(100 + s); }
void models_path_start(); void models_path_end();
static long g_stops = 0, g_infeasible = 0, g_aborts = 0;
static vector<string> g_unsupported;

static void runPath(void (*fn)()) {
  P->zs.reset(new z3::solver(mkSolver(1500)));
  models_path_start(); g_logs.clear();
  bool drop = false;
  g_inPath = 1;
  if (sigsetjmp(g_jmp, 1) == 0) {
    try { fn(); models_path_end(); }
    catch (Stop&) { g_stops++; }
    catch (Infeasible&) { drop = true; g_infeasible++; }
    catch (PathAbort&) { drop = true; g_aborts++; }
    catch (Unsupported& u) { g_unsupported.push_back(u.what); }
    catch (EigenAssert& e) { fail(string("Eigen assertion failed: ") + e.expr); }
    catch (z3::exception& e) { g_unsupported.push_back(string("z3: ") + e.msg()); }
    catch (std::exception& e) { fail(string("uncaught exception: ") + e.what()); }
  } else {
    fail(string("crash: signal ") + std::to_string(g_sigNo));
  }
  g_inPath = 0;
  if (!drop) { if (!g_resume) g_paths++; finishPath(); }
}
}  // namespace sx

// functions of the repository that were executed symbolically (compiled with -finstrument-functions)
static void* g_fnTab[1 << 14]; static bool g_fnOn = false;
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* f, void*) {
  if (!g_fnOn) return;
  size_t h = ((size_t)f >> 4) * 2654435761u & ((1 << 14) - 1);
  while (g_fnTab[h] && g_fnTab[h] != f) h = (h + 1) & ((1 << 14) - 1);
  g_fnTab[h] = f;
}
extern "C" __attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
using namespace sx;
int main(int argc, char** argv) {
  mallopt(M_PERTURB, 0x01);
  string harness, out; double budget = 1e9;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto val = [&] { return string(argv[++i]); };
    if (a == "--harness") harness = val();
    else if (a == "--out") out = val();
    else if (a == "--shard") { string v = val(); sscanf(v.c_str(), "%d/%d", &g_shard, &g_shards); }
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--seed") { g_rng.seed(atoi(val().c_str()) * 7919 + 13); }
    else if (a == "--traces") g_validMax = atoi(val().c_str());
    else if (a == "--param") { string v = val(); size_t e = v.find('='); g_params[v.substr(0, e)] = v.substr(e + 1); }
    else if (a == "--list") { for (auto& r : regs()) printf("%s\n", r.name.c_str()); return 0; }
  }
  if (!out.empty()) { g_out = fopen(out.c_str(), "w"); }
  else g_out = fdopen(dup(1), "w");
  setvbuf(g_out, nullptr, _IOFBF, 1 << 22);
  { std::ofstream* nul = new std::ofstream("/dev/null"); std::cout.rdbuf(nul->rdbuf()); std::cerr.rdbuf(nul->rdbuf()); }
  char tmpl[] = "/tmp/sxXXXXXX"; g_tmp = mkdtemp(tmpl);
  zc = new z3::context(); zmemo = new std::unordered_map<int, z3::expr>();
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGILL, &sa, 0);
  g_fnOn = true;
  double t0 = now(); g_deadline = t0 + budget; g_pathBudget = budget * 0.12;
  int rc = 0; bool found = false, exhausted = true; pid_t probeChild = -1; const double probeTime = thorough() ? 120 : 20;
  auto dropTmp = [] { string cmd = g_tmp; if (cmd.rfind("/tmp/sx", 0) == 0) { /* scratch directory of this run */ int r = system(("rm -rf '" + cmd + "'").c_str()); (void)r; } };
  for (auto& r : regs()) {
    if (r.name != harness) continue;
    found = true;
    fflush(g_out); probeChild = fork();
    if (probeChild == 0) {
      g_rng.seed(g_rng() + 977 * (g_shard + 1)); const double end = now() + probeTime;
      prctl(PR_SET_PDEATHSIG, SIGKILL); g_tmp += "/probe"; mkdir(g_tmp.c_str(), 0700);
      for (int i = 0; i < 400 && now() < end && g_fail < 4; i++) { Eval e; g_probe = &e; g_probeMode = (i + g_shard) % 4; PathS ps; P = &ps; runPath(r.fn); P = nullptr; }
      fprintf(g_out, "{\"type\":\"probe\",\"paths\":%ld}\n", g_probePaths); fflush(g_out); _exit(0);
    }
    vector<Dec> prefix;
    while (true) {
      PathS ps; ps.dec = prefix; P = &ps;
      runPath(r.fn);
      if (now() > g_deadline) { exhausted = false; P = nullptr; break; }
      vector<Dec> d(ps.dec.begin(), ps.dec.begin() + std::min(ps.pos, ps.dec.size()));
      while (!d.empty()) {
        Dec& x = d.back();
        if (x.isChoose) { if (x.val + 1 < x.n) { x.val++; break; } }
        else if (x.other) { x.val = !x.val; x.other = false; break; }
        d.pop_back();
      }
      P = nullptr;
      if (d.empty()) break;
      prefix = d;
    }
    for (size_t i = 0; i < g_deferred.size(); i++) {
      const long dec = g_decisions, st = g_stops;
      Deferred df = g_deferred[i]; PathS ps; ps.dec = df.dec; P = &ps; g_resume = &df;
      runPath(r.fn);
      g_resume = nullptr; P = nullptr; g_decisions = dec; g_stops = st;
    }
  }
  string lab = "{"; bool first = true; for (auto& l : g_labels) { if (!first) lab += ","; first = false; lab += jstr(l.first) + ":" + std::to_string(l.second); } lab += "}";
  string uns = "["; for (size_t i = 0; i < g_unsupported.size() && i < 5; i++) { if (i) uns += ","; uns += jstr(g_unsupported[i]); } uns += "]";
  fprintf(g_out, "{\"type\":\"summary\",\"harness\":%s,\"found\":%s,\"exhausted\":%s,\"paths\":%ld,\"decisions\":%ld,\"obligations\":%ld,\"mine\":%ld,\"discharged\":%ld,\"trivial\":%ld,\"reused\":%ld,"
          "\"by_cut\":%d,\"by_normal_form\":%d,\"by_query\":%d,\"by_sweep\":%d,\"lemmas\":%ld,\"nonzero_queries\":%ld,\"nonzero_undecided\":%ld,\"failed\":%ld,\"unproved\":%ld,\"witness\":%ld,\"nowitness\":%ld,\"queries\":%ld,\"unsat\":%ld,\"sat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"stops\":%ld,\"infeasible\":%ld,\"unsupported\":%s,\"unsupported_n\":%zu,\"nodes\":%zu,\"vars\":%zu,\"labels\":%s}\n",
          jstr(harness).c_str(), found ? "true" : "false", exhausted ? "true" : "false", g_paths, g_decisions, g_obl, g_mine, g_disch, g_trivial, g_reused, g_method[2], g_method[3], g_method[4], g_method[5] + g_method[1], g_lemmas, g_defQ, g_defUnk, g_fail, g_unproved, g_witness, g_nowitness, g_queries, g_unsat, g_sat, g_unknown, g_solverTime, now() - t0, g_stops, g_infeasible, uns.c_str(), g_unsupported.size(), N.size(), V.size(), lab.c_str());
  {
    std::set<string> names;
    for (void* f : g_fnTab) if (f) { Dl_info di; if (dladdr(f, &di) && di.dli_sname) { int st; char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); names.insert(d ? d : di.dli_sname); free(d); } }
    fprintf(g_out, "{\"type\":\"functions\",\"names\":["); bool f1 = true; for (auto& n : names) { fprintf(g_out, "%s%s", f1 ? "" : ",", jstr(n).c_str()); f1 = false; } fprintf(g_out, "]}\n");
  }
  fflush(g_out); if (probeChild > 0) { if (!g_unproved && exhausted) kill(probeChild, SIGKILL); int st; waitpid(probeChild, &st, 0); }
  fclose(g_out);
  dropTmp();
  _exit(rc);
}
