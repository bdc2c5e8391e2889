// Run-time of the symbolic build.  See DESIGN.md ("The symfork engine").
#include "sym.h"
#include <gmpxx.h>
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <execinfo.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef mpq_class Q;
static const double INF = INFINITY;

// ------------------------------------------------------------------ shared
struct Shared {
  std::atomic<long> paths, pathsDone, forks, qSat, qUnsat, qUnknown, qInterval, qNormal, solverUs;
  std::atomic<long> checks, proved, violated, inconclusive, witnessSat, crashed, truncated, divforks;
  std::atomic<long> reach, branches, maxTerms, recorded;
  std::atomic<long> covLen, logLen;
  sem_t slots;
  char cov[1 << 20];
  char log[1 << 18];
};
static Shared *SH;
static std::string OUT;
static long PATH_LIMIT = 200000;
static double T0, TLIMIT = 600;
static unsigned RL_FEAS = 3000000, RL_PROOF = 40000000, RL_WIT = 4000000;
static int ALARM_FEAS = 5, ALARM_PROOF = 40;
static bool isChild = false, haveSlot = false;
static std::vector<pid_t> kids;
static int DEBUG = 0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void shlog(const std::string &s) {
  long n = s.size() + 1, p = SH->logLen.fetch_add(n);
  if (p + n < (long)sizeof(SH->log)) { memcpy(SH->log + p, s.c_str(), s.size()); SH->log[p + n - 1] = '\n'; }
  if (DEBUG) fprintf(stderr, "[%d] %s\n", getpid(), s.c_str());
}

// ------------------------------------------------------------------- terms
enum Op { CONST, VAR, ADD, MUL, DIV, SQRT, ABS, UF };
struct Term {
  Op op; int a, b; Q q; std::string name; double lo, hi; bool isint;
};
static std::vector<Term> T;
static std::vector<std::vector<int> > deps;         // variable ids of each term
struct Key { int op, a, b; std::string s; bool operator<(const Key &o) const {
  if (op != o.op) return op < o.op; if (a != o.a) return a < o.a; if (b != o.b) return b < o.b; return s < o.s; } };
static std::map<Key, int> HC;
struct Input { std::string name; int term; bool choice; int val; };
static std::vector<Input> inputs;
static std::vector<std::string> freshNames;

static double dn(double x) { return std::nextafter(x, -INF); }
static double up(double x) { return std::nextafter(x, INF); }
static double qlo(const Q &q) { double d = q.get_d(); if (Q(d) == q) return d; return dn(d < 0 ? dn(d) : d); }
static double qhi(const Q &q) { double d = q.get_d(); if (Q(d) == q) return d; return up(d > 0 ? up(d) : d); }
static double mulx(double x, double y) { if (x == 0 || y == 0) return 0; return x * y; }

static void interval(Term &t) {
  switch (t.op) {
  case CONST: t.lo = qlo(t.q); t.hi = qhi(t.q); return;
  case ADD: { double l = T[t.a].lo + T[t.b].lo, h = T[t.a].hi + T[t.b].hi;
    t.lo = std::isnan(l) ? -INF : dn(l); t.hi = std::isnan(h) ? INF : up(h);
    if (T[t.a].lo >= 0 && T[t.b].lo >= 0 && t.lo < 0) t.lo = 0;
    if (T[t.a].hi <= 0 && T[t.b].hi <= 0 && t.hi > 0) t.hi = 0;
    return; }
  case MUL: {
    if (t.a == t.b) {
      double l = T[t.a].lo, h = T[t.a].hi, m = std::max(std::fabs(l), std::fabs(h));
      t.hi = up(m * m);
      if (l > 0) t.lo = std::max(0.0, dn(l * l)); else if (h < 0) t.lo = std::max(0.0, dn(h * h)); else t.lo = 0;
      return;
    }
    double c[4] = { mulx(T[t.a].lo, T[t.b].lo), mulx(T[t.a].lo, T[t.b].hi), mulx(T[t.a].hi, T[t.b].lo), mulx(T[t.a].hi, T[t.b].hi) };
    double l = *std::min_element(c, c + 4), h = *std::max_element(c, c + 4);
    t.lo = l == 0 ? 0 : dn(l); t.hi = h == 0 ? 0 : up(h);
    if (l > 0 && t.lo < 0) t.lo = 0; if (h < 0 && t.hi > 0) t.hi = 0;
    return; }
  case DIV: {
    double bl = T[t.b].lo, bh = T[t.b].hi;
    if (bl > 0 || bh < 0) {
      double rl = std::isinf(bh) ? 0 : 1 / bh, rh = std::isinf(bl) ? 0 : 1 / bl;
      rl = rl == 0 ? 0 : dn(rl); rh = rh == 0 ? 0 : up(rh);
      if (bl > 0 && rl < 0) rl = 0; if (bh < 0 && rh > 0) rh = 0;
      double c[4] = { mulx(T[t.a].lo, rl), mulx(T[t.a].lo, rh), mulx(T[t.a].hi, rl), mulx(T[t.a].hi, rh) };
      double l = *std::min_element(c, c + 4), h = *std::max_element(c, c + 4);
      t.lo = l == 0 ? 0 : dn(l); t.hi = h == 0 ? 0 : up(h);
    } else if (bl >= 0 || bh <= 0) {
      // sign only (zero excluded by the path condition)
      bool bpos = bl >= 0;
      t.lo = -INF; t.hi = INF;
      if (T[t.a].lo >= 0) { if (bpos) t.lo = 0; else t.hi = 0; }
      else if (T[t.a].hi <= 0) { if (bpos) t.hi = 0; else t.lo = 0; }
    } else { t.lo = -INF; t.hi = INF; }
    return; }
  case SQRT: { double l = T[t.a].lo, h = T[t.a].hi; t.lo = l <= 0 ? 0 : std::max(0.0, dn(std::sqrt(l))); t.hi = h < 0 ? 0 : up(std::sqrt(h)); return; }
  case ABS: { double l = T[t.a].lo, h = T[t.a].hi; t.hi = std::max(std::fabs(l), std::fabs(h)); t.lo = l > 0 ? l : h < 0 ? -h : 0; return; }
  case UF:
    t.lo = -INF; t.hi = INF;
    if (t.name == "exp" || t.name == "pow" || t.name == "exp2") t.lo = 0;
    if (t.name == "sin" || t.name == "cos") { t.lo = -1; t.hi = 1; }
    return;
  case VAR: return;
  }
}
static int intern(Term t, const std::string &extra) {
  Key k = { t.op, t.a, t.b, extra };
  auto it = HC.find(k);
  if (it != HC.end()) return it->second;
  interval(t);
  std::vector<int> d;
  int id = T.size();
  if (t.op == VAR) d.push_back(id);
  else if (t.op == SQRT || t.op == ABS) d = deps[t.a];
  else if (t.op == ADD || t.op == MUL || t.op == DIV || t.op == UF) {
    d = deps[t.a];
    if (t.b >= 0) { std::vector<int> r; std::set_union(d.begin(), d.end(), deps[t.b].begin(), deps[t.b].end(), std::back_inserter(r)); d.swap(r); }
  }
  T.push_back(t); deps.push_back(d);
  HC[k] = id;
  return id;
}
static int mk(Op op, int a, int b, const std::string &name = "") {
  Term t; t.op = op; t.a = a; t.b = b; t.name = name; t.lo = -INF; t.hi = INF; t.isint = false; return intern(t, name);
}
static int mkConst(Q q) {
  q.canonicalize();
  if (mpz_sizeinbase(q.get_num_mpz_t(), 2) > 6000 || mpz_sizeinbase(q.get_den_mpz_t(), 2) > 6000) q = Q(q.get_d());
  Term t; t.op = CONST; t.a = t.b = -1; t.q = q; t.isint = false; return intern(t, q.get_str(62));
}
static bool isC(int t) { return T[t].op == CONST; }
static bool isC(int t, int v) { return T[t].op == CONST && T[t].q == v; }
static int tAdd(int a, int b);
static int tMul(int a, int b) {
  if (isC(a) && isC(b)) return mkConst(T[a].q * T[b].q);
  if (isC(b)) std::swap(a, b);
  if (isC(a, 0)) return a;
  if (isC(a, 1)) return b;
  if (isC(a) && T[b].op == MUL && isC(T[b].a)) return tMul(mkConst(T[a].q * T[T[b].a].q), T[b].b);
  if (!isC(a) && T[a].op == MUL && isC(T[a].a)) { int c = T[a].a, r = T[a].b; return tMul(c, tMul(r, b)); }
  if (!isC(a) && T[b].op == MUL && isC(T[b].a)) { int c = T[b].a, r = T[b].b; return tMul(c, tMul(a, r)); }
  if (a == b && T[a].op == SQRT) return T[a].a;
  if (a == b && T[a].op == ABS) return tMul(T[a].a, T[a].a);
  if (!isC(a) && a > b) std::swap(a, b);
  return mk(MUL, a, b);
}
static int tNeg(int a) { return tMul(mkConst(Q(-1)), a); }
static int tAdd(int a, int b) {
  if (isC(a) && isC(b)) return mkConst(T[a].q + T[b].q);
  if (isC(a, 0)) return b;
  if (isC(b, 0)) return a;
  // c1*x + c2*x
  auto split = [](int t, Q &c, int &x) { if (T[t].op == MUL && isC(T[t].a)) { c = T[T[t].a].q; x = T[t].b; } else { c = 1; x = t; } };
  if (!isC(a) && !isC(b)) { Q c1, c2; int x1, x2; split(a, c1, x1); split(b, c2, x2); if (x1 == x2) return tMul(mkConst(c1 + c2), x1); }
  if (isC(b)) std::swap(a, b);
  if (isC(a) && T[b].op == ADD && isC(T[b].a)) return tAdd(mkConst(T[a].q + T[T[b].a].q), T[b].b);
  if (!isC(a) && a > b) std::swap(a, b);
  return mk(ADD, a, b);
}
static int tSub(int a, int b) { return tAdd(a, tNeg(b)); }
static int tDiv(int a, int b) {                    // b known to be non-zero
  if (isC(b)) { Q r = 1 / T[b].q; return tMul(mkConst(r), a); }
  if (isC(a, 0)) return a;
  if (a == b) return mkConst(1);
  if (T[a].op == MUL && isC(T[a].a)) { int c = T[a].a, r = T[a].b; return tMul(c, tDiv(r, b)); }
  if (T[b].op == MUL && isC(T[b].a)) { Q c = 1 / T[T[b].a].q; int r = T[b].b; return tMul(mkConst(c), tDiv(a, r)); }
  return mk(DIV, a, b);
}
static int tSqrt(int a) {
  if (isC(a)) {
    mpz_class n = T[a].q.get_num(), d = T[a].q.get_den();
    if (n >= 0 && mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) return mkConst(Q(sqrt(n), sqrt(d)));
  }
  if (T[a].op == MUL && T[a].a == T[a].b && T[T[a].a].lo >= 0) return T[a].a;
  return mk(SQRT, a, -1);
}

// ------------------------------------------------------------------ boxing
static const uint64_t TAG = 0x7FFC5359ull;
union U { double d; uint64_t u; };
static bool isBox(double d) { U x; x.d = d; return (x.u >> 32) == TAG; }
static int idOf(double d) { U x; x.d = d; return (int)(x.u & 0xffffffffu); }
static double box(int id) {
  if (isC(id)) { double d = T[id].q.get_d(); if (std::isfinite(d) && Q(d) == T[id].q) return d; }
  U x; x.u = (TAG << 32) | (uint32_t)id; return x.d;
}
// SYM_RATIONAL: a double literal that is the nearest double to p/q for a small non-dyadic q stands for p/q
static int RATIONAL = -1;
static int termOf(double d) {
  if (isBox(d)) return idOf(d);
  if (RATIONAL < 0) RATIONAL = getenv("SYM_RATIONAL") ? atoi(getenv("SYM_RATIONAL")) : 0;
  if (RATIONAL && d != 0 && std::fabs(d) < 1e4 && std::fabs(d) > 1e-4 && std::ldexp(d, 20) != std::floor(std::ldexp(d, 20)))
    for (int q : { 3, 5, 6, 7, 9, 10, 12, 15, 20, 24, 30, 36, 60, 100 }) { double p = std::nearbyint(d * q); if (p != 0 && p / q == d) { Q r((long)p, q); r.canonicalize(); return mkConst(r); } }
  return mkConst(Q(d));
}

// ------------------------------------------------------------- constraints
enum Rel { LE, LT, EQ, NE };
struct Con { Rel r; int a, b; };                   // a r b
static std::vector<Con> PC;
static Con neg(const Con &c) {
  switch (c.r) { case LE: return { LT, c.b, c.a }; case LT: return { LE, c.b, c.a }; case EQ: return { NE, c.a, c.b }; default: return { EQ, c.a, c.b }; }
}
// -1 false, 1 true, 0 unknown
static int byInterval(const Con &c) {
  int d = tSub(c.a, c.b);
  if (isC(d)) {
    int s = sgn(T[d].q); bool v;
    switch (c.r) { case LE: v = s <= 0; break; case LT: v = s < 0; break; case EQ: v = s == 0; break; default: v = s != 0; }
    return v ? 1 : -1;
  }
  double al = std::max(T[c.a].lo - T[c.b].hi, T[d].lo), ah = std::min(T[c.a].hi - T[c.b].lo, T[d].hi);
  // exact comparisons of the endpoints
  bool lt = T[c.a].hi < T[c.b].lo || T[d].hi < 0, le = T[c.a].hi <= T[c.b].lo || T[d].hi <= 0;
  bool gt = T[c.a].lo > T[c.b].hi || T[d].lo > 0, ge = T[c.a].lo >= T[c.b].hi || T[d].lo >= 0;
  (void)al; (void)ah;
  switch (c.r) {
  case LE: if (le) return 1; if (gt) return -1; return 0;
  case LT: if (lt) return 1; if (ge) return -1; return 0;
  case EQ: if (lt || gt) return -1; return 0;
  default: if (lt || gt) return 1; return 0;
  }
}
// already in the path condition (syntactically)?
static int bySyntax(const Con &c) {
  for (auto &p : PC) {
    bool same = p.a == c.a && p.b == c.b, swp = p.a == c.b && p.b == c.a;
    if (!same && !swp) continue;
    // p: relation between a and b of c; translate to sign set of (c.a - c.b): bit0 '<', bit1 '=', bit2 '>'
    auto setOf = [](Rel r, bool sw) { int s = r == LE ? 3 : r == LT ? 1 : r == EQ ? 2 : 5; if (sw) s = ((s & 1) << 2) | (s & 2) | ((s >> 2) & 1); return s; };
    int ps = setOf(p.r, swp), cs = setOf(c.r, false);
    if ((ps & ~cs) == 0) return 1;
    if ((ps & cs) == 0) return -1;
  }
  return 0;
}

// ------------------------------------------------- rational normal forms
typedef std::vector<std::pair<int, int> > Mono;    // (atom term, exponent), sorted
typedef std::map<Mono, Q> Poly;
struct Rat { Poly n; std::map<int, int> d; };      // denominator: factor polynomial id -> exponent
static std::vector<Poly> FAC; static std::map<Poly, int> FACID;
struct TooBig {};
static size_t NF_CAP = 6000;
static Poly pc(const Q &q) { Poly p; if (q != 0) p[Mono()] = q; return p; }
static Poly pa(int t) { Poly p; p[Mono(1, std::make_pair(t, 1))] = 1; return p; }
static void paddto(Poly &a, const Poly &b, const Q &c) {
  for (auto &m : b) { Q v = m.second * c; auto it = a.find(m.first);
    if (it == a.end()) a[m.first] = v; else { it->second += v; if (it->second == 0) a.erase(it); } }
  if (a.size() > NF_CAP) throw TooBig();
}
static Mono mmul(const Mono &a, const Mono &b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { r.push_back(std::make_pair(a[i].first, a[i].second + b[j].second)); ++i; ++j; }
  }
  return r;
}
static Poly pmul(const Poly &a, const Poly &b) {
  if (a.size() * b.size() > 40 * NF_CAP) throw TooBig();
  Poly r;
  for (auto &x : a) for (auto &y : b) {
    Mono m = mmul(x.first, y.first); Q v = x.second * y.second; auto it = r.find(m);
    if (it == r.end()) r[m] = v; else { it->second += v; if (it->second == 0) r.erase(it); }
  }
  if (r.size() > NF_CAP) throw TooBig();
  return r;
}
// a / b exactly, or false
static bool pdivexact(const Poly &a, const Poly &b, Poly &q) {
  if (a.size() * b.size() > 200000) return false;
  // term order must be multiplicative: use graded comparison on exponent vectors (lex on atoms)
  auto less = [](const Mono &x, const Mono &y) {
    size_t i = 0, j = 0;
    while (true) {
      if (i == x.size() && j == y.size()) return false;
      if (i == x.size()) return true;
      if (j == y.size()) return false;
      if (x[i].first != y[j].first) return x[i].first > y[j].first; // smaller atom index = more significant
      if (x[i].second != y[j].second) return x[i].second < y[j].second;
      ++i; ++j;
    }
  };
  typedef std::map<Mono, Q, decltype(less)> OP;
  OP r(less), bb(less);
  for (auto &m : a) r[m.first] = m.second;
  for (auto &m : b) bb[m.first] = m.second;
  const Mono lb = bb.rbegin()->first; const Q cb = bb.rbegin()->second;
  q.clear();
  size_t steps = 0;
  while (!r.empty()) {
    if (++steps > a.size() + 50) return false;
    Mono lr = r.rbegin()->first; Q c = r.rbegin()->second / cb;
    Mono m; size_t j = 0;
    for (size_t i = 0; i < lr.size(); ++i) {
      int e = lr[i].second;
      if (j < lb.size() && lb[j].first < lr[i].first) return false;
      if (j < lb.size() && lb[j].first == lr[i].first) { e -= lb[j].second; ++j; }
      if (e < 0) return false;
      if (e) m.push_back(std::make_pair(lr[i].first, e));
    }
    if (j < lb.size()) return false;
    q[m] = c;
    for (auto &t : bb) { Mono mm = mmul(m, t.first); Q v = c * t.second; auto it = r.find(mm);
      if (it == r.end()) r[mm] = -v; else { it->second -= v; if (it->second == 0) r.erase(it); } }
    if (r.size() > NF_CAP) return false;
  }
  return true;
}
static int facId(const Poly &p) { auto it = FACID.find(p); if (it != FACID.end()) return it->second; int i = FAC.size(); FAC.push_back(p); FACID[p] = i; return i; }
static bool dividesAtom(const Poly &n, int atom) {
  for (auto &m : n) { bool f = false; for (auto &e : m.first) if (e.first == atom) f = true; if (!f) return false; }
  return true;
}
static Poly divAtom(const Poly &n, int atom) {
  Poly r; for (auto &m : n) { Mono k; for (auto &e : m.first) { if (e.first == atom) { if (e.second > 1) k.push_back(std::make_pair(atom, e.second - 1)); } else k.push_back(e); } r[k] = m.second; } return r;
}
static void cancel(Rat &x) {
  if (x.n.empty()) { x.d.clear(); return; }
  for (auto it = x.d.begin(); it != x.d.end();) {
    const Poly f = FAC[it->first];
    if (f.size() == 1) {
      int atom = f.begin()->first[0].first;
      while (it->second > 0 && dividesAtom(x.n, atom)) { x.n = divAtom(x.n, atom); --it->second; }
    } else {
      Poly q;
      while (it->second > 0 && pdivexact(x.n, f, q)) { x.n = q; --it->second; }
    }
    if (it->second == 0) it = x.d.erase(it); else ++it;
  }
}
static Rat radd(const Rat &a, const Rat &b, const Q &c) {
  Rat r;
  if (a.d == b.d) { r = a; paddto(r.n, b.n, c); cancel(r); return r; }
  Poly na = a.n, nb = b.n;
  r.d = a.d;
  for (auto &f : b.d) { int &e = r.d[f.first]; e = std::max(e, f.second); }
  for (auto &f : r.d) {
    auto ia = a.d.find(f.first), ib = b.d.find(f.first);
    int ea = ia == a.d.end() ? 0 : ia->second, eb = ib == b.d.end() ? 0 : ib->second;
    for (int k = ea; k < f.second; ++k) na = pmul(na, FAC[f.first]);
    for (int k = eb; k < f.second; ++k) nb = pmul(nb, FAC[f.first]);
  }
  paddto(na, nb, c); r.n = na; cancel(r); return r;
}
static Rat nf(int t);
static Rat rmul(const Rat &a, const Rat &b);
static bool hasSqrtPower(const Poly &p) {
  for (auto &m : p) for (auto &e : m.first) if ((T[e.first].op == SQRT || T[e.first].op == ABS) && e.second >= 2) return true;
  return false;
}
static Rat reduceSqrt(const Rat &x) {
  if (!hasSqrtPower(x.n)) return x;
  Rat r; 
  for (auto &m : x.n) {
    Mono k; Rat f; f.n = pc(m.second);
    for (auto &e : m.first) {
      if ((T[e.first].op == SQRT || T[e.first].op == ABS) && e.second >= 2) { for (int i = 0; i < e.second / 2; ++i) { f = rmul(f, nf(T[e.first].a)); if (T[e.first].op == ABS) f = rmul(f, nf(T[e.first].a)); } if (e.second % 2) k.push_back(std::make_pair(e.first, 1)); }
      else k.push_back(e);
    }
    Rat g; g.n[k] = 1; f = rmul(f, g); r = radd(r, f, 1);
  }
  for (auto &f : x.d) r.d[f.first] += f.second;
  cancel(r);
  return r;
}
static Rat rmul(const Rat &a, const Rat &b) {
  Rat r; r.n = pmul(a.n, b.n); r.d = a.d; for (auto &f : b.d) r.d[f.first] += f.second; cancel(r); return reduceSqrt(r);
}
static Rat rinv(const Rat &a) {
  Rat r; r.n = pc(1);
  if (a.n.empty()) throw TooBig();
  // numerator of a -> factors
  Poly p = a.n; Q lead = p.begin()->second;
  // common monomial
  std::map<int, int> common; bool first = true;
  for (auto &m : p) { std::map<int, int> e; for (auto &x : m.first) e[x.first] = x.second;
    if (first) { common = e; first = false; } else for (auto it = common.begin(); it != common.end();) { auto f = e.find(it->first); if (f == e.end()) it = common.erase(it); else { it->second = std::min(it->second, f->second); ++it; } } }
  for (auto &c : common) { for (int k = 0; k < c.second; ++k) p = divAtom(p, c.first); r.d[facId(pa(c.first))] += c.second; }
  for (auto &m : p) m.second /= lead;
  if (!(p.size() == 1 && p.begin()->first.empty())) {
    // try known factors
    bool again = true;
    for (int f = 0; f < (int)FAC.size() && again && FAC.size() < 400; ++f) if (FAC[f].size() > 1 && FAC[f].size() < p.size()) {
      Poly q; while (pdivexact(p, FAC[f], q)) { p = q; r.d[f] += 1; if (p.size() == 1) { again = false; break; } }
    }
    if (!(p.size() == 1 && p.begin()->first.empty())) {
      Q l2 = p.begin()->second; for (auto &m : p) m.second /= l2; lead *= l2;
      if (p.size() == 1) { for (auto &e : p.begin()->first) r.d[facId(pa(e.first))] += e.second; }
      else r.d[facId(p)] += 1;
    } else lead *= p.begin()->second;
  }
  r.n = pc(1 / lead);
  for (auto &f : a.d) for (int k = 0; k < f.second; ++k) r.n = pmul(r.n, FAC[f.first]);
  cancel(r);
  return r;
}
static std::unordered_map<int, Rat> NF; static std::set<int> NFbad;
static Rat nf(int t) {
  auto it = NF.find(t); if (it != NF.end()) return it->second;
  if (NFbad.count(t)) throw TooBig();
  Rat r;
  try {
    switch (T[t].op) {
    case CONST: r.n = pc(T[t].q); break;
    case ADD: r = radd(nf(T[t].a), nf(T[t].b), 1); break;
    case MUL: r = rmul(nf(T[t].a), nf(T[t].b)); break;
    case DIV: r = rmul(nf(T[t].a), rinv(nf(T[t].b))); break;
    default: r.n = pa(t);
    }
    if (NF_CAP && r.n.size() > NF_CAP) throw TooBig();
  } catch (TooBig &) { NFbad.insert(t); throw; }
  NF[t] = r;
  return r;
}

// ---------------------------------------------------------------------- z3
static Z3_context Z; static Z3_sort ZR;
static std::map<int, Z3_ast> ZT;
static void zerr(Z3_context, Z3_error_code e) { if (e != Z3_OK && DEBUG) fprintf(stderr, "z3: %s\n", Z3_get_error_msg(Z, e)); }
static void onAlarm(int) { if (Z) Z3_interrupt(Z); }
static void zinit() {
  if (Z) return;
  Z3_config c = Z3_mk_config(); Z = Z3_mk_context(c); Z3_del_config(c);
  Z3_set_error_handler(Z, zerr);
  ZR = Z3_mk_real_sort(Z);
}
static Z3_ast znum(const Q &q) { return Z3_mk_numeral(Z, q.get_str().c_str(), ZR); }
static Z3_ast zvar(const std::string &n) { return Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), ZR); }
static Z3_ast zterm(int t) {
  auto it = ZT.find(t); if (it != ZT.end()) return it->second;
  Z3_ast r;
  switch (T[t].op) {
  case CONST: r = znum(T[t].q); break;
  case VAR: r = zvar("v" + std::to_string(t)); break;
  case ADD: { Z3_ast a[2] = { zterm(T[t].a), zterm(T[t].b) }; r = Z3_mk_add(Z, 2, a); break; }
  case MUL: { Z3_ast a[2] = { zterm(T[t].a), zterm(T[t].b) }; r = Z3_mk_mul(Z, 2, a); break; }
  case DIV: r = zvar("d" + std::to_string(t)); break;
  case SQRT: case ABS: r = zvar("s" + std::to_string(t)); break;
  default: r = zvar("u" + std::to_string(t)); break;
  }
  ZT[t] = r; return r;
}
static Z3_ast zrel(Rel r, Z3_ast a, Z3_ast b) {
  switch (r) { case LE: return Z3_mk_le(Z, a, b); case LT: return Z3_mk_lt(Z, a, b); case EQ: return Z3_mk_eq(Z, a, b); default: return Z3_mk_not(Z, Z3_mk_eq(Z, a, b)); }
}
static Z3_ast zmono(const Mono &m) {
  if (m.empty()) return znum(1);
  std::vector<Z3_ast> a; for (auto &e : m) for (int k = 0; k < e.second; ++k) a.push_back(zterm(e.first));
  return a.size() == 1 ? a[0] : Z3_mk_mul(Z, a.size(), &a[0]);
}
static Z3_ast zpoly(const Poly &p, std::map<Mono, Z3_ast> *lin) {
  std::vector<Z3_ast> a;
  for (auto &m : p) {
    Z3_ast x;
    if (m.first.empty()) { a.push_back(znum(m.second)); continue; }
    if (lin && !(m.first.size() == 1 && m.first[0].second == 1)) {
      auto it = lin->find(m.first);
      if (it == lin->end()) { x = zvar("m" + std::to_string(lin->size())); (*lin)[m.first] = x; } else x = it->second;
    } else x = zmono(m.first);
    Z3_ast b[2] = { znum(m.second), x };
    a.push_back(m.second == 1 ? x : Z3_mk_mul(Z, 2, b));
  }
  if (a.empty()) return znum(0);
  return a.size() == 1 ? a[0] : Z3_mk_add(Z, a.size(), &a[0]);
}
// polynomial form of a constraint: p rel 0
static bool polyCon(const Con &c, Poly &p, Rel &rel) {
  try {
    Rat r = nf(tSub(c.a, c.b));
    rel = c.r; p = r.n;
    if (c.r == LE || c.r == LT) {
      for (auto &f : r.d) if (f.second % 2) {
        // sign of factor by interval
        double l = 0, h = 0;
        for (auto &m : FAC[f.first]) {
          double ml = 1, mh = 1;
          for (auto &e : m.first) for (int k = 0; k < e.second; ++k) {
            double c4[4] = { mulx(ml, T[e.first].lo), mulx(ml, T[e.first].hi), mulx(mh, T[e.first].lo), mulx(mh, T[e.first].hi) };
            ml = *std::min_element(c4, c4 + 4); mh = *std::max_element(c4, c4 + 4);
          }
          double c0 = m.second.get_d(), x = mulx(ml, c0), y = mulx(mh, c0); if (x > y) std::swap(x, y);
          l += x; h += y;
        }
        if (l >= 0) continue;                      // factor is positive (non-zero by the path condition)
        if (h <= 0) { Poly q; paddto(q, p, -1); p = q; continue; }
        p = pmul(p, FAC[f.first]);
      }
    }
    return true;
  } catch (TooBig &) { return false; }
}
static void collect(int t, std::set<int> &seen) {
  if (!seen.insert(t).second) return;
  switch (T[t].op) { case ADD: case MUL: case DIV: collect(T[t].a, seen); collect(T[t].b, seen); break; case SQRT: case ABS: case UF: collect(T[t].a, seen); if (T[t].b >= 0) collect(T[t].b, seen); break; default:; }
}
static void zbounds(Z3_solver s, Z3_ast x, double lo, double hi) {
  if (std::isfinite(lo)) Z3_solver_assert(Z, s, Z3_mk_ge(Z, x, znum(Q(lo))));
  if (std::isfinite(hi)) Z3_solver_assert(Z, s, Z3_mk_le(Z, x, znum(Q(hi))));
}
typedef std::map<std::string, std::string> Model;
enum Res { SAT, UNSAT, UNK };
static Res runz(Z3_solver s, unsigned rl, int al) {
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), rl);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  struct itimerval it = { {0, 0}, {al, 0} }, off = { {0, 0}, {0, 0} };
  double t0 = now();
  setitimer(ITIMER_REAL, &it, 0);
  Z3_lbool r = Z3_solver_check(Z, s);
  setitimer(ITIMER_REAL, &off, 0);
  double dt = now() - t0;
  SH->solverUs += (long)(1e6 * dt);
  if (DEBUG > 1 || (DEBUG && dt > 1)) fprintf(stderr, "[%d] z3 %d in %.3f s\n", getpid(), (int)r, dt);
  return r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
}
static std::string evalNum(Z3_model m, Z3_ast x) {
  Z3_ast v; if (!Z3_model_eval(Z, m, x, true, &v)) return "0";
  if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) { return Z3_get_numeral_string(Z, v); }
  if (Z3_is_algebraic_number(Z, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(Z, v, 20); return Z3_get_numeral_string(Z, lo); }
  return "0";
}
static Model getModel(Z3_solver s) {
  Model M; Z3_model m = Z3_solver_get_model(Z, s); if (!m) return M; Z3_model_inc_ref(Z, m);
  for (auto &in : inputs) if (!in.choice) M[in.name] = evalNum(m, zterm(in.term));
  Z3_model_dec_ref(Z, m); return M;
}
// slice of PC relevant to the constraints cs
static std::vector<Con> slice(const std::vector<Con> &cs) {
  std::set<int> vars; for (auto &c : cs) { for (int v : deps[c.a]) vars.insert(v); for (int v : deps[c.b]) vars.insert(v); }
  std::vector<char> in(PC.size(), 0); bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < PC.size(); ++i) if (!in[i]) {
      bool hit = false;
      for (int v : deps[PC[i].a]) if (vars.count(v)) { hit = true; break; }
      if (!hit) for (int v : deps[PC[i].b]) if (vars.count(v)) { hit = true; break; }
      if (hit) { in[i] = 1; ch = true; for (int v : deps[PC[i].a]) vars.insert(v); for (int v : deps[PC[i].b]) vars.insert(v); }
    }
  }
  std::vector<Con> r; for (size_t i = 0; i < PC.size(); ++i) if (in[i]) r.push_back(PC[i]); return r;
}
// strategy A: polynomial normal forms, monomials as independent unknowns, linear arithmetic.
// UNSAT is conclusive; SAT is conclusive only if nothing was abstracted.
static Res tryLinear(const std::vector<Con> &cs, unsigned rl, int al, bool &exact, Model *M) {
  zinit();
  Z3_solver s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s);
  std::map<Mono, Z3_ast> lin; std::set<int> atoms; exact = true; bool any = false;
  for (auto &c : cs) {
    Poly p; Rel r;
    if (!polyCon(c, p, r)) { exact = false; continue; }
    any = true;
    for (auto &m : p) for (auto &e : m.first) atoms.insert(e.first);
    if (p.empty()) { bool v = r == LE || r == EQ; if (!v) Z3_solver_assert(Z, s, Z3_mk_false(Z)); continue; }
    Z3_solver_assert(Z, s, zrel(r, zpoly(p, &lin), znum(0)));
  }
  Res res = UNK;
  if (any) {
    for (int a : atoms) { zbounds(s, zterm(a), T[a].lo, T[a].hi); if (T[a].op != VAR) exact = false; }
    for (auto &m : lin) {
      exact = false;
      double l = 1, h = 1;
      bool sq = true;
      for (auto &e : m.first) { if (e.second % 2) sq = false; for (int k = 0; k < e.second; ++k) {
        double c4[4] = { mulx(l, T[e.first].lo), mulx(l, T[e.first].hi), mulx(h, T[e.first].lo), mulx(h, T[e.first].hi) };
        l = *std::min_element(c4, c4 + 4); h = *std::max_element(c4, c4 + 4); if (l != 0) l = dn(l); if (h != 0) h = up(h); } }
      if (sq && l < 0) l = 0;
      zbounds(s, m.second, l, h);
    }
    res = runz(s, rl, al);
    if (res == SAT && !exact) res = UNK;
    if (res == SAT && M) *M = getModel(s);
  }
  Z3_solver_dec_ref(Z, s);
  return res;
}
static Z3_ast zabs(Z3_ast r, Z3_ast x) { Z3_ast m[2] = { znum(-1), x }; Z3_ast o[2] = { Z3_mk_eq(Z, r, x), Z3_mk_eq(Z, r, Z3_mk_mul(Z, 2, m)) }; return Z3_mk_or(Z, 2, o); }
static void assertRaw(Z3_solver s, const std::vector<Con> &cs) {
  std::set<int> seen;
  for (auto &c : cs) { collect(c.a, seen); collect(c.b, seen); Z3_solver_assert(Z, s, zrel(c.r, zterm(c.a), zterm(c.b))); }
  for (int t : seen) {
    if (T[t].op == VAR) zbounds(s, zterm(t), T[t].lo, T[t].hi);
    else if (T[t].op == DIV) { Z3_ast a[2] = { zterm(t), zterm(T[t].b) }; Z3_solver_assert(Z, s, Z3_mk_eq(Z, Z3_mk_mul(Z, 2, a), zterm(T[t].a)));
      Z3_solver_assert(Z, s, Z3_mk_not(Z, Z3_mk_eq(Z, zterm(T[t].b), znum(0)))); zbounds(s, zterm(t), T[t].lo, T[t].hi); }
    else if (T[t].op == SQRT) { Z3_ast a[2] = { zterm(t), zterm(t) }; Z3_solver_assert(Z, s, Z3_mk_eq(Z, Z3_mk_mul(Z, 2, a), zterm(T[t].a))); Z3_solver_assert(Z, s, Z3_mk_ge(Z, zterm(t), znum(0))); }
    else if (T[t].op == ABS) { Z3_solver_assert(Z, s, zabs(zterm(t), zterm(T[t].a))); Z3_solver_assert(Z, s, Z3_mk_ge(Z, zterm(t), znum(0))); }
    else if (T[t].op == UF) zbounds(s, zterm(t), T[t].lo, T[t].hi);
  }
}
static Z3_solver mkNra() {
  Z3_tactic t = Z3_mk_tactic(Z, "qfnra"); Z3_tactic_inc_ref(Z, t);
  Z3_solver s = Z3_mk_solver_from_tactic(Z, t); Z3_solver_inc_ref(Z, s); Z3_tactic_dec_ref(Z, t); return s;
}
// strategy B: nonlinear real arithmetic on normal forms (where available) or raw terms
static Res tryNra(const std::vector<Con> &cs, unsigned rl, int al, Model *M, bool raw, bool smt = false) {
  zinit();
  Z3_solver s;
  if (smt) { s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); } else s = mkNra();
  if (raw) assertRaw(s, cs);
  else {
    std::vector<Con> rest; std::set<int> atoms, seen;
    for (auto &c : cs) {
      Poly p; Rel r;
      if (!polyCon(c, p, r)) { rest.push_back(c); continue; }
      for (auto &m : p) for (auto &e : m.first) atoms.insert(e.first);
      if (p.empty()) { bool v = r == LE || r == EQ; if (!v) Z3_solver_assert(Z, s, Z3_mk_false(Z)); continue; }
      Z3_solver_assert(Z, s, zrel(r, zpoly(p, 0), znum(0)));
    }
    std::set<int> todo(atoms.begin(), atoms.end()), done;
    while (!todo.empty()) {
      int a = *todo.begin(); todo.erase(todo.begin()); if (!done.insert(a).second) continue;
      zbounds(s, zterm(a), T[a].lo, T[a].hi);
      if (T[a].op == ABS) {
        Poly ap; Rel ar; std::set<int> sub; bool ok = false;
        try { Rat q = nf(T[a].a); Poly l = pa(a), p1, p2; for (auto &f : q.d) for (int k = 0; k < f.second; ++k) l = pmul(l, FAC[f.first]); p1 = l; paddto(p1, q.n, -1); p2 = l; paddto(p2, q.n, 1);
          Z3_ast o[2] = { Z3_mk_eq(Z, zpoly(p1, 0), znum(0)), Z3_mk_eq(Z, zpoly(p2, 0), znum(0)) }; Z3_solver_assert(Z, s, Z3_mk_or(Z, 2, o)); Z3_solver_assert(Z, s, Z3_mk_ge(Z, zterm(a), znum(0)));
          for (auto &m : p1) for (auto &e : m.first) todo.insert(e.first); ok = true; } catch (TooBig &) { }
        (void)ok;
      }
      if (T[a].op == SQRT) { std::vector<Con> x; Poly p; Rel r; int sq = mk(MUL, a, a); // s*s = arg, as normal form
        (void)sq; try { Rat ar = nf(T[a].a); Rat l; l.n = pa(a); Poly lhs = pmul(l.n, l.n); for (auto &f : ar.d) for (int k = 0; k < f.second; ++k) lhs = pmul(lhs, FAC[f.first]); paddto(lhs, ar.n, -1);
          Z3_solver_assert(Z, s, Z3_mk_eq(Z, zpoly(lhs, 0), znum(0))); for (auto &m : lhs) for (auto &e : m.first) todo.insert(e.first);
        } catch (TooBig &) { }
      }
    }
    if (!rest.empty()) assertRaw(s, rest);
  }
  Res r = runz(s, rl, al);
  if (r == SAT && M) *M = getModel(s);
  Z3_solver_dec_ref(Z, s);
  return r;
}
static std::string smt2(const std::vector<Con> &cs) {
  zinit(); Z3_solver s = mkNra(); assertRaw(s, cs); std::string r = Z3_solver_to_string(Z, s); Z3_solver_dec_ref(Z, s); return r;
}
static Res tryCvc5(const std::vector<Con> &cs, int secs) {
  std::string f = OUT + "/q" + std::to_string(getpid()) + ".smt2";
  FILE *o = fopen(f.c_str(), "w"); if (!o) return UNK;
  fprintf(o, "(set-logic QF_NRA)\n%s\n(check-sat)\n", smt2(cs).c_str()); fclose(o);
  double t0 = now();
  std::string cmd = "cvc5 --tlimit=" + std::to_string(secs * 1000) + " " + f + " 2>/dev/null";
  FILE *p = popen(cmd.c_str(), "r"); char buf[64] = ""; if (p) { if (!fgets(buf, 64, p)) buf[0] = 0; pclose(p); }
  SH->solverUs += (long)(1e6 * (now() - t0));
  unlink(f.c_str());
  if (!strncmp(buf, "unsat", 5)) return UNSAT; if (!strncmp(buf, "sat", 3)) return SAT; return UNK;
}
static void count(Res r) { if (r == SAT) SH->qSat++; else if (r == UNSAT) SH->qUnsat++; else SH->qUnknown++; }
static bool hasEqTerm(const std::vector<Con> &cs) { for (auto &c : cs) if (c.r == EQ) return true; return false; }

// Is PC and extra satisfiable?  Used for path feasibility.
static std::map<std::vector<int>, Res> feasCache;
static Res feasible(const Con &c) {
  int q = byInterval(c); if (q) { SH->qInterval++; return q > 0 ? SAT : UNSAT; }
  q = bySyntax(c); if (q) { SH->qInterval++; return q > 0 ? SAT : UNSAT; }
  std::vector<Con> cs(1, c); std::vector<Con> sl = slice(cs); sl.push_back(c);
  bool exact; Res r = tryLinear(sl, RL_FEAS, ALARM_FEAS, exact, 0);
  if (r == UNK) r = tryNra(sl, RL_FEAS, ALARM_FEAS, 0, false);
  if (r == UNK && hasEqTerm(sl)) r = tryNra(sl, RL_FEAS, ALARM_FEAS, 0, false, true);
  count(r); return r;
}

// ----------------------------------------------------------------- forking
static void finish(int code);
static void checkLimits() {
  if (SH->recorded >= 4) finish(0);   // enough counterexamples
  if (SH->paths > PATH_LIMIT || now() - T0 > TLIMIT) { if (!SH->truncated.fetch_add(1)) shlog("LIMIT reached: paths/time"); finish(0); }
}
static void reap(bool block) {
  for (size_t i = 0; i < kids.size();) {
    int st; pid_t r = waitpid(kids[i], &st, block ? 0 : WNOHANG);
    if (r == kids[i]) {
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; shlog("CHILD died status " + std::to_string(st)); }
      kids.erase(kids.begin() + i);
    } else if (r < 0) { kids.erase(kids.begin() + i); } else ++i;
  }
}
// returns true in the new process
static bool doFork() {
  checkLimits();
  SH->forks++; SH->paths++;
  bool par = sem_trywait(&SH->slots) == 0;
  fflush(0);
  pid_t p = fork();
  if (p < 0) { shlog("fork failed"); SH->truncated++; return false; }
  if (p == 0) { isChild = true; haveSlot = par; kids.clear(); return true; }
  if (par) { kids.push_back(p); reap(false); }
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; shlog("CHILD died status " + std::to_string(st)); } }
  return false;
}
static void finish(int code) {
  SH->pathsDone++;
  long nt = T.size(); if (nt > SH->maxTerms) SH->maxTerms = nt;
  if (haveSlot) { sem_post(&SH->slots); haveSlot = false; }
  while (!kids.empty()) reap(true);
  fflush(0);
  if (isChild) _exit(code);
  exit(code);
}
static std::string btrace() {
  return "";
}
static bool branch(const Con &c) {
  checkLimits();
  SH->branches++;
  Res rt = feasible(c);
  if (rt == UNSAT) { return false; }
  Con n = neg(c);
  Res rf = feasible(n);
  if (rf == UNSAT) { return true; }
  if (DEBUG > 1) fprintf(stderr, "[%d] fork on %d (%d,%d) %d/%d\n", getpid(), c.r, c.a, c.b, rt, rf);
  if (doFork()) { PC.push_back(c); return true; }
  PC.push_back(n); return false;
}

// -------------------------------------------------------- findings / models
// model search with most inputs pinned to simple values (only ever used to find a model faster)
static bool pinnedModel(const std::vector<Con> &cs, Model &M) {
  zinit();
  unsigned rng = 12345;
  for (int att = 0; att < 6; ++att) {
    std::vector<Z3_ast> from, to; std::vector<std::pair<std::string, Q>> pins;
    int keep = att < 2 ? 0 : att < 4 ? 25 : 50;
    for (auto &in : inputs) {
      if (in.choice) continue;
      rng = rng * 1103515245u + 12345u; if ((int)((rng >> 16) % 100) < keep) continue;
      rng = rng * 1103515245u + 12345u; int k = 1 + (int)((rng >> 16) % 7);
      double lo = T[in.term].lo, hi = T[in.term].hi; Q v;
      if (std::isinf(lo) && std::isinf(hi)) v = Q(k - 4); else if (std::isinf(lo)) v = Q(hi) - k; else if (std::isinf(hi)) v = Q(lo) + k;
      else v = Q(lo) + (Q(hi) - Q(lo)) * Q(k) / 8;
      v.canonicalize(); from.push_back(zterm(in.term)); to.push_back(znum(v)); pins.push_back({ in.name, v });
    }
    if (from.empty()) return false;
    Z3_solver s0 = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s0); assertRaw(s0, cs);
    Z3_ast_vector av = Z3_solver_get_assertions(Z, s0); Z3_ast_vector_inc_ref(Z, av);
    Z3_solver s = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, s);
    for (unsigned i = 0; i < Z3_ast_vector_size(Z, av); ++i) Z3_solver_assert(Z, s, Z3_simplify(Z, Z3_substitute(Z, Z3_ast_vector_get(Z, av, i), from.size(), &from[0], &to[0])));
    Res r = runz(s, 1500000, 2); SH->qUnsat += 0;
    if (r == SAT) { M = getModel(s); for (auto &p : pins) M[p.first] = p.second.get_str(); }
    Z3_ast_vector_dec_ref(Z, av); Z3_solver_dec_ref(Z, s); Z3_solver_dec_ref(Z, s0);
    if (r == SAT) { count(r); return true; }
  }
  return false;
}
static bool fullModel(std::vector<Con> extra, Model &M, unsigned rl) {
  std::vector<Con> cs = PC; cs.insert(cs.end(), extra.begin(), extra.end());
  bool exact; Res r = tryLinear(cs, rl, ALARM_PROOF / 2, exact, &M);
  if (r == UNSAT) { count(r); return false; }
  if (r == UNK && pinnedModel(cs, M)) return true;
  if (r == UNK) r = tryNra(cs, rl, ALARM_PROOF / 4, &M, false, true);
  if (r == UNK) r = tryNra(cs, rl, ALARM_PROOF / 2, &M, false);
  if (r == UNK) r = tryNra(cs, rl, ALARM_PROOF / 4, &M, true);
  count(r);
  return r == SAT;
}
static int nviol = 0;
static void record(const std::string &label, const Model &M, const char *kind) {
  std::string f = OUT + "/" + kind + "_" + std::to_string(getpid()) + "_" + std::to_string(nviol++) + ".txt";
  if (kind[0] == 'v') SH->recorded++;
  FILE *o = fopen(f.c_str(), "w"); if (!o) return;
  fprintf(o, "label %s\n", label.c_str());
  for (auto &in : inputs) {
    if (in.choice) fprintf(o, "choice %s %d\n", in.name.c_str(), in.val);
    else { auto it = M.find(in.name); std::string s = it == M.end() ? "0" : it->second; double v = 0; try { Q q(s); v = q.get_d(); } catch (...) { } fprintf(o, "real %s %.17g %s\n", in.name.c_str(), v, s.size() < 200 ? s.c_str() : "-"); }
  }
  fclose(o);
}
static void violation(const std::string &label, std::vector<std::vector<Con> > tries) {
  SH->violated++;
  int got = 0;
  for (auto &t : tries) {
    Model M;
    if (fullModel(t, M, RL_PROOF / 4)) { record(label, M, "viol"); if (++got >= 2) break; }
  }
  if (!got) { SH->inconclusive++; shlog("NOMODEL " + label); }
}
static volatile int inHandler = 0;
static void onCrash(int sig) {
  if (inHandler) _exit(99);
  inHandler = 1;
  signal(sig, SIG_DFL);
  SH->violated++;
  Model M; std::vector<Con> none;
  std::string lab = std::string("crash: signal ") + std::to_string(sig);
  if (DEBUG) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
  if (fullModel(none, M, RL_PROOF / 4)) record(lab, M, "viol"); else { SH->inconclusive++; shlog("NOMODEL " + lab); }
  finish(0);
}
// prove that PC implies not c  (c = negated check)
static void refute(const Con &c, const std::string &label) {
  checkLimits();
  SH->checks++;
  int q = byInterval(c); if (q == 0) q = bySyntax(c);
  if (q < 0) { SH->proved++; SH->qInterval++; return; }
  std::vector<Con> cs(1, c), sl = slice(cs); sl.push_back(c);
  Res r = UNK; bool exact = false;
  if (c.r == NE || c.r == LT || c.r == LE) {
    // the goal alone may already be contradictory after normalisation: still a solver query, on the small formula
    Poly p; Rel rel;
    if (polyCon(c, p, rel) && p.empty() && (rel == NE || rel == LT)) { std::vector<Con> only(1, c); r = tryLinear(only, RL_FEAS, ALARM_FEAS, exact, 0); SH->qNormal++; }
  }
  if (r != UNSAT) r = tryLinear(sl, RL_PROOF, ALARM_PROOF, exact, 0);
  if (DEBUG > 1) fprintf(stderr, "[%d] refute %s: linear -> %d\n", getpid(), label.c_str(), r);
  if (r == UNK) r = tryNra(sl, RL_PROOF / 40, 1, 0, false, true);
  if (r == UNK) r = tryNra(sl, RL_PROOF / 20, 2, 0, false);
  if (r == UNK) r = tryNra(sl, RL_PROOF / 8, ALARM_PROOF / 4, 0, false, true);
  if (r == UNK) r = tryNra(sl, RL_PROOF, ALARM_PROOF, 0, false);
  if (r == UNK) r = tryNra(sl, RL_PROOF / 2, ALARM_PROOF, 0, true);
  if (r == UNK) r = tryCvc5(sl, ALARM_PROOF);
  count(r);
  if (r == UNSAT) { SH->proved++; return; }
  if (r == UNK) { SH->inconclusive++; shlog("UNKNOWN " + label); if (getenv("SYM_DUMPQ")) { FILE *o = fopen((OUT + "/unk" + std::to_string(getpid()) + ".smt2").c_str(), "w"); fprintf(o, "%s(check-sat)\n", smt2(sl).c_str()); fclose(o); } }
  // satisfiable or unknown: look for a robust counterexample
  std::vector<std::vector<Con> > tries;
  const char *mg[] = { "1", "1/1000", "1/1000000" };
  for (auto m : mg) {
    int d = tSub(c.a, c.b), k = mkConst(Q(m));
    if (c.r == NE) { std::vector<Con> t1, t2; t1.push_back({ LE, k, d }); t2.push_back({ LE, d, tNeg(k) }); tries.push_back(t1); tries.push_back(t2); }
    else if (c.r == LT || c.r == LE) { std::vector<Con> t1; t1.push_back({ LE, d, tNeg(k) }); tries.push_back(t1); }
  }
  std::vector<Con> plain(1, c); tries.push_back(plain);
  if (r == UNK) {
    long before = SH->violated; (void)before;
    int got = 0;
    for (auto &t : tries) { Model M; if (fullModel(t, M, RL_PROOF / 8)) { record(label, M, "viol"); SH->violated++; if (++got >= 2) break; } }
    return;
  }
  violation(label, tries);
}

// --------------------------------------------------------------- operations
static int MAXABS = 0;
struct MaxOf { int a, b; bool ismax; };
static std::map<int, MaxOf> MAXOF;
extern "C" {
void __sym_cover_fn(const char *s, char *flag) {
  if (*flag) return; *flag = 1; if (!SH) return;
  long n = strlen(s) + 1, p = SH->covLen.fetch_add(n);
  if (p + n < (long)sizeof(SH->cov)) { memcpy(SH->cov + p, s, n - 1); SH->cov[p + n - 1] = '\n'; }
}
static bool exactAdd(double a, double b, double r) { if (!std::isfinite(r)) return true; double bb = r - a; double e = (a - (r - bb)) + (b - bb); return e == 0; }
static int sign3(double x);   // forks: -1, 0, 1
double __sym_fneg(double a) { if (!isBox(a)) return -a; return box(tNeg(idOf(a))); }
double __sym_fadd(double a, double b) {
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb) { double r = a + b; if (exactAdd(a, b, r)) return r; return box(tAdd(termOf(a), termOf(b))); }
  if (!ba && !std::isfinite(a)) return a; if (!bb && !std::isfinite(b)) return b;
  return box(tAdd(termOf(a), termOf(b)));
}
double __sym_fsub(double a, double b) { return __sym_fadd(a, __sym_fneg(b)); }
double __sym_fmul(double a, double b) {
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb) { double r = a * b; if (!std::isfinite(r) || !std::isfinite(a) || !std::isfinite(b)) return r; if ((r == 0 ? (a == 0 || b == 0) : (std::fabs(r) > 1e-250 && std::fma(a, b, -r) == 0))) return r; return box(tMul(termOf(a), termOf(b))); }
  if ((!ba && !std::isfinite(a)) || (!bb && !std::isfinite(b))) {
    double inf = ba ? b : a, x = ba ? a : b; if (std::isnan(inf)) return inf;
    int s = sign3(x); return s == 0 ? NAN : s * inf;
  }
  return box(tMul(termOf(a), termOf(b)));
}
double __sym_fdiv(double a, double b) {
  bool ba = isBox(a), bb = isBox(b);
  if (!ba && !bb) { double r = a / b; if (!std::isfinite(r) || !std::isfinite(a) || !std::isfinite(b) || a == 0) return r; if (std::fabs(r) > 1e-250 && std::fabs(a) > 1e-250 && std::fma(r, b, -a) == 0) return r; return box(tDiv(termOf(a), termOf(b))); }
  if (!bb) {
    if (std::isnan(b)) return b; if (std::isinf(b)) return 0.0;
    if (b == 0) { int s = sign3(a); return s == 0 ? NAN : (std::signbit(b) ? -s : s) * INFINITY; }
    return box(tDiv(termOf(a), termOf(b)));
  }
  // symbolic divisor: zero or not?
  int tb = idOf(b);
  if (branch({ EQ, tb, mkConst(0) })) {
    SH->divforks++;
    if (!ba) { if (std::isnan(a)) return a; return a == 0 ? NAN : (a > 0 ? INFINITY : -INFINITY); }
    int s = sign3(a); return s == 0 ? NAN : s * INFINITY;
  }
  if (!ba && !std::isfinite(a)) { if (std::isnan(a)) return a; int s = sign3(b); return s * a; }
  return box(tDiv(termOf(a), tb));
}
int __sym_fcmp(int pred, double a, double b) {
  if (MAXABS && isBox(a) != isBox(b) && (pred & 6) != 6 && (pred & 6) != 0) {   // max/min against a constant: decide operand by operand
    bool sw = isBox(b); double m = sw ? b : a, c = sw ? a : b; int pr = pred; if (sw) pr = (pred & 9) | ((pred & 2) << 1) | ((pred & 4) >> 1);
    auto it = MAXOF.find(idOf(m));
    if (it != MAXOF.end() && std::isfinite(c)) {
      double x = box(it->second.a), y = box(it->second.b); bool gt = pr & 2;
      bool any = gt == it->second.ismax;          // max > c or min < c: some operand; otherwise both
      int r = __sym_fcmp(pr, x, c); if ((r != 0) == any) return r; return __sym_fcmp(pr, y, c);
    }
  }
  // LLVM predicate encoding: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
  bool ba = isBox(a), bb = isBox(b);
  bool O = pred & 8, L = pred & 4, G = pred & 2, E = pred & 1;
  if (!ba && !bb) {
    if (std::isnan(a) || std::isnan(b)) return O;
    return (a < b && L) || (a > b && G) || (a == b && E);
  }
  if ((!ba && std::isnan(a)) || (!bb && std::isnan(b))) return O;
  if (!ba && std::isinf(a)) return a < 0 ? L : G;
  if (!bb && std::isinf(b)) return b > 0 ? L : G;
  if (L && G && E) return 1; if (!L && !G && !E) return 0;
  int ta = termOf(a), tb = termOf(b); Con c;
  if (L && E) c = { LE, ta, tb }; else if (G && E) c = { LE, tb, ta }; else if (L && G) c = { NE, ta, tb };
  else if (L) c = { LT, ta, tb }; else if (G) c = { LT, tb, ta }; else c = { EQ, ta, tb };
  return branch(c);
}
static int sign3(double x) {
  if (!isBox(x)) return x > 0 ? 1 : x < 0 ? -1 : 0;
  if (__sym_fcmp(2, x, 0.0)) return 1; if (__sym_fcmp(4, x, 0.0)) return -1; return 0;
}
int __sym_fpclass(double a, int mask) {
  if (isBox(a)) {
    // finite; treat as normal number or zero
    bool zero = (mask & 0x60) != 0, nrm = (mask & 0x108) != 0;
    if (zero == nrm) return nrm; 
    int z = __sym_fcmp(1, a, 0.0); return z ? zero : nrm;
  }
  int c; bool s = std::signbit(a);
  switch (std::fpclassify(a)) {
  case FP_NAN: c = 0x3; break; case FP_INFINITE: c = s ? 0x4 : 0x200; break; case FP_ZERO: c = s ? 0x20 : 0x40; break;
  case FP_SUBNORMAL: c = s ? 0x10 : 0x80; break; default: c = s ? 0x8 : 0x100; }
  return (c & mask) != 0;
}
static int tAbs(int a);
double __sym_fabs(double a) { if (!isBox(a)) return std::fabs(a); return box(tAbs(idOf(a))); }
static int tAbs(int a);
// r*r == a ?
static bool psqrt(const Poly &a, Poly &r) {
  if (a.empty() || a.size() > 400) return false;
  auto less = [](const Mono &x, const Mono &y) {
    for (size_t i = 0, j = 0;; ++i, ++j) {
      if (i == x.size() && j == y.size()) return false;
      if (i == x.size()) return true;
      if (j == y.size()) return false;
      if (x[i].first != y[j].first) return x[i].first > y[j].first;
      if (x[i].second != y[j].second) return x[i].second < y[j].second;
    }
  };
  auto lead = [&](const Poly &q) { auto b = q.begin(); for (auto it = q.begin(); it != q.end(); ++it) if (less(b->first, it->first)) b = it; return b; };
  auto l = lead(a); Mono m; Q c = l->second;
  for (auto &e : l->first) { if (e.second % 2) return false; m.push_back(std::make_pair(e.first, e.second / 2)); }
  mpz_class n = c.get_num(), d = c.get_den();
  if (n < 0 || !mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  r.clear(); const Q c0 = Q(sqrt(n), sqrt(d)); r[m] = c0;
  for (size_t steps = 0; steps < 60; ++steps) {
    Poly rem = a; paddto(rem, pmul(r, r), -1);
    if (rem.empty()) return true;
    auto t = lead(rem); Mono q; size_t j = 0;
    for (size_t i = 0; i < t->first.size(); ++i) {
      int e = t->first[i].second;
      if (j < m.size() && m[j].first < t->first[i].first) return false;
      if (j < m.size() && m[j].first == t->first[i].first) { e -= m[j].second; ++j; }
      if (e < 0) return false;
      if (e) q.push_back(std::make_pair(t->first[i].first, e));
    }
    if (j < m.size() || r.count(q) || !less(q, m)) return false;
    r[q] = t->second / (2 * c0);
  }
  return false;
}
static int tPoly(const Poly &p) {
  int t = -1;
  for (auto &m : p) {
    int f = mkConst(m.second);
    for (auto &e : m.first) for (int k = 0; k < e.second; ++k) f = tMul(f, e.first);
    t = t < 0 ? f : tAdd(t, f);
  }
  return t < 0 ? mkConst(0) : t;
}
// sqrt of a perfect square of a rational function is its absolute value
static int sqrtOfSquare(int a) {
  if (isC(a)) return -1;
  try {
    Rat x = nf(a); Poly r;
    for (auto &f : x.d) if (f.second % 2) return -1;
    Q k = 1; if (!x.n.empty()) { k = x.n.begin()->second; Poly y; if (k > 0) { Q i = 1 / k; paddto(y, x.n, i); if (!psqrt(y, r)) { r.clear(); k = 1; } } else k = 1; }
    int sc = -1;
    Poly r1;
    if (psqrt(x.n, r1)) { k = 1; r = r1; } else if (!r.empty()) sc = tSqrt(mkConst(k));
    else {   // canonical argument, so that equal roots are the same term
      if (!x.d.empty() || x.n.size() > 60 || x.n.empty()) return -1;
      Q c = abs(x.n.begin()->second); Poly y; paddto(y, x.n, 1 / c);
      return tMul(tSqrt(mkConst(c)), tSqrt(tPoly(y)));
    }
    int t = tPoly(r);
    for (auto &f : x.d) { int g = tPoly(FAC[f.first]); for (int i = 0; i < f.second / 2; ++i) t = tDiv(t, g); }
    const int z = mkConst(0);
    if (T[t].lo >= 0) ; else if (T[t].hi <= 0) t = tNeg(t);
    else if (feasible(Con{LT, t, z}) == UNSAT) ; else if (feasible(Con{LT, z, t}) == UNSAT) t = tNeg(t);
    else t = tAbs(t);
    return sc < 0 ? t : tMul(sc, t);
  } catch (TooBig &) { return -1; }
}
double __sym_sqrt(double a) {
  if (isBox(a)) { int q = sqrtOfSquare(idOf(a)); if (q >= 0) return box(q); }
  if (!isBox(a)) { double r = std::sqrt(a); if (!std::isfinite(r) || a == 0 || std::fma(r, r, -a) == 0) return r; return box(tSqrt(termOf(a))); }
  if (__sym_fcmp(4, a, 0.0)) return NAN;
  return box(tSqrt(idOf(a)));
}
// largest integer k with k <= a, by case split
static long ifloor(double a) {
  int t = idOf(a);
  if (isC(t)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), T[t].q.get_num_mpz_t(), T[t].q.get_den_mpz_t()); return z.get_si(); }
  double lo = T[t].lo, hi = T[t].hi;
  if (std::isfinite(lo) && std::isfinite(hi) && hi - lo <= 4096) {
    long l = (long)std::floor(lo), h = (long)std::floor(hi);
    while (l < h) { long m = l + (h - l) / 2; if (branch({ LT, t, mkConst(Q(m + 1)) })) h = m; else l = m + 1; }
    // the interval may be loose: make the bracket part of the path condition
    return l;
  }
  // unbounded: model guided
  for (int it = 0; it < 64; ++it) {
    Model M; std::vector<Con> cs; cs.push_back({ EQ, t, t }); 
    std::vector<Con> none; zinit();
    Z3_solver s = mkNra(); std::vector<Con> sl = slice(std::vector<Con>(1, Con{ LE, t, t })); assertRaw(s, sl);
    std::set<int> seen; collect(t, seen); std::vector<Con> dummy(1, Con{ LE, t, t }); assertRaw(s, dummy);
    Res r = runz(s, RL_FEAS, ALARM_FEAS); long k = 0; bool ok = r == SAT;
    if (ok) { Z3_model m = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, m); Q q(evalNum(m, zterm(t))); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); k = z.get_si(); Z3_model_dec_ref(Z, m); }
    Z3_solver_dec_ref(Z, s);
    if (!ok) break;
    if (!branch({ LT, t, mkConst(Q(k)) }) && branch({ LT, t, mkConst(Q(k + 1)) })) return k;
  }
  SH->truncated++; shlog("floor: too many values"); finish(0); return 0;
}
long __sym_fptosi(double a) { if (!isBox(a)) return (long)a; if (__sym_fcmp(2 | 1, a, 0.0)) return ifloor(a); double n = __sym_fneg(a); return isBox(n) ? -ifloor(n) : -(long)n; }
long __sym_fptoui(double a) { if (!isBox(a)) return (long)(unsigned long)a; return ifloor(a); }
double __sym_floor(double a) { return isBox(a) ? (double)ifloor(a) : std::floor(a); }
double __sym_ceil(double a) { if (!isBox(a)) return std::ceil(a); double n = __sym_fneg(a); return -(isBox(n) ? (double)ifloor(n) : std::floor(n)); }
double __sym_trunc(double a) { return isBox(a) ? (double)__sym_fptosi(a) : std::trunc(a); }
double __sym_round(double a) { if (!isBox(a)) return std::round(a); if (__sym_fcmp(3, a, 0.0)) return __sym_floor(__sym_fadd(a, 0.5)); return -__sym_floor(__sym_fadd(__sym_fneg(a), 0.5)); }
double __sym_rint(double a) { if (!isBox(a)) return std::rint(a); return __sym_round(a); }
double __sym_concretize(double a) { if (!isBox(a)) return a; int t = idOf(a); if (isC(t)) return T[t].q.get_d(); if (!SH->truncated.fetch_add(1)) shlog("symbolic value narrowed to non-double type"); finish(0); return 0; }
static int tAbs(int a) {
  if (isC(a)) return mkConst(abs(T[a].q));
  if (T[a].lo >= 0) return a; if (T[a].hi <= 0) return tNeg(a);
  if (T[a].op == ABS) return a;
  if (T[a].op == MUL && isC(T[a].a)) { int c = T[a].a, r = T[a].b; return tMul(mkConst(abs(T[c].q)), tAbs(r)); }
  if (T[a].op == DIV && T[T[a].b].lo >= 0) { int n = T[a].a, d = T[a].b; return tDiv(tAbs(n), d); }
  return mk(ABS, a, -1);
}
const double *__sym_maxref(const double *pa, const double *pb, int ismax) {
  if (!MAXABS || !(isBox(*pa) || isBox(*pb))) return 0;
  if ((!isBox(*pa) && !std::isfinite(*pa)) || (!isBox(*pb) && !std::isfinite(*pb))) return 0;
  int a = termOf(*pa), b = termOf(*pb), r = byInterval({ LE, a, b });
  if (r) return ((r > 0) == (ismax != 0)) ? pb : pa;
  int s = tAdd(a, b), d = tAbs(tSub(a, b)); r = tMul(mkConst(Q(1, 2)), ismax ? tAdd(s, d) : tSub(s, d));
  if (isC(r)) return 0;
  if (r == a) return pa; if (r == b) return pb;
  double l = ismax ? std::max(T[a].lo, T[b].lo) : std::min(T[a].lo, T[b].lo), h = ismax ? std::max(T[a].hi, T[b].hi) : std::min(T[a].hi, T[b].hi);
  T[r].lo = std::max(T[r].lo, l); T[r].hi = std::min(T[r].hi, h);
  MAXOF.insert(std::make_pair(r, MaxOf{ a, b, ismax != 0 }));
  double *p = new double; *p = box(r); return p;
}
static double uf1(const char *n, double a, double (*f)(double)) {
  if (!isBox(a)) return f(a); int t = idOf(a); if (isC(t)) return f(T[t].q.get_d()); return box(mk(UF, t, -1, n));
}
double __sym_exp(double a) { return uf1("exp", a, std::exp); }
double __sym_log(double a) { return uf1("log", a, std::log); }
double __sym_log10(double a) { return uf1("log10", a, std::log10); }
double __sym_log2(double a) { return uf1("log2", a, std::log2); }
double __sym_exp2(double a) { return uf1("exp2", a, std::exp2); }
double __sym_sin(double a) { return uf1("sin", a, std::sin); }
double __sym_cos(double a) { return uf1("cos", a, std::cos); }
double __sym_tan(double a) { return uf1("tan", a, std::tan); }
double __sym_asin(double a) { return uf1("asin", a, std::asin); }
double __sym_acos(double a) { return uf1("acos", a, std::acos); }
double __sym_atan(double a) { return uf1("atan", a, std::atan); }
double __sym_sinh(double a) { return uf1("sinh", a, std::sinh); }
double __sym_cosh(double a) { return uf1("cosh", a, std::cosh); }
double __sym_tanh(double a) { return uf1("tanh", a, std::tanh); }
double __sym_cbrt(double a) { return uf1("cbrt", a, std::cbrt); }
double __sym_expm1(double a) { return uf1("expm1", a, std::expm1); }
double __sym_log1p(double a) { return uf1("log1p", a, std::log1p); }
double __sym_fmax(double a, double b) { if (!isBox(a) && std::isnan(a)) return b; if (!isBox(b) && std::isnan(b)) return a; return __sym_fcmp(4, a, b) ? b : a; }
double __sym_fmin(double a, double b) { if (!isBox(a) && std::isnan(a)) return b; if (!isBox(b) && std::isnan(b)) return a; return __sym_fcmp(4, b, a) ? b : a; }
double __sym_fdim(double a, double b) { return __sym_fcmp(2, a, b) ? __sym_fsub(a, b) : 0.0; }
double __sym_hypot(double a, double b) { if (!isBox(a) && !isBox(b)) return std::hypot(a, b); return __sym_sqrt(__sym_fadd(__sym_fmul(a, a), __sym_fmul(b, b))); }
double __sym_copysign(double a, double b) {
  if (!isBox(a) && !isBox(b)) return std::copysign(a, b);
  double m = __sym_fabs(a); int s = isBox(b) ? (sign3(b) < 0) : std::signbit(b); return s ? __sym_fneg(m) : m;
}
double __sym_fmod(double a, double b) {
  if (!isBox(a) && !isBox(b)) return std::fmod(a, b);
  double q = __sym_trunc(__sym_fdiv(a, b)); return __sym_fsub(a, __sym_fmul(q, b));
}
double __sym_atan2(double a, double b) { if (!isBox(a) && !isBox(b)) return std::atan2(a, b); return box(mk(UF, termOf(a), termOf(b), "atan2")); }
double __sym_pow(double a, double b) {
  if (!isBox(a) && !isBox(b)) { if (b == 2) return __sym_fmul(a, a); return std::pow(a, b); }
  if (!isBox(b)) {
    if (b == 0.5) return __sym_sqrt(a);
    if (b == std::floor(b) && std::fabs(b) <= 16) {
      int n = (int)std::fabs(b); double r = 1.0; for (int i = 0; i < n; ++i) r = __sym_fmul(r, a); return b < 0 ? __sym_fdiv(1.0, r) : r;
    }
  }
  return box(mk(UF, termOf(a), termOf(b), "pow"));
}

// ------------------------------------------------------------------ harness API
int sym_is_symbolic(void) { return 1; }
int sym_is_term(double x) { return isBox(x) && !isC(idOf(x)); }
int sym_is_nan(double x) { return !isBox(x) && std::isnan(x); }
static int newVar(const std::string &name, double lo, double hi) {
  Term t; t.op = VAR; t.a = t.b = -1; t.name = name; t.lo = lo; t.hi = hi; t.isint = false;
  return intern(t, name + "#" + std::to_string(T.size()));
}
double sym_real(const char *name, double lo, double hi) {
  std::string nm = name; for (char &c : nm) if (c == ' ') c = '_'; int k = 0; for (auto &i : inputs) if (i.name == nm || i.name.compare(0, nm.size() + 1, nm + "~") == 0) ++k;
  if (k) nm += "~" + std::to_string(k);
  int t = newVar(nm, lo, hi); inputs.push_back({ nm, t, false, 0 });
  return box(t);
}
double sym_fresh(const char *name) { return box(newVar(name, -INFINITY, INFINITY)); }
int sym_choice(const char *name, int n) {
  std::string nm = name; for (char &c : nm) if (c == ' ') c = '_'; int k = 0; for (auto &i : inputs) if (i.name == nm || i.name.compare(0, nm.size() + 1, nm + "~") == 0) ++k;
  if (k) nm += "~" + std::to_string(k);
  int v = 0; while (v < n - 1) { if (doFork()) break; ++v; }
  inputs.push_back({ nm, -1, true, v });
  return v;
}
static void assume(Con c) {
  int q = byInterval(c); if (q > 0) return; if (q < 0) finish(0);
  if (bySyntax(c) > 0) return;
  PC.push_back(c);
}
static bool conc(double a, double b, bool &nan) { nan = (!isBox(a) && !std::isfinite(a)) || (!isBox(b) && !std::isfinite(b)); return !isBox(a) && !isBox(b); }
void sym_stop(void) { finish(0); }
static void assumeInfeasible(Con c) { // keep paths feasible after an assumption
  if (feasible(c) == UNSAT) finish(0);
  assume(c);
}
void sym_assume_le(double a, double b) { bool n; if (conc(a, b, n) || n) { if (!__sym_fcmp(5, a, b)) finish(0); return; } assumeInfeasible({ LE, termOf(a), termOf(b) }); }
void sym_assume_lt(double a, double b) { bool n; if (conc(a, b, n) || n) { if (!__sym_fcmp(4, a, b)) finish(0); return; } assumeInfeasible({ LT, termOf(a), termOf(b) }); }
void sym_assume_eq(double a, double b) { bool n; if (conc(a, b, n) || n) { if (!(a == b)) finish(0); return; } assume({ EQ, termOf(a), termOf(b) }); }
void sym_assume_ne(double a, double b) { bool n; if (conc(a, b, n) || n) { if (a == b) finish(0); return; } assumeInfeasible({ NE, termOf(a), termOf(b) }); }
static void concreteFail(const char *label) {
  // reached with concrete values: reachable path = violation
  Model M; std::vector<Con> none; 
  if (!PC.empty()) { std::vector<Con> cs = PC; bool ex; Res r = tryLinear(cs, RL_PROOF / 4, ALARM_PROOF / 2, ex, 0); if (r == UNK) r = tryNra(cs, RL_PROOF / 4, ALARM_PROOF / 2, 0, false); count(r); if (r == UNSAT) { SH->proved++; finish(0); } }
  std::vector<std::vector<Con> > tries(1, none); violation(label, tries);
}
void sym_check(int cond, const char *label) { SH->checks++; if (cond) { SH->proved++; return; } concreteFail(label); }
void sym_check_eq(double a, double b, const char *label) {
  bool n; bool cc = conc(a, b, n);
  if (cc || n) {
    bool ok = !n ? a == b : (!isBox(a) && !isBox(b) && a == b);
    // both concrete: the computation may have involved inexact constants
    if (!ok && cc && !n && std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b))) ok = true;
    SH->checks++; if (ok) { SH->proved++; return; } concreteFail(label); return;
  }
  int ta = termOf(a), tb = termOf(b);
  if (isC(ta) && isC(tb)) { Q d = T[ta].q - T[tb].q; Q m = abs(T[ta].q) + abs(T[tb].q); SH->checks++; if (abs(d) <= m * Q("1/1000000000000")) { SH->proved++; return; } concreteFail(label); return; }
  refute({ NE, ta, tb }, label);
}
void sym_check_le(double a, double b, const char *label) {
  bool n; bool cc = conc(a, b, n);
  if (cc || n) { SH->checks++; int ok; if (!isBox(a) && std::isnan(a)) ok = 0; else if (!isBox(b) && std::isnan(b)) ok = 0; else ok = __sym_fcmp(5, a, b); if (ok) { SH->proved++; return; } concreteFail(label); return; }
  refute({ LT, termOf(b), termOf(a) }, label);
}
void sym_check_lt(double a, double b, const char *label) {
  bool n; bool cc = conc(a, b, n);
  if (cc || n) { SH->checks++; int ok; if (!isBox(a) && std::isnan(a)) ok = 0; else if (!isBox(b) && std::isnan(b)) ok = 0; else ok = __sym_fcmp(4, a, b); if (ok) { SH->proved++; return; } concreteFail(label); return; }
  refute({ LE, termOf(b), termOf(a) }, label);
}
void sym_reach(const char *) { SH->reach++; }
static std::string show(int t, int depth) {
  switch (T[t].op) {
  case CONST: { std::string s = T[t].q.get_str(); return s.size() > 24 ? std::to_string(T[t].q.get_d()) : s; }
  case VAR: return T[t].name;
  default: if (depth <= 0) return "#" + std::to_string(t);
  }
  const char *o = T[t].op == ADD ? " + " : T[t].op == MUL ? "*" : " / ";
  if (T[t].op == SQRT) return "sqrt(" + show(T[t].a, depth - 1) + ")";
  if (T[t].op == UF) return T[t].name + "(" + show(T[t].a, depth - 1) + ")";
  return "(" + show(T[t].a, depth - 1) + o + show(T[t].b, depth - 1) + ")";
}
void sym_dump(const char *what, double x) { if (!DEBUG) return; if (isBox(x)) fprintf(stderr, "%s = %s\n", what, show(idOf(x), 30).c_str()); else fprintf(stderr, "%s = %.17g\n", what, x); }

static int diff(int f, int x, std::unordered_map<int, int> &memo) {
  if (f == x) return mkConst(1);
  if (!std::binary_search(deps[f].begin(), deps[f].end(), x)) return mkConst(0);
  auto it = memo.find(f); if (it != memo.end()) return it->second;
  int r = 0; Term t = T[f];
  switch (t.op) {
  case ADD: r = tAdd(diff(t.a, x, memo), diff(t.b, x, memo)); break;
  case MUL: r = tAdd(tMul(diff(t.a, x, memo), t.b), tMul(t.a, diff(t.b, x, memo))); break;
  case DIV: { int da = diff(t.a, x, memo), db = diff(t.b, x, memo); r = tSub(tDiv(da, t.b), tDiv(tMul(t.a, db), tMul(t.b, t.b))); break; }
  case SQRT: r = tDiv(diff(t.a, x, memo), tMul(mkConst(2), f)); break;
  case ABS: r = tMul(tDiv(f, t.a), diff(t.a, x, memo)); break;
  case UF:
    if (t.name == "exp") r = tMul(f, diff(t.a, x, memo));
    else if (t.name == "log") r = tDiv(diff(t.a, x, memo), t.a);
    else { SH->truncated++; shlog("derivative of " + t.name); finish(0); }
    break;
  default: r = mkConst(0);
  }
  memo[f] = r; return r;
}
double sym_diff(double f, double x) {
  if (!isBox(f)) return 0.0; std::unordered_map<int, int> memo; return box(diff(idOf(f), idOf(x), memo));
}
void sym_native_tol(double, double) {}
void sym_solve(int n, const int *ia, const int *ja, const double *sa, const double *b, double *x) {
  // any exact solution of the assembled system
  for (int i = 0; i < n; ++i) { std::string s = "x" + std::to_string(i); x[i] = sym_fresh(s.c_str()); }
  for (int i = 0; i < n; ++i) {
    int s = mkConst(0);
    for (int k = ia[i]; k < ia[i + 1]; ++k) s = tAdd(s, tMul(termOf(sa[k]), termOf(x[ja[k]])));
    assume({ EQ, s, termOf(b[i]) });
  }
}
void harness(void);
} // extern C

#include <exception>
#include <typeinfo>
extern "C" int sym_run_harness(std::string &what) {
  try { harness(); } catch (std::exception &e) { what = std::string(typeid(e).name()) + ": " + e.what(); return 1; } catch (...) { what = "unknown exception"; return 1; }
  return 0;
}
static void setupShared() {
  if (SH) return;
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->paths = 1; T0 = now();
}
static struct InitShared { InitShared() { setupShared(); } } initShared;   // instrumented static initialisers run before main
static long envl(const char *n, long d) { const char *s = getenv(n); return s ? atol(s) : d; }
int main(int argc, char **argv) {
  OUT = argc > 1 ? argv[1] : "/tmp";
  DEBUG = envl("SYM_DEBUG", 0);
  PATH_LIMIT = envl("SYM_PATHS", PATH_LIMIT); TLIMIT = envl("SYM_TIME", 600); MAXABS = envl("SYM_MAXABS", 0);
  RL_FEAS = envl("SYM_RL_FEAS", RL_FEAS); RL_PROOF = envl("SYM_RL_PROOF", RL_PROOF);
  ALARM_FEAS = envl("SYM_AL_FEAS", ALARM_FEAS); ALARM_PROOF = envl("SYM_AL_PROOF", ALARM_PROOF);
  NF_CAP = envl("SYM_NFCAP", NF_CAP);
  setupShared();
  sem_init(&SH->slots, 1, envl("SYM_JOBS", 8) - 1);
  T0 = now();
  signal(SIGALRM, onAlarm);
  static char alt[1 << 20]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  int sigs[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL };
  for (int s : sigs) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0); }
  pid_t w = fork();
  if (w == 0) {
    isChild = true;
    std::string what;
    int e = sym_run_harness(what);
    if (e) {
      SH->checks++;
      concreteFail(("uncaught exception " + what).c_str());
    } else if (SH->witnessSat < 4) {
      Model M; std::vector<Con> none; if (fullModel(none, M, RL_WIT)) { SH->witnessSat++; record("path witness", M, "wit"); }
    }
    finish(0);
  }
  { int st; while (waitpid(w, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->crashed++; shlog("root path died"); } }
  FILE *o = fopen((OUT + "/stats.txt").c_str(), "w");
#define P(f) fprintf(o, #f " %ld\n", (long)SH->f);
  P(paths) P(pathsDone) P(forks) P(branches) P(qSat) P(qUnsat) P(qUnknown) P(qInterval) P(qNormal) P(solverUs) P(checks) P(proved) P(violated) P(inconclusive) P(witnessSat) P(crashed) P(truncated) P(divforks) P(reach) P(maxTerms)
  fprintf(o, "wall_ms %ld\n", (long)(1000 * (now() - T0)));
  fclose(o);
  o = fopen((OUT + "/cov.txt").c_str(), "w"); fwrite(SH->cov, 1, std::min((long)SH->covLen, (long)sizeof(SH->cov)), o); fclose(o);
  o = fopen((OUT + "/log.txt").c_str(), "w"); fwrite(SH->log, 1, std::min((long)SH->logLen, (long)sizeof(SH->log)), o); fclose(o);
  return 0;
}
