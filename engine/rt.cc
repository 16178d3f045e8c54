// Symbolic runtime.  Integers: bit-vectors (z3).  Doubles: exact reals, rational functions over the inputs (GMP
// coefficients) + square roots; decided by linear abstraction over monomials (z3 QF_LRA) and z3 nlsat.
#include "lfs.h"
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" {
uint32_t __lfs_arg[256];
uint32_t __lfs_ret[256];
void* __lfs_target;
void* __lfs_exited;   // instrumented function that returned last
static unsigned char covInit[1 << 17];
unsigned char* __lfs_cov = covInit;
}
static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// ------------------------------------------------------------------------------------------------ shared statistics
struct CaseStat {
  char name[96];
  std::atomic<long> paths, killed, aborted, forks, branches, concretised, assertsBV, assertsReal, obIdentity, obLRA, obNRA, obInterval, obConst,
      qBV, qLRA, qNRA, tBV, tLRA, tNRA, unknown, infeasChecks, unsup, violations, undecided, incomplete, measureZero, witnesses, symReals, symInts,
      icp, refused, crashed, maxDepth, tWall, divNonzero, prune;
};
struct Shared {
  std::atomic<long> running, totalViol, err;
  std::atomic<long> notes[64];
  char noteName[64][64];
  std::atomic<int> nnotes;
  CaseStat cs[256];
  unsigned char cov[1 << 17];
};
static Shared* G;
static CaseStat* S;
static int NPROC = 8;
static double deadline = 1e18;
static std::string outDir = ".";
static std::string curCase;
static bool thorough = false;
static bool ownsToken = true;
static long depth = 0;
static uint64_t pathHash = 1;
static unsigned long seedBase = 1;
static bool inRuntime = false;

[[noreturn]] static void endProcess();
static void msg(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = snprintf(b, 200, "[%s %d] ", curCase.c_str(), (int)getpid());
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  if (write(2, b, n) < 0) {}
}
[[noreturn]] static void unsupported(const char* what) {
  S->unsup++;
  msg("UNSUPPORTED: %s", what);
  if (getenv("LFS_BT")) { void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); }
  if (getenv("LFS_ABORT")) abort();
  endProcess();
}

// ------------------------------------------------------------------------------------------------ shadow memory
struct SPage { uint32_t e[4096]; };
static SPage** tbl;
static inline SPage* pageOf(uintptr_t a) { return tbl[(a >> 12) & ((1ull << 35) - 1)]; }
static SPage* mkPage(uintptr_t a) {
  SPage*& p = tbl[(a >> 12) & ((1ull << 35) - 1)];
  if (!p) p = (SPage*)mmap(nullptr, sizeof(SPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p;
}
__attribute__((constructor(101))) static void initTbl() {
  if (tbl) return;
  tbl = (SPage**)mmap(nullptr, (1ull << 35) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (tbl == MAP_FAILED) { fprintf(stderr, "cannot reserve shadow table\n"); _exit(2); }
}
static inline uint32_t entryAt(uintptr_t a) { SPage* p = pageOf(a); return p ? p->e[a & 4095] : 0; }
static void clearRange(uintptr_t a, size_t n) {
  if (!tbl) return;
  while (n) {
    size_t k = 4096 - (a & 4095);
    if (k > n) k = n;
    SPage* p = pageOf(a);
    if (p) memset(&p->e[a & 4095], 0, k * 4);
    a += k; n -= k;
  }
}
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void __lfs_memcpy(void* d, const void* s, uint64_t n);
extern "C" void free(void* p) {
  if (p && tbl) clearRange((uintptr_t)p, malloc_usable_size(p));
  __libc_free(p);
}
extern "C" void* realloc(void* p, size_t n) {
  if (!p || !tbl) return __libc_realloc(p, n);
  size_t o = malloc_usable_size(p);
  void* q = __libc_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  __lfs_memcpy(q, p, o < n ? o : n);
  free(p);
  return q;
}

// ------------------------------------------------------------------------------------------------ expressions
enum Op : uint8_t { RVAR, RCONST, RADD, RSUB, RMUL, RDIV, RNEG, RSQRT, RUF, BVAR, BCONST, BBIN, BICMP, BITE, BTRUNC, BZEXT, BSEXT, BCONCAT, BEXTR, BOVF, RPAIR /* two single-precision reals copied as one 8-byte word */,
  RBYTE /* byte k of a real, only moved around */, RSWAP /* the bytes of a real in reverse order, only moved around */ };
struct Node { Op op; uint8_t w, sub, pad; uint32_t a, b, c; uint64_t k; };
static std::vector<Node> N(1);
struct NKey { size_t operator()(uint32_t i) const {
  const Node& n = N[i];
  uint64_t h = n.op * 0x9E3779B97F4A7C15ull ^ ((uint64_t)n.w << 40) ^ ((uint64_t)n.sub << 50);
  h ^= (uint64_t)n.a * 0xC2B2AE3D27D4EB4Full; h = (h << 23) | (h >> 41);
  h ^= (uint64_t)n.b * 0x165667B19E3779F9ull; h = (h << 19) | (h >> 45);
  h ^= (uint64_t)n.c * 0x27D4EB2F165667C5ull; h = (h << 29) | (h >> 35);
  h ^= n.k * 0x85EBCA77C2B2AE63ull;
  h ^= h >> 31;
  return h; } };
struct NEq { bool operator()(uint32_t i, uint32_t j) const { const Node &x = N[i], &y = N[j];
  return x.op == y.op && x.w == y.w && x.sub == y.sub && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; } };
static std::vector<uint32_t> htab(1 << 16, 0);
static size_t hcount = 0;
static uint32_t mk(Op op, unsigned w, unsigned sub, uint32_t a, uint32_t b, uint32_t c, uint64_t k) {
  N.push_back(Node{op, (uint8_t)w, (uint8_t)sub, 0, a, b, c, k});
  uint32_t id = N.size() - 1;
  if (id >= (1u << 29)) { msg("expression table overflow"); _exit(2); }
  NKey H; NEq E;
  if (hcount * 2 > htab.size()) {
    std::vector<uint32_t> nt(htab.size() * 2, 0);
    for (uint32_t x : htab) if (x) { size_t h = H(x) & (nt.size() - 1); while (nt[h]) h = (h + 1) & (nt.size() - 1); nt[h] = x; }
    htab.swap(nt);
  }
  size_t h = H(id) & (htab.size() - 1);
  while (htab[h]) { if (E(htab[h], id)) { N.pop_back(); return htab[h]; } h = (h + 1) & (htab.size() - 1); }
  htab[h] = id; hcount++;
  return id;
}
static inline bool isReal(uint32_t s) { return N[s].w == 0; }
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint32_t bconst(unsigned w, uint64_t v) { return mk(BCONST, w, 0, 0, 0, 0, v & maskw(w)); }
static uint32_t rconst(double d) { if (d == 0) d = 0; uint64_t k; memcpy(&k, &d, 8); return mk(RCONST, 0, 0, 0, 0, 0, k); }
static double rcval(uint32_t s) { double d; memcpy(&d, &N[s].k, 8); return d; }
static int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

static uint64_t foldBin(unsigned op, unsigned w, uint64_t a, uint64_t b) {
  int64_t sa = sext(a, w), sb = sext(b, w);
  switch (op) {
    case 0: return a + b; case 1: return a - b; case 2: return a * b;
    case 3: return b ? a / b : 0; case 4: return sb ? (sb == -1 ? (uint64_t)-(uint64_t)sa : (uint64_t)(sa / sb)) : 0;
    case 5: return b ? a % b : 0; case 6: return sb ? (sb == -1 ? 0 : (uint64_t)(sa % sb)) : 0;
    case 7: return b < w ? a << b : 0; case 8: return b < w ? a >> b : 0; case 9: return b < w ? (uint64_t)(sa >> b) : 0;
    case 10: return a & b; case 11: return a | b; case 12: return a ^ b;
    case 20: return sa > sb ? a : b; case 21: return sa < sb ? a : b; case 22: return a > b ? a : b; case 23: return a < b ? a : b;
    case 24: return sa < 0 ? -(uint64_t)sa : a; case 25: return a > b ? a - b : 0; case 26: { uint64_t r = (a + b) & maskw(w); return r < a ? maskw(w) : r; }
  }
  return 0;
}
static bool foldCmp(unsigned p, unsigned w, uint64_t a, uint64_t b) {
  int64_t sa = sext(a, w), sb = sext(b, w);
  switch (p) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
    case 6: return sa > sb; case 7: return sa >= sb; case 8: return sa < sb; default: return sa <= sb; }
}
static bool isC(uint32_t s) { return N[s].op == BCONST; }
static uint32_t mkCast(unsigned kind, unsigned fw, unsigned tw, uint32_t s) {
  if (fw == tw) return s;
  Node n = N[s];
  if (isReal(s)) { if (kind == 1 || kind == 0) unsupported("bit-level cast of a symbolic real"); unsupported("cast of real"); }
  if (n.op == BCONST) return bconst(tw, kind == 2 ? (uint64_t)sext(n.k, fw) : n.k);
  if (n.op == RPAIR && kind == 0 && tw == 32) return n.b;
  if (kind == 0) {
    if ((n.op == BZEXT || n.op == BSEXT)) {
      unsigned iw = N[n.a].w;
      if (iw == tw) return n.a;
      if (iw > tw) return mkCast(0, iw, tw, n.a);
      return mkCast(n.op == BZEXT ? 1 : 2, iw, tw, n.a);
    }
    if (n.op == BTRUNC) return mkCast(0, N[n.a].w, tw, n.a);
    if (n.op == BCONCAT) { unsigned lw = N[n.b].w; if (lw == tw) return n.b; if (lw > tw) return mkCast(0, lw, tw, n.b); }
    return mk(BTRUNC, tw, 0, s, 0, 0, 0);
  }
  if (n.op == BZEXT) return mkCast(1, N[n.a].w, tw, n.a);
  return mk(kind == 1 ? BZEXT : BSEXT, tw, 0, s, 0, 0, 0);
}
static uint32_t mkExtr(uint32_t s, unsigned lo, unsigned w) {  // bits [lo, lo+w)
  Node n = N[s];
  if (lo == 0 && w == n.w) return s;
  if (n.op == BCONST) return bconst(w, n.k >> lo);
  if (n.op == RPAIR && w == 32 && (lo == 0 || lo == 32)) return lo ? n.a : n.b;
  if (n.op == BCONCAT) { unsigned lw = N[n.b].w; if (lo + w <= lw) return mkExtr(n.b, lo, w); if (lo >= lw) return mkExtr(n.a, lo - lw, w); }
  if (n.op == BZEXT) { unsigned iw = N[n.a].w; if (lo + w <= iw) return mkExtr(n.a, lo, w); if (lo >= iw) return bconst(w, 0); }
  if (n.op == BEXTR) return mkExtr(n.a, lo + n.k, w);
  if (lo == 0) return mkCast(0, n.w, w, s);
  return mk(BEXTR, w, 0, s, 0, 0, lo);
}
static uint32_t mkConcat(uint32_t hi, uint32_t lo) {
  Node a = N[hi], b = N[lo];
  unsigned w = a.w + b.w;
  if (a.op == BCONST && b.op == BCONST) return bconst(w, (a.k << b.w) | b.k);
  if (a.op == BCONST && a.k == 0) return mkCast(1, b.w, w, lo);
  auto base = [](uint32_t s, uint32_t& src, unsigned& off) { Node n = N[s]; if (n.op == BEXTR) { src = n.a; off = n.k; } else if (n.op == BTRUNC) { src = n.a; off = 0; } else { src = s; off = 0; } };
  uint32_t sa, sb; unsigned oa, ob;
  base(hi, sa, oa); base(lo, sb, ob);
  if (sa == sb && oa == ob + b.w) return mkExtr(sa, ob, w);
  return mk(BCONCAT, w, 0, hi, lo, 0, 0);
}
static uint32_t mkIcmp(unsigned p, unsigned w, uint32_t a, uint32_t b);
static uint32_t mkIte(uint32_t c, uint32_t t, uint32_t f) {
  if (t == f) return t;
  if (isC(c)) return N[c].k ? t : f;
  if (N[t].w == 1 && isC(t) && isC(f)) { if (N[t].k && !N[f].k) return c; if (!N[t].k && N[f].k) { return mk(BBIN, 1, 12, c, bconst(1, 1), 0, 0); } }
  return mk(BITE, N[t].w, 0, c, t, f, 0);
}
static uint32_t mkBin(unsigned op, unsigned w, uint32_t a, uint32_t b) {
  if (isReal(a) || isReal(b)) unsupported("integer arithmetic on the bits of a symbolic real");
  if (isC(a) && isC(b)) return bconst(w, foldBin(op, w, N[a].k, N[b].k));
  if (isC(b)) {
    uint64_t k = N[b].k;
    if (k == 0 && (op == 0 || op == 1 || op == 7 || op == 8 || op == 9 || op == 11 || op == 12)) return a;
    if (k == 0 && (op == 10 || op == 2)) return b;
    if (k == 1 && (op == 2 || op == 3 || op == 4)) return a;
    if (op == 10 && k == maskw(w)) return a;
    if (op == 12 && w == 1 && N[a].op == BBIN && N[a].sub == 12 && N[a].b == b) return N[a].a;
    if (op == 12 && w == 1 && N[a].op == BICMP) { static const int neg[10] = {1, 0, 5, 4, 3, 2, 9, 8, 7, 6}; return mk(BICMP, 1, neg[N[a].sub], N[a].a, N[a].b, 0, 0); }
  }
  if (isC(a) && !isC(b) && (op == 0 || op == 2 || op == 10 || op == 11 || op == 12)) return mkBin(op, w, b, a);
  if (a == b) { if (op == 1 || op == 12) return bconst(w, 0); if (op == 10 || op == 11) return a; }
  if (op == 11 || op == 7) {
    // (zext lo) | (zext hi << k): reassembled small aggregates
    if (op == 11) {
      auto shifted = [&](uint32_t x, uint32_t y) -> uint32_t {
        Node n = N[x];
        if (n.op == BBIN && n.sub == 7 && isC(n.b)) {
          unsigned sft = N[n.b].k;
          Node h = N[n.a], l = N[y];
          if (sft > 0 && sft < w && l.op == BZEXT && N[l.a].w <= sft && h.op == BZEXT && N[h.a].w + sft <= w) {
            uint32_t lo = mkCast(1, N[l.a].w, sft, l.a);
            uint32_t r = mkConcat(h.a, lo);
            return mkCast(1, N[r].w, w, r);
          }
        }
        return 0;
      };
      if (uint32_t r = shifted(a, b)) return r;
      if (uint32_t r = shifted(b, a)) return r;
    }
  }
  if (op >= 20) {
    if (op == 24) return mkIte(mkIcmp(8, w, a, bconst(w, 0)), mkBin(1, w, bconst(w, 0), a), a);
    if (op == 25) return mkIte(mkIcmp(2, w, a, b), mkBin(1, w, a, b), bconst(w, 0));
    if (op == 26) { uint32_t r = mkBin(0, w, a, b); return mkIte(mkIcmp(4, w, r, a), bconst(w, maskw(w)), r); }
    unsigned p = op == 20 ? 6 : op == 21 ? 8 : op == 22 ? 2 : 4;
    return mkIte(mkIcmp(p, w, a, b), a, b);
  }
  return mk(BBIN, w, op, a, b, 0, 0);
}
static uint32_t mkIcmp(unsigned p, unsigned w, uint32_t a, uint32_t b) {
  if (isReal(a) || isReal(b)) unsupported("integer comparison of the bits of a symbolic real");
  if (isC(a) && isC(b)) return bconst(1, foldCmp(p, w, N[a].k, N[b].k));
  if (a == b) return bconst(1, p == 0 || p == 3 || p == 5 || p == 7 || p == 9);
  if (isC(b)) {
    Node n = N[a];
    if (w == 1 && (p == 0 || p == 1)) { bool keep = (p == 0) == (N[b].k == 1); return keep ? a : mkBin(12, 1, a, bconst(1, 1)); }
    if (n.op == BZEXT && (p == 0 || p == 1)) { unsigned iw = N[n.a].w; if (N[b].k > maskw(iw)) return bconst(1, p == 1); return mkIcmp(p, iw, n.a, bconst(iw, N[b].k)); }
    if (n.op == BITE && isC(n.b) && isC(n.c)) { return mkIte(n.a, bconst(1, foldCmp(p, w, N[n.b].k, N[b].k)), bconst(1, foldCmp(p, w, N[n.c].k, N[b].k))); }
  }
  return mk(BICMP, 1, p, a, b, 0, 0);
}

// ------------------------------------------------------------------------------------------------ reals
// Variables: index -> info.  Base inputs are x = mid + rad*t with t in [-1,1]; t is the polynomial variable.
struct Ival { double lo, hi; };
struct Rat;
struct RVarInfo { int kind; std::string name; double mid, rad; Ival iv; uint32_t arg; int uf; int radicand; };  // kind 0 input, 1 sqrt, 2 uf
static std::vector<RVarInfo> V;
typedef std::vector<std::pair<uint16_t, uint16_t>> MonoV;
static std::vector<MonoV> monos{MonoV{}};
static std::vector<Ival> monoIv{{1, 1}};
static std::vector<char> monoSq{0};
static std::map<MonoV, uint32_t> monoIdx{{MonoV{}, 0}};
static std::unordered_map<uint64_t, uint32_t> monoMul;
static Ival ipow(Ival x, int e) {
  double a = std::pow(x.lo, e), b = std::pow(x.hi, e);
  if (e % 2 == 1) return {a, b};
  if (x.lo <= 0 && x.hi >= 0) return {0, std::max(a, b)};
  return {std::min(a, b), std::max(a, b)};
}
static Ival imul(Ival x, Ival y) {
  double p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
  return {*std::min_element(p, p + 4), *std::max_element(p, p + 4)};
}
static Ival widen(Ival x) { double e = 1e-12 * (std::fabs(x.lo) + std::fabs(x.hi)) + 1e-300; return {x.lo - e, x.hi + e}; }
static uint32_t internMono(const MonoV& m) {
  auto it = monoIdx.find(m);
  if (it != monoIdx.end()) return it->second;
  uint32_t id = monos.size();
  monos.push_back(m);
  Ival r{1, 1};
  char sq = 0;
  for (auto& [v, e] : m) { r = imul(r, ipow(V[v].iv, e)); if (V[v].kind == 1 && e >= 2) sq = 1; }
  monoIv.push_back(m.size() > 0 ? widen(r) : r);
  monoSq.push_back(sq);
  monoIdx[m] = id;
  return id;
}
static uint32_t mulMono(uint32_t a, uint32_t b) {
  if (!a) return b;
  if (!b) return a;
  if (a > b) std::swap(a, b);
  uint64_t key = ((uint64_t)a << 32) | b;
  auto it = monoMul.find(key);
  if (it != monoMul.end()) return it->second;
  MonoV r;
  const MonoV &x = monos[a], &y = monos[b];
  size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { r.push_back({x[i].first, (uint16_t)(x[i].second + y[j].second)}); i++; j++; }
  }
  uint32_t id = internMono(r);
  monoMul[key] = id;
  return id;
}
typedef std::vector<std::pair<uint32_t, mpq_class>> Poly;  // sorted by monomial id, nonzero coefficients
static size_t polyLimit = 40000;
static Poly padd(const Poly& a, const Poly& b, int sgn) {
  Poly r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, sgn > 0 ? b[j].second : mpq_class(-b[j].second)}); j++; }
    else { mpq_class c = sgn > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
  }
  return r;
}
static const Poly& radicandOf(int var);
static Poly pmul(const Poly& a, const Poly& b);
static Poly preduce(Poly p) {
  for (;;) {
    bool any = false;
    for (auto& t : p) if (monoSq[t.first]) { any = true; break; }
    if (!any) return p;
    Poly r;
    for (auto& t : p) {
      if (!monoSq[t.first]) { r = padd(r, Poly{t}, 1); continue; }
      MonoV m = monos[t.first], rest;
      Poly f{{0, t.second}};
      for (auto& [v, e] : m) {
        if (V[v].kind == 1 && e >= 2) { for (int k = 0; k < e / 2; k++) f = pmul(f, radicandOf(v)); if (e % 2) rest.push_back({v, 1}); }
        else rest.push_back({v, e});
      }
      f = pmul(f, Poly{{internMono(rest), mpq_class(1)}});
      r = padd(r, f, 1);
    }
    p = r;
  }
}
static Poly pmul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return {};
  if (a.size() == 1 && a[0].first == 0) { Poly r = b; if (a[0].second != 1) for (auto& t : r) t.second *= a[0].second; return r; }
  if (b.size() == 1 && b[0].first == 0) { Poly r = a; if (b[0].second != 1) for (auto& t : r) t.second *= b[0].second; return r; }
  std::unordered_map<uint32_t, mpq_class> acc;
  acc.reserve(a.size() * 2 + b.size() * 2);
  mpq_class tmp;
  bool sq = false;
  for (auto& x : a) for (auto& y : b) {
    uint32_t m = mulMono(x.first, y.first);
    sq |= monoSq[m];
    tmp = x.second * y.second;
    acc[m] += tmp;
    if (acc.size() > polyLimit) unsupported("polynomial too large");
  }
  Poly r; r.reserve(acc.size());
  for (auto& [m, c] : acc) if (c != 0) r.push_back({m, c});
  std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.first < y.first; });
  if (sq) return preduce(r);
  return r;
}
static Ival pival(const Poly& p) {
  double lo = 0, hi = 0, mag = 0;
  for (auto& [m, c] : p) {
    double d = c.get_d();
    Ival v = monoIv[m];
    double a = d * v.lo, b = d * v.hi;
    lo += std::min(a, b); hi += std::max(a, b);
    mag += std::max(std::fabs(a), std::fabs(b));
  }
  double e = mag * 1e-13 + 1e-300;
  if ((std::fabs(lo) <= 100 * e || std::fabs(hi) <= 100 * e) && p.size() <= 64) {
    // an end point at (or next to) zero: repeat in exact arithmetic, all variables being in [-1,1]
    mpq_class L = 0, H = 0;
    bool ok = true;
    for (auto& [m, c] : p) {
      bool even = true;
      for (auto& [v, ex] : monos[m]) { if (V[v].kind != 0) ok = false; if (ex % 2) even = false; }
      if (!ok) break;
      if (monos[m].empty()) { L += c; H += c; }
      else if (even) { if (c > 0) H += c; else L += c; }
      else { mpq_class q = abs(c); L -= q; H += q; }
    }
    if (ok) {
      auto dn = [](const mpq_class& q) { double d = q.get_d(); return q == 0 ? 0.0 : std::nextafter(d, -1e300); };
      auto up = [](const mpq_class& q) { double d = q.get_d(); return q == 0 ? 0.0 : std::nextafter(d, 1e300); };
      return {dn(L), up(H)};
    }
  }
  return {lo - e, hi + e};
}
// denominators: product of interned, normalised factors
static std::vector<Poly> factors;
static std::map<Poly, int> factorIdx;
struct Rat { Poly num; std::vector<std::pair<int, int>> den; };
static std::unordered_map<uint32_t, std::shared_ptr<Rat>> normMemo;
static int internFactor(const Poly& p) {
  auto it = factorIdx.find(p);
  if (it != factorIdx.end()) return it->second;
  int id = factors.size();
  factors.push_back(p);
  factorIdx[p] = id;
  return id;
}
static Poly ppow(const Poly& p, int e) { Poly r{{0, mpq_class(1)}}; for (int i = 0; i < e; i++) r = pmul(r, p); return r; }
static Poly denPoly(const std::vector<std::pair<int, int>>& d) { Poly r{{0, mpq_class(1)}}; for (auto& [f, e] : d) r = pmul(r, ppow(factors[f], e)); return r; }
static Rat radd(const Rat& a, const Rat& b, int sgn) {
  if (a.den == b.den) return Rat{padd(a.num, b.num, sgn), a.den};
  Rat r;
  Poly na = a.num, nb = b.num;
  size_t i = 0, j = 0;
  while (i < a.den.size() || j < b.den.size()) {
    if (j >= b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) { nb = pmul(nb, ppow(factors[a.den[i].first], a.den[i].second)); r.den.push_back(a.den[i++]); }
    else if (i >= a.den.size() || b.den[j].first < a.den[i].first) { na = pmul(na, ppow(factors[b.den[j].first], b.den[j].second)); r.den.push_back(b.den[j++]); }
    else {
      int ea = a.den[i].second, eb = b.den[j].second, f = a.den[i].first;
      if (ea < eb) na = pmul(na, ppow(factors[f], eb - ea));
      if (eb < ea) nb = pmul(nb, ppow(factors[f], ea - eb));
      r.den.push_back({f, std::max(ea, eb)}); i++; j++;
    }
  }
  r.num = padd(na, nb, sgn);
  return r;
}
static bool pproportional(const Poly& a, const Poly& b, mpq_class& k) {
  if (a.size() != b.size() || a.empty()) return false;
  k = a[0].second / b[0].second;
  for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || a[i].second != k * b[i].second) return false;
  return true;
}
// cancel numerator against denominators when it is a multiple of a factor
static void simplify(Rat& r) {
  if (r.num.empty()) { r.den.clear(); return; }
  for (size_t i = 0; i < r.den.size(); i++) {
    mpq_class k;
    if (pproportional(r.num, factors[r.den[i].first], k)) {
      r.num = Poly{{0, k}};
      if (--r.den[i].second == 0) r.den.erase(r.den.begin() + i);
      return;
    }
  }
}
static Rat rmul(const Rat& a, const Rat& b) {
  Rat r;
  Rat x = a, y = b;
  // cross cancellation
  for (int pass = 0; pass < 2; pass++) {
    Rat &p = pass ? y : x, &q = pass ? x : y;
    for (size_t i = 0; i < q.den.size(); i++) { mpq_class k; if (p.num.size() > 1 && pproportional(p.num, factors[q.den[i].first], k)) { p.num = Poly{{0, k}}; if (--q.den[i].second == 0) q.den.erase(q.den.begin() + i); break; } }
  }
  r.num = pmul(x.num, y.num);
  size_t i = 0, j = 0;
  while (i < x.den.size() || j < y.den.size()) {
    if (j >= y.den.size() || (i < x.den.size() && x.den[i].first < y.den[j].first)) r.den.push_back(x.den[i++]);
    else if (i >= x.den.size() || y.den[j].first < x.den[i].first) r.den.push_back(y.den[j++]);
    else { r.den.push_back({x.den[i].first, x.den[i].second + y.den[j].second}); i++; j++; }
  }
  if (r.num.empty()) r.den.clear();
  return r;
}
static void normFactor(Poly& p, mpq_class& k) {  // p = k * normalised
  k = p.back().second;
  for (auto& t : p) t.second /= k;
}
static Rat rinv(const Rat& a) {
  if (a.num.empty()) unsupported("division by identically zero expression");
  Rat r;
  Poly d = denPoly(a.den);
  Poly n = a.num;
  // a single monomial containing a square root s: 1/s = s / R
  if (n.size() == 1) {
    MonoV m = monos[n[0].first];
    Rat acc{Poly{{0, mpq_class(1) / n[0].second}}, {}};
    acc.num = pmul(acc.num, d);
    for (auto& [v, e] : m) for (int q = 0; q < e; q++) {
      if (V[v].kind == 1) {
        acc.num = pmul(acc.num, Poly{{internMono(MonoV{{v, 1}}), mpq_class(1)}});
        Poly R = radicandOf(v); mpq_class k;
        if (R.size() == 1 && R[0].first == 0) { for (auto& t : acc.num) t.second /= R[0].second; continue; }
        normFactor(R, k);
        for (auto& t : acc.num) t.second /= k;
        acc = rmul(acc, Rat{Poly{{0, mpq_class(1)}}, {{internFactor(R), 1}}});
      } else {
        acc = rmul(acc, Rat{Poly{{0, mpq_class(1)}}, {{internFactor(Poly{{internMono(MonoV{{v, 1}}), mpq_class(1)}}), 1}}});
      }
    }
    simplify(acc);
    return acc;
  }
  mpq_class k;
  normFactor(n, k);
  r.num = d;
  for (auto& t : r.num) t.second /= k;
  r.den = {{internFactor(n), 1}};
  simplify(r);
  return r;
}
static std::unordered_map<uint32_t, int> sqrtMemo;        // node -> variable (unused key 0)
static std::map<Poly, int> sqrtByPoly;
static std::vector<Poly> radicands;
static const Poly& radicandOf(int var) { return radicands[V[var].radicand]; }
static bool boxInfeasible(const std::vector<Poly>& ge0);
static bool nodePositive(uint32_t root, int sgn, double margin, long budget);
static int polySign(const Poly& p, const char* why);  // decides (forking if necessary)
static std::map<std::pair<int, uint32_t>, int> ufMemo;
static int newVar(int kind, const std::string& name, double mid, double rad, Ival iv) {
  V.push_back(RVarInfo{kind, name, mid, rad, iv, 0, 0, -1});
  if (V.size() > 60000) unsupported("too many real variables");
  return V.size() - 1;
}
static double evalNode(uint32_t s, const std::vector<double>& pt, std::unordered_map<uint32_t, double>& memo);
static std::shared_ptr<Rat> norm(uint32_t s);
static Rat rsqrt(const Rat& a, uint32_t argNode) {
  if (a.num.empty()) return a;
  if (a.den.empty() && a.num.size() == 1 && a.num[0].first == 0) {
    double d = std::sqrt(a.num[0].second.get_d());
    if (std::isnan(d)) unsupported("square root of a negative constant");
    return Rat{Poly{{0, mpq_class(d)}}, {}};
  }
  Poly d = denPoly(a.den);
  Poly R = pmul(a.num, d);
  // normalise by a positive power of two so that equal radicands share a variable
  mpq_class k = abs(R.back().second);
  double kd = k.get_d();
  int e; std::frexp(kd, &e);
  if (e % 2) e--;
  mpq_class sc = 1; if (e > 0) mpz_mul_2exp(sc.get_num_mpz_t(), sc.get_num_mpz_t(), e); else mpz_mul_2exp(sc.get_den_mpz_t(), sc.get_den_mpz_t(), -e);
  for (auto& t : R) t.second /= sc;
  double scs = std::ldexp(1.0, e / 2);
  int var;
  auto it = sqrtByPoly.find(R);
  if (it != sqrtByPoly.end()) var = it->second;
  else {
    Ival iv = pival(R);
    if (iv.hi < 0) unsupported("square root of a negative expression");
    double lo = iv.lo;
    if (lo <= 0) {
      lo = 0;
      // the radicand is num/den; only plain polynomials get a better bound
      if (a.den.empty()) {
        double scd = sc.get_d();
        for (double f : {0.1, 0.01, 1e-3}) if (nodePositive(argNode, 1, f * iv.hi * scd, 600)) { lo = f * iv.hi; break; }
      }
    }
    var = newVar(1, "sqrt", 0, 0, widen({lo > 0 ? std::sqrt(lo) : 0, std::sqrt(std::max(iv.hi, 0.0))}));
    V[var].radicand = radicands.size();
    radicands.push_back(R);
    sqrtByPoly[R] = var;
  }
  Rat r{Poly{{internMono(MonoV{{(uint16_t)var, 1}}), mpq_class(scs)}}, {}};
  if (!a.den.empty()) {
    int sg = polySign(d, "denominator under square root");
    for (auto& t : r.num) t.second *= sg;
    r.den = a.den;
  }
  return r;
}
static std::shared_ptr<Rat> norm(uint32_t s0) {
  auto it0 = normMemo.find(s0);
  if (it0 != normMemo.end()) return it0->second;
  std::vector<uint32_t> st{s0};
  while (!st.empty()) {
    uint32_t s = st.back();
    if (normMemo.count(s)) { st.pop_back(); continue; }
    Node n = N[s];
    bool ready = true;
    if (n.op == RADD || n.op == RSUB || n.op == RMUL || n.op == RDIV) {
      if (!normMemo.count(n.b)) { st.push_back(n.b); ready = false; }
      if (!normMemo.count(n.a)) { st.push_back(n.a); ready = false; }
    } else if (n.op == RNEG || n.op == RSQRT || n.op == RUF) {
      if (!normMemo.count(n.a)) { st.push_back(n.a); ready = false; }
    }
    if (!ready) continue;
    auto r = std::make_shared<Rat>();
    switch (n.op) {
      case RCONST: { double d = rcval(s); if (!std::isfinite(d)) unsupported("infinite or NaN constant in real arithmetic"); if (d != 0) r->num = Poly{{0, mpq_class(d)}}; break; }
      case RVAR: {
        RVarInfo& v = V[n.k];
        uint32_t m = internMono(MonoV{{(uint16_t)n.k, 1}});
        if (v.kind == 0) { if (v.mid != 0) r->num.push_back({0, mpq_class(v.mid)}); r->num.push_back({m, mpq_class(v.rad)}); }
        else r->num.push_back({m, mpq_class(1)});
        break;
      }
      case RADD: *r = radd(*normMemo[n.a], *normMemo[n.b], 1); break;
      case RSUB: *r = radd(*normMemo[n.a], *normMemo[n.b], -1); break;
      case RMUL: *r = rmul(*normMemo[n.a], *normMemo[n.b]); break;
      case RDIV: *r = rmul(*normMemo[n.a], rinv(*normMemo[n.b])); break;
      case RNEG: *r = *normMemo[n.a]; for (auto& t : r->num) t.second = -t.second; break;
      case RSQRT: *r = rsqrt(*normMemo[n.a], n.a); break;
      case RUF: {
        auto key = std::make_pair((int)n.sub, n.a);
        if (!ufMemo.count(key))  // the same function of an equal argument
          for (auto& [k2, v2] : ufMemo)
            if (k2.first == (int)n.sub && radd(*normMemo[n.a], *norm(k2.second), -1).num.empty()) { int v3 = v2; ufMemo[key] = v3; break; }
        if (!ufMemo.count(key)) {
          Ival iv = n.sub == 10 || n.sub == 11 ? Ival{-1, 1} : n.sub == 12 ? Ival{0, 1e30} : Ival{-1e30, 1e30};
          int v = newVar(2, "uf", 0, 0, iv);
          V[v].uf = n.sub; V[v].arg = n.a;
          ufMemo[key] = v;
        }
        r->num.push_back({internMono(MonoV{{(uint16_t)ufMemo[key], 1}}), mpq_class(1)});
        break;
      }
      default: unsupported("integer expression in real arithmetic");
    }
    if (r->num.empty()) r->den.clear();
    normMemo[s] = r;
    st.pop_back();
  }
  return normMemo[s0];
}
static double pvalD(const Poly& p, const std::vector<double>& tv) {
  double s = 0;
  for (auto& [m, c] : p) { double x = c.get_d(); for (auto& [v, e] : monos[m]) for (int k = 0; k < e; k++) x *= tv[v]; s += x; }
  return s;
}
// values of all polynomial variables at a sample point given as t-values of inputs
static double evalNode(uint32_t s0, const std::vector<double>& pt, std::unordered_map<uint32_t, double>& memo) {
  auto it0 = memo.find(s0);
  if (it0 != memo.end()) return it0->second;
  std::vector<uint32_t> st{s0};
  while (!st.empty()) {
    uint32_t s = st.back();
    if (memo.count(s)) { st.pop_back(); continue; }
    Node n = N[s];
    bool ready = true;
    if (n.op == RADD || n.op == RSUB || n.op == RMUL || n.op == RDIV) {
      if (!memo.count(n.b)) { st.push_back(n.b); ready = false; }
      if (!memo.count(n.a)) { st.push_back(n.a); ready = false; }
    } else if (n.op == RNEG || n.op == RSQRT || n.op == RUF) if (!memo.count(n.a)) { st.push_back(n.a); ready = false; }
    if (!ready) continue;
    double r = 0;
    switch (n.op) {
      case RCONST: r = rcval(s); break;
      case RVAR: r = V[n.k].mid + V[n.k].rad * pt[n.k]; break;
      case RADD: r = memo[n.a] + memo[n.b]; break;
      case RSUB: r = memo[n.a] - memo[n.b]; break;
      case RMUL: r = memo[n.a] * memo[n.b]; break;
      case RDIV: r = memo[n.a] / memo[n.b]; break;
      case RNEG: r = -memo[n.a]; break;
      case RSQRT: r = std::sqrt(memo[n.a]); break;
      case RUF: { double x = memo[n.a]; r = n.sub == 10 ? std::sin(x) : n.sub == 11 ? std::cos(x) : n.sub == 12 ? std::exp(x) : std::log(x); break; }
      default: break;
    }
    memo[s] = r;
    st.pop_back();
  }
  return memo[s0];
}

// ------------------------------------------------------------------------------------------------ z3
static z3::context* Z;
static z3::solver* BS;  // bit-vector path condition
static std::vector<Z3_ast> zmemo;
static bool bvUsed = false;
static void zinit() {
  if (Z) return;
  z3::set_param("memory_max_size", "6000");
  Z = new z3::context();
  BS = new z3::solver(*Z, "QF_BV");
  z3::params p(*Z);
  p.set("rlimit", 20000000u);
  BS->set(p);
}
static z3::expr bz(uint32_t s0) {
  if (zmemo.size() < N.size()) zmemo.resize(N.size() + 1024, nullptr);
  std::vector<uint32_t> st{s0};
  while (!st.empty()) {
    uint32_t s = st.back();
    if (zmemo[s]) { st.pop_back(); continue; }
    Node n = N[s];
    bool ready = true;
    auto need = [&](uint32_t x) { if (!zmemo[x]) { st.push_back(x); ready = false; } };
    switch (n.op) {
      case BBIN: case BICMP: case BCONCAT: case BOVF: need(n.a); need(n.b); break;
      case BITE: need(n.a); need(n.b); need(n.c); break;
      case BTRUNC: case BZEXT: case BSEXT: case BEXTR: need(n.a); break;
      case BVAR: case BCONST: break;
      default: unsupported("real expression in an integer formula");
    }
    if (!ready) continue;
    auto e = [&](uint32_t x) { return z3::expr(*Z, zmemo[x]); };
    auto b1 = [&](const z3::expr& c) { return z3::ite(c, Z->bv_val(1, 1), Z->bv_val(0, 1)); };
    z3::expr r(*Z);
    switch (n.op) {
      case BVAR: r = Z->bv_const(("v" + std::to_string(n.k)).c_str(), n.w); break;
      case BCONST: r = Z->bv_val((uint64_t)n.k, n.w); break;
      case BBIN: {
        z3::expr a = e(n.a), b = e(n.b);
        switch (n.sub) {
          case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = z3::udiv(a, b); break; case 4: r = a / b; break;
          case 5: r = z3::urem(a, b); break; case 6: r = z3::srem(a, b); break; case 7: r = z3::shl(a, b); break; case 8: r = z3::lshr(a, b); break;
          case 9: r = z3::ashr(a, b); break; case 10: r = a & b; break; case 11: r = a | b; break; default: r = a ^ b; break;
        }
        break;
      }
      case BICMP: {
        z3::expr a = e(n.a), b = e(n.b);
        switch (n.sub) {
          case 0: r = b1(a == b); break; case 1: r = b1(a != b); break; case 2: r = b1(z3::ugt(a, b)); break; case 3: r = b1(z3::uge(a, b)); break;
          case 4: r = b1(z3::ult(a, b)); break; case 5: r = b1(z3::ule(a, b)); break; case 6: r = b1(a > b); break; case 7: r = b1(a >= b); break;
          case 8: r = b1(a < b); break; default: r = b1(a <= b); break;
        }
        break;
      }
      case BITE: r = z3::ite(e(n.a) == Z->bv_val(1, 1), e(n.b), e(n.c)); break;
      case BTRUNC: r = e(n.a).extract(n.w - 1, 0); break;
      case BEXTR: r = e(n.a).extract(n.k + n.w - 1, n.k); break;
      case BZEXT: r = z3::zext(e(n.a), n.w - N[n.a].w); break;
      case BSEXT: r = z3::sext(e(n.a), n.w - N[n.a].w); break;
      case BCONCAT: r = z3::concat(e(n.a), e(n.b)); break;
      case BOVF: {
        z3::expr a = e(n.a), b = e(n.b);
        unsigned w = N[n.a].w;
        bool sg = n.sub & 1; int op = n.sub >> 1;
        unsigned ew = op == 2 ? 2 * w : w + 1;
        z3::expr x = sg ? z3::sext(a, ew - w) : z3::zext(a, ew - w), y = sg ? z3::sext(b, ew - w) : z3::zext(b, ew - w);
        z3::expr q = op == 0 ? x + y : op == 1 ? x - y : x * y;
        z3::expr back = sg ? z3::sext(q.extract(w - 1, 0), ew - w) : z3::zext(q.extract(w - 1, 0), ew - w);
        r = b1(q != back);
        break;
      }
      default: break;
    }
    Z3_inc_ref(*Z, r);
    zmemo[s] = r;
    st.pop_back();
  }
  return z3::expr(*Z, zmemo[s0]);
}
struct BVarInfo { char kind; std::string name; unsigned w; };
static std::vector<BVarInfo> BV;
struct Input { char kind; int idx; std::string name; uint32_t node; };
static std::vector<Input> inputs;

static z3::model* lastModel = nullptr;  // a model of the current bit-vector path condition
static int bvCheck(z3::expr_vector& as, z3::model** out = nullptr) {
  double t = now();
  S->qBV++;
  z3::check_result r = BS->check(as);
  S->tBV += (long)((now() - t) * 1e6);
  if (r == z3::sat) { if (out) { *out = new z3::model(BS->get_model()); } return 1; }
  if (r == z3::unsat) return 0;
  S->unknown++;
  msg("bit-vector query unknown: %s", BS->reason_unknown().c_str());
  return -1;
}
static z3::expr zbool(uint32_t s) { return bz(s) == Z->bv_val(1, 1); }
static void bvAssert(uint32_t s, bool val) {
  z3::expr e = zbool(s);
  BS->add(val ? e : !e);
}

// ------------------------------------------------------------------------------------------------ real path condition
struct Atom { Poly p; uint32_t node; int sgn; };  // sgn*p >= 0 (p polynomial); node: expression whose sign it is (0 if unknown)
static std::vector<Atom> RPC;
static std::vector<std::vector<double>> pts;  // sample points (t values per variable index; only inputs used) satisfying RPC
static std::vector<std::unordered_map<uint32_t, double>> ptMemo;
static std::vector<char> ptAlive;
static std::mt19937_64 rng(12345);
static const int NPTS = 16;
static double rnd() { return std::uniform_real_distribution<double>(-1, 1)(rng); }
struct RCons { uint32_t node; int sgn; };  // sgn*node >= 0 in terms of expressions (used to filter samples)
static std::vector<RCons> RCs;
static void extendPoints() {
  if (pts.empty()) { pts.resize(NPTS); ptMemo.resize(NPTS); ptAlive.assign(NPTS, 1); }
  for (int i = 0; i < (int)pts.size(); i++)
    while (pts[i].size() < V.size()) pts[i].push_back(i == 0 ? 0.0 : rnd());
}
static bool satisfies(const std::vector<double>& p, std::unordered_map<uint32_t, double>& memo, double margin = 0) {
  for (auto& c : RCs) { double v = evalNode(c.node, p, memo); if (!(c.sgn * v >= margin)) return false; }
  return true;
}
static int regenCalls = 0;
static bool regenPoints(int want) {
  // random search for points satisfying the real path condition
  int found = 0;
  std::vector<double> best; double bestViol = 1e300;
  regenCalls++;
  for (int a = 0; a < 3000 && found < want; a++) {
    std::vector<double> p(V.size());
    double rad = 1;
    if (!best.empty() && a % 2) rad = std::pow(0.5, (a / 100) % 8);
    for (size_t i = 0; i < p.size(); i++) {
      if (!best.empty() && a % 2) { p[i] = std::max(-1.0, std::min(1.0, best[i] + rad * rnd() * ((rng() % 3) == 0))); }
      else p[i] = rnd();
    }
    std::unordered_map<uint32_t, double> memo;
    double viol = 0;
    for (auto& c : RCs) { double v = c.sgn * evalNode(c.node, p, memo); if (!(v >= 0)) viol += std::isnan(v) ? 1e10 : -v + 1e-12; }
    if (viol == 0) { int k = found % NPTS; pts[k] = p; ptMemo[k] = memo; ptAlive[k] = 1; found++; }
    else if (viol < bestViol) { bestViol = viol; best = p; }
  }
  return found > 0;
}
static int aliveCount() { int n = 0; for (char c : ptAlive) n += c; return n; }
static double nodeAt(int i, uint32_t node) { return evalNode(node, pts[i], ptMemo[i]); }
static void addRC(uint32_t node, int sgn, const Poly* p) {
  RCs.push_back({node, sgn});
  if (p) RPC.push_back({*p, node, sgn});
  extendPoints();
  for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i] && !(sgn * nodeAt(i, node) >= 0)) ptAlive[i] = 0;
  if (aliveCount() == 0) regenPoints(4);
}

// ---- z3 for reals
static z3::expr zq(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr zd(double d) { if (!std::isfinite(d)) unsupported("coefficient out of range"); mpq_class q(d); return zq(q); }
static z3::expr linExpr(const Poly& p, std::map<uint32_t, z3::expr>& mv, double* slack) {
  z3::expr_vector sum(*Z);
  double sl = 0;
  for (auto& [m, c] : p) {
    double d = c.get_d();
    if (m == 0) { sum.push_back(zd(d)); sl += std::fabs(d) * 4.5e-16; continue; }
    auto it = mv.find(m);
    if (it == mv.end()) it = mv.emplace(m, Z->real_const(("m" + std::to_string(m)).c_str())).first;
    sum.push_back(zd(d) * it->second);
    sl += std::fabs(d) * 4.5e-16 * std::max(std::fabs(monoIv[m].lo), std::fabs(monoIv[m].hi));
  }
  if (slack) *slack = sl;
  if (sum.empty()) return Z->real_val(0);
  return z3::sum(sum);
}
static unsigned lraRlimit = 4000000, nraRlimit = 600000;
static z3::solver mkLra(const std::vector<const Poly*>& ps, std::map<uint32_t, z3::expr>& mv, bool usePC) {
  z3::solver s(*Z, "QF_LRA");
  z3::params pr(*Z);
  pr.set("rlimit", lraRlimit);
  s.set(pr);
  std::set<uint16_t> vars;
  for (auto* p : ps) for (auto& [m, c] : *p) for (auto& [v, e] : monos[m]) vars.insert(v);
  std::vector<z3::expr> as;
  if (usePC) {
    size_t nmono = 0;
    for (auto& a : RPC) {
      bool rel = false;
      for (auto& [m, c] : a.p) { for (auto& [v, e] : monos[m]) if (vars.count(v)) { rel = true; break; } if (rel) break; }
      if (!rel || a.p.size() > 400) continue;
      nmono += a.p.size();
      if (nmono > 4000) break;
      double sl; z3::expr e = linExpr(a.p, mv, &sl);
      s.add(a.sgn > 0 ? e >= zd(-sl) : e <= zd(sl));
    }
  }
  for (auto* p : ps) for (auto& [m, c] : *p) if (m && !mv.count(m)) mv.emplace(m, Z->real_const(("m" + std::to_string(m)).c_str()));
  for (auto& [m, e] : mv) { s.add(e >= zd(monoIv[m].lo)); s.add(e <= zd(monoIv[m].hi)); }
  return s;
}
static int lraCheck(z3::solver& s) {
  double t = now();
  S->qLRA++;
  z3::check_result r = s.check();
  S->tLRA += (long)((now() - t) * 1e6);
  return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}
static z3::expr nlExpr(const Poly& p, std::map<int, z3::expr>& xv) {
  z3::expr_vector sum(*Z);
  for (auto& [m, c] : p) {
    z3::expr t = zq(c);
    for (auto& [v, e] : monos[m]) {
      auto it = xv.find(v);
      if (it == xv.end()) it = xv.emplace(v, Z->real_const(("x" + std::to_string(v)).c_str())).first;
      for (int k = 0; k < e; k++) t = t * it->second;
    }
    sum.push_back(t);
  }
  if (sum.empty()) return Z->real_val(0);
  return z3::sum(sum);
}
// Interval branch-and-prune: true if (all p in ge0 >= 0) together with the relevant path condition has no solution in
// the box.  Every polynomial variable (inputs, square roots, uninterpreted values) ranges over its interval.
static long boxBudget = 3000;
static bool boxInfeasible(const std::vector<Poly>& ge0) {
  std::set<uint16_t> vs;
  for (auto& p : ge0) for (auto& [m, c] : p) for (auto& [v, e] : monos[m]) vs.insert(v);
  struct Term { double c; int first, n; };
  struct PP { std::vector<Term> t; double c0; };
  std::vector<std::pair<int, int>> fac;  // local variable, exponent
  std::map<uint16_t, int> loc;
  std::vector<Ival> box0;
  std::vector<PP> cons;
  auto addp = [&](const Poly& p, int sg) {
    PP q; q.c0 = 0;
    for (auto& [m, c] : p) {
      double d = sg * c.get_d();
      if (m == 0) { q.c0 += d; continue; }
      Term t{d, (int)fac.size(), 0};
      for (auto& [v, e] : monos[m]) {
        auto it = loc.find(v);
        if (it == loc.end()) { it = loc.emplace(v, (int)box0.size()).first; box0.push_back(V[v].iv); }
        fac.push_back({it->second, e}); t.n++;
      }
      q.t.push_back(t);
    }
    cons.push_back(q);
  };
  size_t terms = 0;
  for (auto& p : ge0) { addp(p, 1); terms += p.size(); }
  size_t nmain = box0.size();
  for (auto& a : RPC) {
    if (a.p.size() > 60 || terms > 600) continue;
    bool rel = false, sub = true;
    for (auto& [m, c] : a.p) for (auto& [v, e] : monos[m]) { if (vs.count(v)) rel = true; else sub = false; }
    if (rel && (sub || a.p.size() < 20)) { addp(a.p, a.sgn); terms += a.p.size(); }
  }
  (void)nmain;
  struct Box { std::vector<Ival> b; };
  std::vector<Box> st{{box0}};
  long used = 0;
  long budget = terms > 200 ? boxBudget / 4 : boxBudget;
  while (!st.empty()) {
    if (++used > budget) return false;
    Box bx = std::move(st.back()); st.pop_back();
    bool dead = false;
    std::vector<double> sens(box0.size(), 0.0);
    for (auto& q : cons) {
      double lo = q.c0, hi = q.c0, mag = std::fabs(q.c0);
      std::vector<double> ls;
      for (auto& t : q.t) {
        Ival r{1, 1};
        for (int k = 0; k < t.n; k++) r = imul(r, ipow(bx.b[fac[t.first + k].first], fac[t.first + k].second));
        double a = t.c * r.lo, b = t.c * r.hi;
        lo += std::min(a, b); hi += std::max(a, b); mag += std::max(std::fabs(a), std::fabs(b));
      }
      if (hi + mag * 1e-13 < 0) { dead = true; break; }
      if (lo < 0) for (auto& t : q.t) {
        Ival r{1, 1};
        for (int k = 0; k < t.n; k++) r = imul(r, ipow(bx.b[fac[t.first + k].first], fac[t.first + k].second));
        double wdt = std::fabs(t.c) * (r.hi - r.lo);
        for (int k = 0; k < t.n; k++) { Ival& z = bx.b[fac[t.first + k].first]; sens[fac[t.first + k].first] += wdt * (0.2 + (z.hi - z.lo)); }
      }
    }
    if (dead) continue;
    int bi = -1; double bs = 0;
    for (size_t i = 0; i < sens.size(); i++) if (sens[i] > bs && bx.b[i].hi - bx.b[i].lo > 1e-6) { bs = sens[i]; bi = i; }
    if (bi < 0) return false;
    double mid = 0.5 * (bx.b[bi].lo + bx.b[bi].hi);
    Box l = bx; l.b[bi].hi = mid; bx.b[bi].lo = mid;
    st.push_back(std::move(l)); st.push_back(std::move(bx));
  }
  return true;
}
// Interval evaluation of an expression (not expanded) over a box of the input variables.
struct NodeIval {
  std::vector<uint32_t> order;
  std::unordered_map<uint32_t, int> pos;
  std::vector<int> vars;  // variable indices of kind 0
  std::vector<Ival> val;
  bool ok = true;
  NodeIval(uint32_t root) {
    std::vector<uint32_t> st{root};
    while (!st.empty()) {
      uint32_t s = st.back();
      if (pos.count(s)) { st.pop_back(); continue; }
      Node n = N[s];
      bool ready = true;
      auto need = [&](uint32_t x) { if (!pos.count(x)) { st.push_back(x); ready = false; } };
      if (n.op == RADD || n.op == RSUB || n.op == RMUL || n.op == RDIV) { need(n.a); need(n.b); }
      else if (n.op == RNEG || n.op == RSQRT || n.op == RUF) need(n.a);
      else if (n.op != RVAR && n.op != RCONST) { ok = false; return; }
      if (!ready) continue;
      if (order.size() > 4000) { ok = false; return; }
      pos[s] = order.size(); order.push_back(s); st.pop_back();
      if (n.op == RVAR && V[n.k].kind == 0) vars.push_back(n.k);
    }
    val.resize(order.size());
  }
  static Ival out(Ival x) { double e = 4e-16; return {x.lo - std::fabs(x.lo) * e - 1e-300, x.hi + std::fabs(x.hi) * e + 1e-300}; }
  Ival eval(const std::vector<Ival>& t) {  // t: intervals of the centred variables, indexed like vars
    std::unordered_map<int, int> vi;
    for (size_t i = 0; i < vars.size(); i++) vi[vars[i]] = i;
    for (size_t i = 0; i < order.size(); i++) {
      Node n = N[order[i]];
      auto A = [&]() { return val[pos[n.a]]; };
      auto B = [&]() { return val[pos[n.b]]; };
      Ival r{0, 0};
      switch (n.op) {
        case RCONST: { double d = rcval(order[i]); r = {d, d}; break; }
        case RVAR: {
          const RVarInfo& v = V[n.k];
          if (v.kind == 0) { Ival z = t[vi[n.k]]; r = out({v.mid + v.rad * z.lo, v.mid + v.rad * z.hi}); }
          else r = v.iv;
          break;
        }
        case RADD: { Ival a = A(), b = B(); r = out({a.lo + b.lo, a.hi + b.hi}); break; }
        case RSUB: { Ival a = A(), b = B(); r = out({a.lo - b.hi, a.hi - b.lo}); break; }
        case RMUL: r = n.a == n.b ? out(ipow(A(), 2)) : out(imul(A(), B())); break;
        case RDIV: { Ival a = A(), b = B(); if (b.lo <= 0 && b.hi >= 0) r = {-1e300, 1e300}; else r = out(imul(a, {1 / b.hi, 1 / b.lo})); break; }
        case RNEG: { Ival a = A(); r = {-a.hi, -a.lo}; break; }
        case RSQRT: { Ival a = A(); r = out({a.lo > 0 ? std::sqrt(a.lo) : 0, std::sqrt(std::max(0.0, a.hi))}); break; }
        case RUF: { Ival a = A(); if (n.sub == 12) r = out(out({std::exp(std::max(-700.0, a.lo)), std::exp(std::min(700.0, a.hi))})); else if (n.sub == 13) r = {-1e300, 1e300}; else r = {-1, 1}; break; }
        default: break;
      }
      if (std::isnan(r.lo) || std::isnan(r.hi)) r = {-1e300, 1e300};
      val[i] = r;
    }
    return val.back();
  }
};
// true if sgn*node > margin on the whole box of inputs (proved by subdivision)
static bool nodePositive(uint32_t root, int sgn, double margin, long budget) {
  NodeIval ni(root);
  if (!ni.ok || ni.order.empty()) return false;
  size_t nv = ni.vars.size();
  std::vector<std::vector<Ival>> st{std::vector<Ival>(nv, Ival{-1, 1})};
  long used = 0;
  budget = std::min<long>(budget, 400000 / (1 + (long)ni.order.size()));
  while (!st.empty()) {
    if (++used > budget) return false;
    std::vector<Ival> bx = std::move(st.back()); st.pop_back();
    Ival r = ni.eval(bx);
    if (sgn < 0) r = {-r.hi, -r.lo};
    if (r.lo > margin) continue;
    if (r.hi <= margin || nv == 0) return false;
    // split the variable whose halving shrinks the enclosure most
    int bi = -1; double bw = 1e301;
    for (size_t i = 0; i < nv; i++) {
      if (bx[i].hi - bx[i].lo < 1e-4) continue;
      Ival sv = bx[i]; double m = 0.5 * (sv.lo + sv.hi);
      bx[i] = {sv.lo, m}; Ival a = ni.eval(bx);
      bx[i] = {m, sv.hi}; Ival b = ni.eval(bx);
      bx[i] = sv; used += 2;
      double la = sgn > 0 ? std::min(a.lo, b.lo) : -std::max(a.hi, b.hi), lb = sgn > 0 ? std::max(a.lo, b.lo) : -std::min(a.hi, b.hi);
      double w = -(la + 0.1 * lb);
      if (w < bw) { bw = w; bi = i; }
    }
    if (bi < 0) return false;
    double m = 0.5 * (bx[bi].lo + bx[bi].hi);
    std::vector<Ival> l = bx; l[bi].hi = m; bx[bi].lo = m;
    st.push_back(std::move(l)); st.push_back(std::move(bx));
  }
  return true;
}
// Nonlinear query: path condition (relevant atoms) and extra constraints (poly >= 0 each).  1 sat, 0 unsat, -1 unknown.
static int nraCheck(const std::vector<Poly>& ge0, std::vector<double>* model) {
  z3::solver s(*Z, "QF_NRA");
  z3::params pr(*Z);
  pr.set("rlimit", nraRlimit);
  s.set(pr);
  std::map<int, z3::expr> xv;
  std::set<uint16_t> vars;
  auto collect = [&](const Poly& p) { for (auto& [m, c] : p) for (auto& [v, e] : monos[m]) vars.insert(v); };
  for (auto& p : ge0) { s.add(nlExpr(p, xv) >= 0); collect(p); }
  std::vector<char> used(RPC.size(), 0);
  if (ge0.empty()) for (auto& a : RPC) collect(a.p);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < RPC.size(); i++) if (!used[i]) {
      bool rel = false;
      for (auto& [m, c] : RPC[i].p) { for (auto& [v, e] : monos[m]) if (vars.count(v)) { rel = true; break; } if (rel) break; }
      if (rel) { used[i] = 1; ch = true; collect(RPC[i].p); z3::expr e = nlExpr(RPC[i].p, xv); s.add(RPC[i].sgn > 0 ? e >= 0 : e <= 0); }
    }
    for (auto v : std::set<uint16_t>(vars)) if (V[v].kind == 1) { size_t n = vars.size(); collect(radicandOf(v)); if (vars.size() != n) ch = true; }
  }
  for (auto v : vars) {
    if (!xv.count(v)) xv.emplace(v, Z->real_const(("x" + std::to_string(v)).c_str()));
    z3::expr x = xv.at(v);
    if (V[v].kind == 0) { s.add(x >= -1); s.add(x <= 1); }
    else if (V[v].kind == 1) { s.add(x >= 0); s.add(x * x == nlExpr(radicandOf(v), xv)); }
    else { s.add(x >= zd(V[v].iv.lo)); s.add(x <= zd(V[v].iv.hi)); }
  }
  double t = now();
  S->qNRA++;
  z3::check_result r = s.check();
  S->tNRA += (long)((now() - t) * 1e6);
  if (r == z3::sat && model) {
    z3::model m = s.get_model();
    model->assign(V.size(), 0.0);
    for (auto& [v, x] : xv) {
      z3::expr val = m.eval(x, true);
      std::string sv;
      try { if (val.is_algebraic()) val = z3::expr(*Z, Z3_get_algebraic_number_lower(*Z, val, 30)); sv = val.get_decimal_string(20); } catch (...) { sv = "0"; }
      (*model)[v] = strtod(sv.c_str(), nullptr);
    }
  }
  return r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
}

// ------------------------------------------------------------------------------------------------ forking
static void flushObligations();
static std::vector<pid_t> kids;
static void releaseToken() { if (ownsToken) { G->running--; ownsToken = false; } }
static void reap(bool all) {
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, all ? 0 : WNOHANG);
    if (p <= 0) break;
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { S->crashed++; G->err++; msg("child %d ended abnormally (status %d)", (int)p, st); }
  }
}
[[noreturn]] static void endProcess() {
  releaseToken();
  reap(true);
  _exit(0);
}
static void checkDeadline() {
  if (now() > deadline) { S->incomplete++; endProcess(); }
  if (G->totalViol.load() >= 3) { S->prune++; endProcess(); }
}
// returns true in the child
static bool memoryLeft() {
  int fd = open("/proc/meminfo", O_RDONLY | O_CLOEXEC);
  if (fd < 0) return true;
  char b[512];
  ssize_t n = read(fd, b, sizeof b - 1);
  close(fd);
  if (n <= 0) return true;
  b[n] = 0;
  const char* q = strstr(b, "MemAvailable:");
  return !q || atol(q + 13) > 2500000;   // kB
}
static bool doFork() {
  S->forks++;
  checkDeadline();
  if (!memoryLeft()) { S->incomplete++; endProcess(); }
  bool par = G->running.fetch_add(1) < NPROC;
  if (!par) G->running--;
  pid_t p = fork();
  if (p < 0) { msg("fork failed: %s", strerror(errno)); S->incomplete++; G->err++; if (par) G->running--; endProcess(); }
  depth++;
  pathHash = pathHash * 31 + 7;
  if (S->maxDepth.load() < depth) S->maxDepth = depth;
  if (p == 0) {
    ownsToken = par;
    pathHash = pathHash * 6364136223846793005ull + 1442695040888963407ull;
    rng.seed(seedBase * 7919 + pathHash);
    return true;
  }
  if (!par) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { S->crashed++; G->err++; msg("child %d ended abnormally (status %d)", (int)p, st); }
  } else reap(false);
  return false;
}

// decide an integer condition, forking if both outcomes are possible
static bool branchBV(uint32_t s) {
  if (isC(s)) return N[s].k & 1;
  S->branches++;
  checkDeadline();
  z3::expr e = zbool(s);
  int canT = -2, canF = -2;
  if (lastModel) {
    z3::expr v = lastModel->eval(e, true);
    if (v.is_true()) canT = 1; else if (v.is_false()) canF = 1;
  }
  z3::model* mT = nullptr; z3::model* mF = nullptr;
  if (canT == -2) { z3::expr_vector a(*Z); a.push_back(e); canT = bvCheck(a, &mT); }
  if (canF == -2) { z3::expr_vector a(*Z); a.push_back(!e); canF = bvCheck(a, &mF); }
  if (canT < 0 || canF < 0) { S->undecided++; if (canT < 0) canT = 1; if (canF < 0) canF = 1; }
  if (canT && canF) {
    if (doFork()) {
      bvAssert(s, false);
      if (mF) lastModel = mF; else if (mT) {}  // otherwise lastModel satisfies !e already
      else if (lastModel && lastModel->eval(e, true).is_true()) lastModel = nullptr;
      return false;
    }
    bvAssert(s, true);
    if (mT) lastModel = mT; else if (lastModel && !lastModel->eval(e, true).is_true()) lastModel = nullptr;
    return true;
  }
  if (!canT && !canF) { S->killed++; endProcess(); }
  if (canT && mT) lastModel = mT;
  if (canF && mF) lastModel = mF;
  return canT;
}
static uint64_t concBV(uint32_t s) {
  if (isC(s)) return N[s].k;
  if (isReal(s)) unsupported("symbolic real used as integer");
  S->concretised++;
  if (getenv("LFS_BT")) { void* b[12]; int n = backtrace(b, 12); backtrace_symbols_fd(b, n, 2); }
  z3::expr e = bz(s);
  unsigned w = N[s].w;
  for (;;) {
    checkDeadline();
    z3::model* m = lastModel;
    if (!m) { z3::expr_vector a(*Z); int r = bvCheck(a, &m); if (r != 1) { S->undecided++; endProcess(); } lastModel = m; }
    z3::expr v = m->eval(e, true);
    uint64_t val;
    if (!v.is_numeral_u64(val)) unsupported("model value");
    z3::expr eq = (e == Z->bv_val((uint64_t)val, w));
    z3::expr_vector a(*Z); a.push_back(!eq);
    z3::model* m2 = nullptr;
    int r = bvCheck(a, &m2);
    if (r == 0) { BS->add(eq); return val; }
    if (r < 0) S->undecided++;
    // the new process follows one value, this one goes on to the others (so that few processes wait for each other)
    if (doFork()) { BS->add(eq); return val; }
    BS->add(!eq);
    lastModel = m2;
  }
}
static uint32_t mkR(Op op, uint32_t a, uint32_t b);
// feasible sign of polynomial p under box and path condition; node (optional) = expression with the same sign for samples
// returns bitmask: 1 negative possible, 2 positive possible
static int possibleSigns(const Poly& p, uint32_t node) {
  if (p.empty()) return 0;
  Ival iv = pival(p);
  if (iv.lo >= 0) return 2;   // (the set where it vanishes has measure zero)
  if (iv.hi <= 0) return 1;
  int have = 0;
  extendPoints();
  if (node) {
    for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i]) { double v = nodeAt(i, node); if (v > 0) have |= 2; if (v < 0) have |= 1; }
    if (have == 3) return 3;
  }
  zinit();
  const bool havePC = false;
  for (int side = 1; side <= 2; side++) {
    if (have & side) continue;
    std::map<uint32_t, z3::expr> mv;
    z3::solver s = mkLra({&p}, mv, true);
    double sl; z3::expr e = linExpr(p, mv, &sl);
    s.add(side == 2 ? e > zd(-sl) : e < zd(sl));
    // (strictness is irrelevant: measure-zero sets are outside the claim)
    int r = lraCheck(s);
    if (r == 0) continue;
    // guided sampling for this side
    bool hit = false;
    if (node) {
      std::vector<double> best; double bv = -1e300;
      for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i]) { double v = nodeAt(i, node) * (side == 2 ? 1 : -1); if (v > bv) { bv = v; best = pts[i]; } }
      for (int a = 0; a < 400 && !hit && !best.empty(); a++) {
        std::vector<double> q = best;
        double rad = std::pow(0.6, a % 10);
        for (auto& x : q) if (rng() % 2) x = std::max(-1.0, std::min(1.0, x + rad * rnd()));
        std::unordered_map<uint32_t, double> memo;
        double v = evalNode(node, q, memo) * (side == 2 ? 1 : -1);
        if (v > bv && satisfies(q, memo)) { bv = v; best = q; if (v > 0) hit = true; }
      }
      if (hit) { int k = rng() % pts.size(); pts[k] = best; ptMemo[k].clear(); ptAlive[k] = 1; }
    }
    if (hit) { have |= side; continue; }
    Poly q = p;
    if (side == 1) for (auto& t : q) t.second = -t.second;
    if (node && !havePC) { if (nodePositive(node, side == 2 ? -1 : 1, 0, 1500)) { S->icp++; continue; } }
    if (boxInfeasible({q})) { S->icp++; continue; }
    // require a margin so that boundary-only (measure-zero) solutions do not count
    mpq_class mag = 0; for (auto& t : q) mag += abs(t.second);
    q = padd(q, Poly{{0, mag * mpq_class(1e-9)}}, -1);
    int r2 = nraCheck({q}, nullptr);
    if (r2 == 0) continue;
    if (r2 < 0) { S->unknown++; S->infeasChecks++; }
    have |= side;
  }
  return have;
}
static bool branchReal(uint32_t node, const Poly& p) {  // true: p >= 0
  S->branches++;
  checkDeadline();
  int m = possibleSigns(p, node);
  if (getenv("LFS_TRACE")) { Ival iv = pival(p); msg("branchReal signs=%d iv=[%g,%g] terms=%zu pc=%zu alive=%d", m, iv.lo, iv.hi, p.size(), RPC.size(), aliveCount()); if (p.size() < 30) { std::string q; for (auto& [mm, c] : p) { q += " " + std::to_string(c.get_d()); for (auto& [v, e] : monos[mm]) q += "*t" + std::to_string(v) + "^" + std::to_string(e); } msg("  %s", q.c_str()); } }
  if (m == 3 && getenv("LFS_BT")) { void* b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); }
  if (m == 0) { S->killed++; endProcess(); }
  if (m == 2) return true;
  if (m == 1) return false;
  if (doFork()) { addRC(node, -1, &p); return false; }
  addRC(node, 1, &p);
  return true;
}
static uint32_t polyNode(const Poly& p);
static int polySign(const Poly& p, const char*) {
  if (p.empty()) return 0;
  Ival iv = pival(p);
  if (iv.lo > 0) return 1;
  if (iv.hi < 0) return -1;
  uint32_t n = polyNode(p);
  return branchReal(n, p) ? 1 : -1;
}
static int factorSign(int f) {
  static std::map<int, int> known;
  auto it = known.find(f);
  if (it != known.end()) return it->second;
  int s = polySign(factors[f], "denominator");
  known[f] = s;
  return s;
}
static int denSign(const std::vector<std::pair<int, int>>& d) { int s = 1; for (auto& [f, e] : d) if (e % 2) s *= factorSign(f); return s; }
// decide a < b (strictly or not: boundary has measure zero)
static bool decideLess(uint32_t a, uint32_t b) {
  uint32_t dnode = mkR(RSUB, b, a);
  std::shared_ptr<Rat> r = norm(dnode);
  if (r->num.empty()) return false;
  int ds = denSign(r->den);
  Poly p = r->num;
  if (ds < 0) for (auto& t : p) t.second = -t.second;
  return branchReal(dnode, p);
}

// ------------------------------------------------------------------------------------------------ real nodes
static uint32_t mkR(Op op, uint32_t a, uint32_t b) {
  if (!isReal(a) || (b && !isReal(b))) unsupported("mixed integer/real operation");
  bool ca = N[a].op == RCONST, cb = b && N[b].op == RCONST;
  double x = ca ? rcval(a) : 0, y = cb ? rcval(b) : 0;
  switch (op) {
    case RADD: if (ca && x == 0) return b; if (cb && y == 0) return a; break;
    case RSUB: if (cb && y == 0) return a; if (a == b) return rconst(0); if (ca && x == 0) return mkR(RNEG, b, 0); break;
    case RMUL: if ((ca && x == 0) || (cb && y == 0)) return rconst(0); if (ca && x == 1) return b; if (cb && y == 1) return a;
      if (ca && x == -1) return mkR(RNEG, b, 0); if (cb && y == -1) return mkR(RNEG, a, 0); if (ca) std::swap(a, b); break;
    case RDIV: if (cb && y == 1) return a; if (ca && x == 0) return rconst(0); break;
    case RNEG: if (ca) return rconst(-x); if (N[a].op == RNEG) return N[a].a; break;
    default: break;
  }
  return mk(op, 0, 0, a, b, 0, 0);
}
static uint32_t polyNode(const Poly& p) {
  // expression over variables (sqrt variables via their radicand) used for sampling signs
  static std::map<int, uint32_t> sv;
  uint32_t acc = 0;
  for (auto& [m, c] : p) {
    uint32_t t = rconst(c.get_d());
    for (auto& [v, e] : monos[m]) {
      uint32_t x;
      auto it = sv.find(v);
      if (it != sv.end()) x = it->second;
      else {
        if (V[v].kind == 0) { // t = (x-mid)/rad
          uint32_t xv = mk(RVAR, 0, 0, 0, 0, 0, v);
          x = mkR(RDIV, mkR(RSUB, xv, rconst(V[v].mid)), rconst(V[v].rad == 0 ? 1 : V[v].rad));
        } else if (V[v].kind == 1) x = mk(RSQRT, 0, 0, polyNode(radicandOf(v)), 0, 0, 0);
        else x = mk(RUF, 0, V[v].uf, V[v].arg, 0, 0, 0);
        sv[v] = x;
      }
      for (int k = 0; k < e; k++) t = mkR(RMUL, t, x);
    }
    acc = acc ? mkR(RADD, acc, t) : t;
  }
  return acc ? acc : rconst(0);
}

// ------------------------------------------------------------------------------------------------ violations
static bool realModel(std::vector<double>& out) {
  extendPoints();
  for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i]) { out = pts[i]; return true; }
  if (regenPoints(2)) for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i]) { out = pts[i]; return true; }
  if (RPC.empty()) { out.assign(V.size(), 0.0); return true; }
  std::vector<double> m;
  if (nraCheck({}, &m) == 1) { out = m; return true; }
  return false;
}
static void writeInputs(const char* path, z3::model* bm, const std::vector<double>& rp, const char* what) {
  FILE* f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "case %s\nthorough %d\nwhat %s\n", curCase.c_str(), (int)thorough, what);
  for (auto& in : inputs) {
    for (char& c : in.name) if (c == ' ') c = '_';
    if (in.kind == 'r') fprintf(f, "in r %s %.17g\n", in.name.c_str(), V[in.idx].mid + V[in.idx].rad * (in.idx < (int)rp.size() ? rp[in.idx] : 0.0));
    else {
      uint64_t v = 0;
      z3::expr e = bz(in.node);
      if (bm) { z3::expr x = bm->eval(e, true); x.is_numeral_u64(v); }
      fprintf(f, "in %c %s %lld\n", in.kind, in.name.c_str(), (long long)sext(v, N[in.node].w));
    }
  }
  fclose(f);
}
static bool replayMode = false;
[[noreturn]] static void verdict(const char*, const char*, int);
[[noreturn]] static void violation(const char* what, z3::model* bm, const std::vector<double>* rp) {
  if (replayMode) { verdict("FAIL", what, 1); }
  inRuntime = true;
  if (inputs.size() && !Z) zinit();
  if (!bm && Z) { z3::expr_vector a(*Z); bvCheck(a, &bm); }
  std::vector<double> p;
  bool ok = true;
  if (rp) p = *rp; else ok = realModel(p);
  if (!ok) {
    // no values of the real inputs that satisfy the path condition could be exhibited: not a counterexample
    S->undecided++;
    msg("UNDECIDED (path without a model): %s", what);
    endProcess();
  }
  S->violations++;
  long k = G->totalViol.fetch_add(1);
  char path[1024];
  snprintf(path, sizeof path, "%s/viol_%s_%ld.txt", outDir.c_str(), curCase.c_str(), k);
  writeInputs(path, bm, p, what);
  msg("VIOLATION: %s (%s)%s", what, path, ok ? "" : " [no real model]");
  endProcess();
}
static bool expectRefusal = false;

// ------------------------------------------------------------------------------------------------ obligations
struct Oblig { uint32_t diff; std::shared_ptr<Rat> r; double tol; int kind; const char* msg; };  // kind 0: |d|<=tol ; 1: d >= -tol
static std::vector<Oblig> pend;
// lower bound of |f| over box and path condition (0 if unknown)
static double factorLower(int f) {
  static std::map<int, std::pair<size_t, double>> memo;
  auto it = memo.find(f);
  if (it != memo.end() && (it->second.second > 0 || it->second.first == RPC.size())) return it->second.second;
  const Poly& p = factors[f];
  Ival iv = pival(p);
  double r = 0;
  if (iv.lo > 0) r = iv.lo; else if (iv.hi < 0) r = -iv.hi;
  else {
    zinit();
    double mag = std::max(std::fabs(iv.lo), std::fabs(iv.hi));
    if (p.size() < 3000)
      for (double d : {mag * 1e-1, mag * 1e-2, mag * 1e-3}) {
        Poly up = padd(Poly{{0, mpq_class(d)}}, p, -1), dn = padd(Poly{{0, mpq_class(d)}}, p, 1);
        if (boxInfeasible({up, dn})) { S->icp++; r = d; break; }
      }
    if (r == 0) for (double d : {mag * 1e-1, mag * 1e-2, mag * 1e-3, mag * 1e-4}) {
      std::map<uint32_t, z3::expr> mv;
      z3::solver s = mkLra({&p}, mv, true);
      double sl; z3::expr e = linExpr(p, mv, &sl);
      s.add(e <= zd(d + sl)); s.add(e >= zd(-d - sl));
      if (lraCheck(s) == 0) { r = d; break; }
    }
    if (r == 0) {
      for (double d : {mag * 1e-2, mag * 1e-4}) {
        Poly up = padd(Poly{{0, mpq_class(d)}}, p, -1), dn = padd(Poly{{0, mpq_class(d)}}, p, 1);
        if (nraCheck({up, dn}, nullptr) == 0) { r = d; break; }
      }
    }
  }
  memo[f] = {RPC.size(), r};
  return r;
}
static double denLower(const std::vector<std::pair<int, int>>& d) { double r = 1; for (auto& [f, e] : d) r *= std::pow(factorLower(f), e); return r; }
static bool sampleViolation(const Oblig& o, std::vector<double>& out) {
  extendPoints();
  auto bad = [&](double v) { return o.kind == 0 ? std::fabs(v) - o.tol : -v - o.tol; };
  std::vector<double> best; double bv = -1e300;
  for (int i = 0; i < (int)pts.size(); i++) if (ptAlive[i]) { double v = bad(nodeAt(i, o.diff)); if (v > bv) { bv = v; best = pts[i]; } }
  if (bv > 0) { out = best; return true; }
  for (int a = 0; a < 1500; a++) {
    std::vector<double> q(V.size());
    std::unordered_map<uint32_t, double> memo;
    if (best.empty() || a % 3 == 0) for (auto& x : q) { x = rnd(); if (rng() % 4 == 0) x = x > 0 ? 1 : -1; }
    else { q = best; q.resize(V.size(), 0.0); double rad = std::pow(0.5, a % 12); for (auto& x : q) if (rng() % 3 == 0) x = std::max(-1.0, std::min(1.0, x + rad * rnd())); }
    double v = bad(evalNode(o.diff, q, memo));
    if (v > bv && satisfies(q, memo)) { bv = v; best = q; if (bv > 0) { out = best; return true; } }
  }
  return false;
}
static void decideOne(const Oblig& o) {
  // individual decision after the batch was not unsat
  zinit();
  std::vector<double> m;
  if (sampleViolation(o, m)) violation(o.msg, nullptr, &m);
  double dl = denLower(o.r->den);
  int ds = o.kind == 1 ? denSign(o.r->den) : 1;
  const Poly& n = o.r->num;
  auto lra = [&](int side) {
    if (dl <= 0) return 1;
    std::map<uint32_t, z3::expr> mv;
    z3::solver s = mkLra({&n}, mv, true);
    double sl; z3::expr e = linExpr(n, mv, &sl);
    double bound = o.tol * dl - sl;
    if (side > 0) s.add(e > zd(bound)); else s.add(e < zd(-bound));
    return lraCheck(s);
  };
  Poly D = denPoly(o.r->den);
  auto nra = [&](int side) {  // side*n > tol*|D|  (D sign fixed by ds when tracked)
    Poly a = n; if (side < 0) for (auto& t : a) t.second = -t.second;
    // two cases for the sign of D
    int res = 0;
    for (int sd : {1, -1}) {
      if (o.r->den.empty() && sd < 0) continue;
      Poly Ds = D; if (sd < 0) for (auto& t : Ds) t.second = -t.second;
      Poly Dt = Ds; for (auto& t : Dt) t.second *= mpq_class(o.tol);
      mpq_class mag = 0; for (auto& t : a) mag += abs(t.second);
      Poly c = padd(a, Dt, -1);
      c = padd(c, Poly{{0, mpq_class(1e-12) * mag}}, -1);
      std::vector<double> mm;
      if (boxInfeasible({c, Ds})) { S->icp++; continue; }
      int r = nraCheck({c, Ds}, &mm);
      if (r == 1) { std::unordered_map<uint32_t, double> memo; m = mm; double v = evalNode(o.diff, mm, memo); if ((o.kind == 0 ? std::fabs(v) > o.tol : v < -o.tol)) violation(o.msg, nullptr, &m); return -1; }
      if (r < 0) res = -1;
    }
    return res;
  };
  bool proved = true;
  for (int side : {1, -1}) {
    if (o.kind == 1 && side * ds > 0) continue;  // only d < -tol matters
    int r = o.kind == 1 && o.tol == 0 && dl <= 0 ? 1 : lra(side);
    if (r == 0) continue;
    r = nra(side);
    if (r == 0) { S->obNRA++; continue; }
    proved = false;
  }
  if (proved) { S->obLRA++; return; }
  S->undecided++;
  msg("UNDECIDED: %s", o.msg);
}
static std::set<std::string> seenOb;
static void flushObligations() {
  if (pend.empty()) return;
  std::vector<Oblig> p;
  p.swap(pend);
  zinit();
  {
    // obligations whose numerator is within the tolerance by interval arithmetic alone (rounding residues of identities)
    std::vector<Oblig> q;
    for (auto& o : p) {
      Ival iv = pival(o.r->num);
      double M = std::max(std::fabs(iv.lo), std::fabs(iv.hi));
      if (o.tol > 0 && M <= o.tol && M <= o.tol * denLower(o.r->den)) { S->obInterval++; continue; }
      if (o.kind == 1 && o.r->den.empty() && iv.lo >= -o.tol) { S->obInterval++; continue; }
      q.push_back(o);
    }
    p.swap(q);
  }
  size_t i = 0;
  while (i < p.size()) {
    // batch: one LRA query "some obligation is violated"
    std::vector<const Poly*> ps;
    std::vector<size_t> idx;
    size_t terms = 0;
    while (i < p.size() && idx.size() < 400 && terms < 20000) { ps.push_back(&p[i].r->num); idx.push_back(i); terms += p[i].r->num.size(); i++; }
    std::map<uint32_t, z3::expr> mv;
    std::vector<size_t> single;
    z3::expr_vector any(*Z);
    std::vector<size_t> inBatch;
    std::vector<double> dls(idx.size());
    for (size_t k = 0; k < idx.size(); k++) dls[k] = denLower(p[idx[k]].r->den);
    std::vector<int> dsg(idx.size(), 1);
    for (size_t k = 0; k < idx.size(); k++) if (p[idx[k]].kind == 1) dsg[k] = denSign(p[idx[k]].r->den);
    z3::solver s = mkLra(ps, mv, true);
    for (size_t k = 0; k < idx.size(); k++) {
      Oblig& o = p[idx[k]];
      if (dls[k] <= 0) { single.push_back(idx[k]); continue; }
      double sl; z3::expr e = linExpr(o.r->num, mv, &sl);
      double bound = o.tol * dls[k] - sl;
      if (o.kind == 0) { any.push_back(e > zd(bound)); any.push_back(e < zd(-bound)); }
      else any.push_back(dsg[k] > 0 ? e < zd(-bound) : e > zd(bound));
      inBatch.push_back(idx[k]);
    }
    if (!inBatch.empty()) {
      s.add(z3::mk_or(any));
      int r = lraCheck(s);
      if (r == 0) S->obLRA += inBatch.size();
      else for (size_t k : inBatch) decideOne(p[k]);
    }
    for (size_t k : single) decideOne(p[k]);
  }
}
static void oblige(uint32_t a, uint32_t b, double tol, int kind, const char* msgs) {
  S->assertsReal++;
  if (kind == 1 && tol >= 0 && N[a].op == RSQRT && N[b].op == RCONST && rcval(b) <= 0) { S->obIdentity++; return; }
  uint32_t d = mkR(RSUB, a, b);
  std::shared_ptr<Rat> r = norm(d);
  if (r->num.empty()) { if (kind == 1 && tol < 0) violation(msgs, nullptr, nullptr); S->obIdentity++; return; }
  if (r->den.empty() && r->num.size() == 1 && r->num[0].first == 0) {
    double v = r->num[0].second.get_d();
    if (kind == 0 ? std::fabs(v) <= tol : v >= -tol) { S->obConst++; return; }
    violation(msgs, nullptr, nullptr);
  }
  pend.push_back({d, r, tol, kind, msgs});
  if (pend.size() >= 400) flushObligations();
}

// ------------------------------------------------------------------------------------------------ instrumentation entry points
static inline uint32_t iv(uint32_t s, unsigned w, uint64_t v) { return s ? s : bconst(w, v); }
static inline uint32_t rv(uint32_t s, double v) {
  if (s) { if (!isReal(s)) unsupported("integer bits used as a real"); return s; }
  return rconst(v);
}
extern "C" {
uint32_t __lfs_load(const void* ptr, uint32_t size) {
  uintptr_t a = (uintptr_t)ptr;
  SPage* p = pageOf(a);
  if (!p && ((a & 4095) + size <= 4096)) return 0;
  uint32_t e[16];
  uint32_t any = 0;
  if (size > 16) unsupported("wide load");
  for (uint32_t i = 0; i < size; i++) any |= (e[i] = entryAt(a + i));
  if (!any) return 0;
  uint32_t id = e[0] >> 3;
  bool ok = id && (e[0] & 7) == 0 && size <= 8;
  for (uint32_t i = 1; ok && i < size; i++) ok = e[i] == ((id << 3) | i);
  if (ok && (isReal(id) || N[id].w == size * 8)) return id;
  if (size == 1 && id && isReal(id)) return mk(RBYTE, 8, 0, id, 0, 0, e[0] & 7);
  if (size == 8 && id && isReal(id)) {
    bool rev = true;
    for (uint32_t i = 0; rev && i < 8; i++) rev = e[i] == ((id << 3) | (7 - i));
    if (rev) return mk(RSWAP, 64, 0, id, 0, 0, 0);
  }
  if (size > 8) unsupported("wide symbolic load");
  if (size == 8) {
    uint32_t half[2] = {0, 0};
    bool pair = false, good = true;
    for (int h = 0; h < 2 && good; h++) {
      const uint32_t* q = e + 4 * h;
      uint32_t id2 = q[0] >> 3;
      if (id2 && isReal(id2)) { for (uint32_t i = 0; i < 4; i++) good &= q[i] == ((id2 << 3) | i); half[h] = id2; pair = true; }
      else if (q[0] | q[1] | q[2] | q[3]) good = false;
      else { float f; memcpy(&f, (const char*)ptr + 4 * h, 4); half[h] = std::isfinite(f) ? rconst(f) : 0; good = half[h]; }
    }
    if (pair && good) return mk(RPAIR, 64, 0, half[1], half[0], 0, 0);
  }
  uint32_t acc = 0;
  for (int i = (int)size - 1; i >= 0; i--) {
    uint32_t b;
    if (e[i]) { uint32_t s = e[i] >> 3; if (isReal(s)) unsupported("partial load of a symbolic real"); b = mkExtr(s, (e[i] & 7) * 8, 8); }
    else b = bconst(8, ((const unsigned char*)ptr)[i]);
    acc = acc ? mkConcat(acc, b) : b;
  }
  return acc;
}
void __lfs_store(void* ptr, uint32_t size, uint32_t id) {
  uintptr_t a = (uintptr_t)ptr;
  if (!id) {
    SPage* p = pageOf(a);
    if ((a & 4095) + size <= 4096) { if (p) for (uint32_t i = 0; i < size; i++) p->e[(a & 4095) + i] = 0; }
    else clearRange(a, size);
    return;
  }
  if (size > 8) unsupported("wide symbolic store");
  if (N[id].op == RPAIR) {
    if (size != 8) unsupported("partial store of a pair of reals");
    for (uint32_t i = 0; i < 8; i++) mkPage(a + i)->e[(a + i) & 4095] = ((i < 4 ? N[id].b : N[id].a) << 3) | (i & 3);
    return;
  }
  if (N[id].op == RBYTE) {
    if (size != 1) unsupported("wide store of a byte of a real");
    mkPage(a)->e[a & 4095] = (N[id].a << 3) | (uint32_t)N[id].k;
    return;
  }
  if (N[id].op == RSWAP) {
    if (size != 8) unsupported("partial store of a real");
    for (uint32_t i = 0; i < 8; i++) mkPage(a + i)->e[(a + i) & 4095] = (N[id].a << 3) | (7 - i);
    return;
  }
  for (uint32_t i = 0; i < size; i++) mkPage(a + i)->e[(a + i) & 4095] = (id << 3) | i;
}
void __lfs_clear(void* p, uint64_t n) { clearRange((uintptr_t)p, n); }
void __lfs_memcpy(void* d, const void* s, uint64_t n) {
  uintptr_t da = (uintptr_t)d, sa = (uintptr_t)s;
  if (da == sa || !n) return;
  if (n <= 4096 && !pageOf(sa) && !pageOf(sa + n - 1) && !pageOf(da) && !pageOf(da + n - 1)) return;
  bool fwd = da < sa;
  for (uint64_t k = 0; k < n; k++) {
    uint64_t i = fwd ? k : n - 1 - k;
    uint32_t e = entryAt(sa + i);
    if (e) mkPage(da + i)->e[(da + i) & 4095] = e;
    else { SPage* p = pageOf(da + i); if (p) p->e[(da + i) & 4095] = 0; }
  }
}
// result of memcmp/bcmp over memory that holds symbolic values (0: both ranges are concrete)
uint32_t __lfs_memcmp(const void* p, const void* q, uint64_t n, uint32_t w, uint32_t eq) {
  uintptr_t a = (uintptr_t)p, b = (uintptr_t)q;
  if (!n || a == b) return 0;
  if (n <= 4096 && !pageOf(a) && !pageOf(a + n - 1) && !pageOf(b) && !pageOf(b + n - 1)) return 0;
  bool any = false;
  for (uint64_t i = 0; i < n && !any; i++) any = entryAt(a + i) || entryAt(b + i);
  if (!any) return 0;
  auto whole = [&](uintptr_t x, uint64_t k) {  // k bytes at x: concrete, or exactly one symbolic value
    uint32_t e0 = entryAt(x);
    if (!e0) { for (uint64_t i = 1; i < k; i++) if (entryAt(x + i)) return false; return true; }
    uint32_t id = e0 >> 3;
    if ((e0 & 7) || (isReal(id) ? k != 8 : N[id].w != 8 * k)) return false;
    for (uint64_t i = 1; i < k; i++) if (entryAt(x + i) != ((id << 3) | i)) return false;
    return true;
  };
  auto val = [&](uintptr_t x, uint64_t k) -> uint32_t {
    if (uint32_t s = __lfs_load((const void*)x, (uint32_t)k)) return s;
    uint64_t v = 0;
    memcpy(&v, (const void*)x, k);
    return bconst(8 * (unsigned)k, v);
  };
  if (eq) {
    uint32_t ne = bconst(1, 0);
    for (uint64_t i = 0; i < n;) {
      uint64_t k = 1;
      if (i + 8 <= n && whole(a + i, 8) && whole(b + i, 8)) k = 8;
      else if (i + 4 <= n && whole(a + i, 4) && whole(b + i, 4)) k = 4;
      uint32_t x = val(a + i, k), y = val(b + i, k);
      if (x != y) {
        if (isReal(x) || isReal(y)) unsupported("bitwise comparison of symbolic reals");
        ne = mkBin(11, 1, ne, mkIcmp(1, 8 * (unsigned)k, x, y));
      }
      i += k;
    }
    return mkIte(ne, bconst(w, 1), bconst(w, 0));
  }
  uint32_t acc = bconst(w, 0);
  for (uint64_t i = n; i-- > 0;) {
    uint32_t x = val(a + i, 1), y = val(b + i, 1);
    if (x == y) continue;
    acc = mkIte(mkIcmp(0, 8, x, y), acc, mkIte(mkIcmp(4, 8, x, y), bconst(w, ~0ull), bconst(w, 1)));
  }
  return acc;
}
void __lfs_noshadow(const void* p, uint64_t n, const char* name) {
  if (n == ~0ull) n = strlen((const char*)p) + 1;
  uintptr_t a = (uintptr_t)p;
  for (uint64_t i = 0; i < n; i++)
    if (entryAt(a + i)) {
      char b[256];
      snprintf(b, sizeof b, "symbolic memory read by %s", name);
      unsupported(b);
    }
}
void __lfs_memset(void* d, uint64_t n, uint32_t s) {
  if (!s) { clearRange((uintptr_t)d, n); return; }
  for (uint64_t i = 0; i < n; i++) __lfs_store((char*)d + i, 1, s);
}
uint32_t __lfs_ibin(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b) {
  if (!(sa | sb)) return 0;
  uint32_t x = iv(sa, w, a), y = iv(sb, w, b);
  if (w == 64 && (isReal(x) || isReal(y))) {
    // sign-bit manipulation of a double
    if (op == 10 && isReal(x) && isC(y) && N[y].k == 0x7fffffffffffffffull) unsupported("abs through integer mask");
    if (op == 12 && isReal(x) && isC(y) && N[y].k == 0x8000000000000000ull) return mkR(RNEG, x, 0);
  }
  if (op == 27) {   // bytes in reverse order
    if (w == 64 && isReal(x)) return mk(RSWAP, 64, 0, x, 0, 0, 0);
    if (N[x].op == RSWAP) return N[x].a;
    if (isReal(x) || N[x].op == RPAIR) unsupported("byte swap of a symbolic real");
    uint32_t r = mkExtr(x, 0, 8);
    for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtr(x, i, 8));
    return r;
  }
  if (op >= 3 && op <= 6 && !isC(y)) {
    // divisor must be nonzero: a zero divisor is a crash of the real program
    uint32_t z = mkIcmp(0, w, y, bconst(w, 0));
    if (branchBV(z)) violation("integer division by zero", nullptr, nullptr);
  }
  return mkBin(op, w, x, y);
}
uint32_t __lfs_icmp(uint32_t p, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b) {
  if (!(sa | sb)) return 0;
  return mkIcmp(p, w, iv(sa, w, a), iv(sb, w, b));
}
uint32_t __lfs_ovf(uint32_t op, uint32_t w, uint32_t sa, uint64_t a, uint32_t sb, uint64_t b) {
  if (!(sa | sb)) return 0;
  uint32_t x = iv(sa, w, a), y = iv(sb, w, b);
  if (isC(x) && isC(y) && w <= 32) {
    int o = op >> 1; bool sg = op & 1;
    __int128 p = sg ? (__int128)sext(N[x].k, w) : (__int128)N[x].k, q = sg ? (__int128)sext(N[y].k, w) : (__int128)N[y].k;
    __int128 r = o == 0 ? p + q : o == 1 ? p - q : p * q;
    __int128 back = sg ? (__int128)sext((uint64_t)r, w) : (__int128)((uint64_t)r & maskw(w));
    return bconst(1, r != back);
  }
  return mk(BOVF, 1, op, x, y, 0, 0);
}
uint32_t __lfs_branch(uint32_t s, uint32_t c) {
  if (!s) return c;
  return branchBV(s);
}
// entry of a constant table at a symbolic index: a case distinction over the runs of equal entries (0: not possible, the caller follows one path per index)
uint32_t __lfs_tload(const void* base, uint64_t n, uint32_t ew, uint32_t s, uint32_t w) {
  if (!s || isC(s) || isReal(s) || n == 0) return 0;
  if (w < 64 && n > maskw(w)) n = maskw(w) + 1;
  auto at = [&](uint64_t i) { uint64_t v = 0; memcpy(&v, (const char*)base + i * (ew / 8), ew / 8); return v; };
  if (n <= maskw(w)) {
    z3::expr_vector a(*Z); a.push_back(!zbool(mkIcmp(4, w, s, bconst(w, n))));
    z3::model* m = nullptr;
    if (bvCheck(a, &m) != 0) return 0;
  }
  uint32_t acc = bconst(ew, at(n - 1));
  for (uint64_t i = n - 1; i > 0; i--) if (at(i) != at(i - 1)) acc = mkIte(mkIcmp(4, w, s, bconst(w, i)), bconst(ew, at(i - 1)), acc);
  if (isC(acc)) return 0;
  return acc;
}
uint64_t __lfs_conc(uint32_t s, uint32_t w, uint64_t v) {
  if (!s) return v;
  return concBV(s);
}
// a switch: one path per feasible case and one for the default
uint64_t __lfs_switch(uint32_t s, uint32_t w, uint64_t v, const uint64_t* cases, uint32_t n) {
  if (!s) return v;
  if (isC(s) || isReal(s) || n == 0) return concBV(s);
  for (uint32_t i = 0; i < n; i++)
    if (branchBV(mkIcmp(0, w, s, bconst(w, cases[i])))) return cases[i];
  for (uint64_t d = 0;; d++) {   // any value that is not a case stands for the default
    bool used = false;
    for (uint32_t i = 0; i < n; i++) used |= cases[i] == d;
    if (!used && d <= maskw(w)) return d;
    if (d > maskw(w)) return v;
  }
}
uint32_t __lfs_isel(uint32_t w, uint32_t sc, uint32_t c, uint32_t st, uint64_t t, uint32_t sf, uint64_t f) {
  if (!sc) return c ? st : sf;
  if ((st && isReal(st)) || (sf && isReal(sf))) {
    bool b = branchBV(sc);
    uint32_t s = b ? st : sf;
    if (s) return s;
    return bconst(w, b ? t : f);
  }
  return mkIte(sc, iv(st, w, t), iv(sf, w, f));
}
static int64_t floorDecide(uint32_t x);
uint32_t __lfs_cast(uint32_t kind, uint32_t fw, uint32_t tw, uint32_t s) {
  if (!s) return 0;
  if (kind >= 10) {
    if (!isReal(s)) unsupported("fptoint of integer");
    int64_t r;
    if (decideLess(s, rconst(0))) r = -floorDecide(mkR(RNEG, s, 0)); else r = floorDecide(s);
    return bconst(tw, (uint64_t)r);
  }
  return mkCast(kind, fw, tw, s);
}
uint32_t __lfs_fcmp(uint32_t pred, uint32_t sa, double a, uint32_t sb, double b, uint32_t conc) {
  if (!(sa | sb)) return conc;
  if (pred == 0) return 0;
  if (pred == 15) return 1;
  if (pred == 7) return 1;
  if (pred == 8) return 0;
  if (!sa && std::isnan(a)) return pred >= 8;
  if (!sb && std::isnan(b)) return pred >= 8;
  if ((!sa && std::isinf(a)) || (!sb && std::isinf(b))) {
    double x = sa ? 0 : a, y = sb ? 0 : b;
    switch (pred & 7) { case 1: return x == y; case 2: return x > y; case 3: return x >= y; case 4: return x < y; case 5: return x <= y; default: return x != y; }
  }
  uint32_t x = rv(sa, a), y = rv(sb, b);
  int p = pred & 7;
  if (p == 1 || p == 6) {
    uint32_t d = mkR(RSUB, x, y);
    std::shared_ptr<Rat> r = norm(d);
    bool eq;
    if (r->num.empty()) eq = true;
    else { Ival i = pival(r->num); if (i.lo <= 0 && i.hi >= 0) S->measureZero++; eq = false; }
    return p == 1 ? eq : !eq;
  }
  switch (p) {
    case 2: return decideLess(y, x);
    case 4: return decideLess(x, y);
    case 3: return !decideLess(x, y);
    default: return !decideLess(y, x);
  }
}
static int64_t floorDecide(uint32_t x) {
  std::shared_ptr<Rat> r = norm(x);
  double lo = -1e6, hi = 1e6;
  if (r->den.empty()) { Ival i = pival(r->num); lo = i.lo; hi = i.hi; }
  if (r->num.empty()) return 0;
  if (r->den.empty() && r->num.size() == 1 && r->num[0].first == 0) return (int64_t)std::floor(r->num[0].second.get_d());
  if (hi - lo > 1000) unsupported("conversion of a symbolic real with a large range to an integer");
  int64_t k = (int64_t)std::floor(lo);
  for (;; k++) { if (k + 1 > hi) return k; if (decideLess(x, rconst((double)(k + 1)))) return k; }
}
uint32_t __lfs_fun(uint32_t op, uint32_t s, double) {
  if (!s) return 0;
  if (!isReal(s)) { if (op == 9 || op == 2 || op == 1) unsupported("real operation on integer bits"); unsupported("real operation on integer"); }
  switch (op) {
    case 1: return N[s].op == RCONST ? rconst(std::sqrt(rcval(s))) : mk(RSQRT, 0, 0, s, 0, 0, 0);
    case 2: if (N[s].op == RCONST) return rconst(std::fabs(rcval(s))); { 
      // |sqrt(..)| and |-sqrt(..)| need no case split
      if (N[s].op == RSQRT) return s;
      if (N[s].op == RNEG && N[N[s].a].op == RSQRT) return N[s].a;
      return decideLess(s, rconst(0)) ? mkR(RNEG, s, 0) : s; }
    case 3: return rconst((double)floorDecide(s));
    case 4: return rconst((double)-floorDecide(mkR(RNEG, s, 0)));
    case 5: return rconst(decideLess(s, rconst(0)) ? (double)-floorDecide(mkR(RNEG, s, 0)) : (double)floorDecide(s));
    case 6: case 7: return rconst((double)floorDecide(mkR(RADD, s, rconst(0.5))));
    case 9: return mkR(RNEG, s, 0);
    case 10: case 11: case 12: case 13: {
      auto r = norm(s);  // a constant argument (possibly after cancellation) gives a constant
      if (r->den.empty() && (r->num.empty() || (r->num.size() == 1 && r->num[0].first == 0))) {
        double x = r->num.empty() ? 0.0 : r->num[0].second.get_d();
        return rconst(op == 10 ? std::sin(x) : op == 11 ? std::cos(x) : op == 12 ? std::exp(x) : std::log(x));
      }
      return mk(RUF, 0, op, s, 0, 0, 0);
    }
  }
  unsupported("real function");
}
uint32_t __lfs_fbin(uint32_t op, uint32_t sa, double a, uint32_t sb, double b) {
  if (!(sa | sb)) return 0;
  uint32_t x = rv(sa, a), y = rv(sb, b);
  switch (op) {
    case 0: return mkR(RADD, x, y);
    case 1: return mkR(RSUB, x, y);
    case 2: return mkR(RMUL, x, y);
    case 3: {
      if (N[y].op == RCONST && rcval(y) == 0) unsupported("division by zero");
      if (N[y].op != RCONST) S->divNonzero++;
      return mkR(RDIV, x, y);
    }
    case 10: return decideLess(y, x) ? y : x;
    case 11: return decideLess(x, y) ? y : x;
    case 12: {
      if (N[y].op == RCONST) {
        double e = rcval(y);
        if (e == std::floor(e) && std::fabs(e) <= 64) {
          uint32_t r = rconst(1);
          for (int i = 0; i < (int)std::fabs(e); i++) r = mkR(RMUL, x, r);
          return e < 0 ? mkR(RDIV, rconst(1), r) : r;
        }
        if (e == 0.5) return mk(RSQRT, 0, 0, x, 0, 0, 0);
      }
      unsupported("pow");
    }
    case 13: { bool neg = decideLess(y, rconst(0)); bool xn = decideLess(x, rconst(0)); return neg != xn ? mkR(RNEG, x, 0) : x; }
    case 14: return mk(RSQRT, 0, 0, mkR(RADD, mkR(RMUL, x, x), mkR(RMUL, y, y)), 0, 0, 0);
  }
  unsupported("real binary operation");
}
uint32_t __lfs_fpclass(uint32_t s, uint32_t mask, uint32_t conc) {
  if (!s) return conc;
  // a symbolic real is finite, never NaN
  if ((mask & ~0x207u) == 0) return 0;           // only nan / inf classes
  if ((mask & 0x1f8u) == 0x1f8u) return 1;       // all finite classes
  unsupported("floating point class test");
}
void __lfs_unsup(uint32_t s, const char* what) { if (s) unsupported(what); }
void __lfs_postcall(void* tgt, uint32_t any, uint32_t harmless, const char* name) {
  // an instrumented callee takes the mark away; code it calls back may do so too, but returns before the callee itself
  if (!any || (__lfs_target != tgt && __lfs_exited == tgt)) return;
  if (harmless) return;
  char b[512];
  snprintf(b, sizeof b, "symbolic value passed to uninstrumented function %s", *name ? name : "(called indirectly)");
  unsupported(b);
}
static std::vector<std::string>* covNames;
void __lfs_register(const char* name, uint32_t* id) {
  static std::unordered_map<std::string, uint32_t>* m = new std::unordered_map<std::string, uint32_t>();
  if (!covNames) covNames = new std::vector<std::string>(1);
  auto it = m->find(name);
  if (it == m->end()) { it = m->emplace(name, (uint32_t)covNames->size()).first; covNames->push_back(name); }
  *id = it->second < (1 << 17) ? it->second : 0;
}

// ------------------------------------------------------------------------------------------------ concrete replay
// With --replay FILE the same binary runs with concrete inputs: no value carries a shadow, every operation is the
// ordinary machine operation of the compiled code under test.
struct RIn { char kind; std::string name; double d; long long i; };
static std::vector<RIn> rIn;
static size_t rPos = 0;
static long rAsserts = 0;
[[noreturn]] static void verdict(const char* what, const char* m, int code) {
  std::string t = m;
  for (char& c : t) if (c == '\n') c = ' ';
  printf("REPLAY-%s %s\n", what, t.c_str());
  fflush(stdout);
  _exit(code);
}
static RIn& rNext(char kind, const char* name) {
  if (rPos >= rIn.size()) verdict("END", name, 4);
  RIn& x = rIn[rPos++];
  if (x.kind != kind) verdict("MISMATCH", name, 4);
  return x;
}
// ------------------------------------------------------------------------------------------------ harness API
static void consume() { __lfs_exited = __lfs_target; __lfs_target = nullptr; }
static void setRet(uint32_t id) { __lfs_ret[0] = id; }
double lfs_real(const char* name, double lo, double hi) {
  consume();
  setRet(0);
  if (lo >= hi) return lo;
  if (replayMode) return rNext('r', name).d;
  double mid = 0.5 * (lo + hi), rad = 0.5 * (hi - lo);
  int v = newVar(0, name, mid, rad, {-1, 1});
  S->symReals++;
  uint32_t n = mk(RVAR, 0, 0, 0, 0, 0, v);
  inputs.push_back({'r', v, name, n});
  setRet(n);
  return std::nan("");
}
static uint32_t newBV(char kind, const char* name, unsigned w) {
  zinit();
  BV.push_back({kind, name, w});
  uint32_t n = mk(BVAR, w, 0, 0, 0, 0, BV.size() - 1);
  inputs.push_back({kind, (int)BV.size() - 1, name, n});
  S->symInts++;
  return n;
}
int32_t lfs_int(const char* name, int32_t lo, int32_t hi) {
  consume();
  setRet(0);
  if (replayMode) return (int32_t)rNext('i', name).i;
  uint32_t n = newBV('i', name, 32);
  bvAssert(mkIcmp(7, 32, n, bconst(32, (uint32_t)lo)), true);
  bvAssert(mkIcmp(9, 32, n, bconst(32, (uint32_t)hi)), true);
  lastModel = nullptr;
  setRet(n);
  return lo;
}
int64_t lfs_int64(const char* name) { consume(); setRet(0); if (replayMode) return rNext('l', name).i; uint32_t n = newBV('l', name, 64); lastModel = nullptr; setRet(n); return 0; }
int32_t lfs_bool(const char* name) {
  consume();
  setRet(0);
  if (replayMode) return (int32_t)rNext('b', name).i;
  uint32_t n = newBV('b', name, 32);
  bvAssert(mkIcmp(5, 32, n, bconst(32, 1)), true);
  lastModel = nullptr;
  setRet(n);
  return 0;
}
int32_t lfs_choice(const char* name, int32_t k) {
  consume();
  setRet(0);
  if (replayMode) return (int32_t)rNext('c', name).i;
  if (k <= 0) { S->killed++; endProcess(); }
  uint32_t n = newBV('c', name, 32);
  bvAssert(mkIcmp(4, 32, n, bconst(32, k)), true);
  lastModel = nullptr;
  setRet(0);
  return (int32_t)concBV(n);
}
int32_t lfs_concrete(int32_t v) {
  consume();
  uint32_t s = __lfs_arg[0];
  setRet(0);
  return s ? (int32_t)concBV(s) : v;
}
void lfs_assume(int32_t cond) {
  consume();
  uint32_t s = __lfs_arg[0];
  if (replayMode) { if (!cond) verdict("ASSUME", "assumption not satisfied", 3); return; }
  if (!s) { if (!cond) { S->killed++; endProcess(); } return; }
  flushObligations();
  uint32_t b = mkIcmp(1, 32, s, bconst(32, 0));
  if (isC(b)) { if (!N[b].k) { S->killed++; endProcess(); } return; }
  z3::expr_vector a(*Z); a.push_back(zbool(b));
  z3::model* m = nullptr;
  int r = bvCheck(a, &m);
  if (r == 0) { S->killed++; endProcess(); }
  bvAssert(b, true);
  lastModel = m;
}
void lfs_assume_ge(double a, double b) {
  consume();
  uint32_t sa = __lfs_arg[0], sb = __lfs_arg[1];
  if (replayMode) { if (!(a >= b - 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) verdict("ASSUME", "assumption not satisfied", 3); return; }
  if (!(sa | sb)) { if (!(a >= b)) { S->killed++; endProcess(); } return; }
  flushObligations();
  uint32_t d = mkR(RSUB, rv(sa, a), rv(sb, b));
  std::shared_ptr<Rat> r = norm(d);
  if (r->num.empty()) return;
  int ds = denSign(r->den);
  Poly p = r->num;
  if (ds < 0) for (auto& t : p) t.second = -t.second;
  int m = possibleSigns(p, d);
  if (!(m & 2)) { S->killed++; endProcess(); }
  if (m == 2) return;
  addRC(d, 1, &p);
}
void lfs_assert(int32_t cond, const char* m) {
  consume();
  uint32_t s = __lfs_arg[0];
  if (replayMode) { rAsserts++; if (!cond) verdict("FAIL", m, 1); return; }
  S->assertsBV++;
  if (!s) { if (!cond) violation(m, nullptr, nullptr); return; }
  uint32_t b = mkIcmp(1, 32, s, bconst(32, 0));
  if (isC(b)) { if (!N[b].k) violation(m, nullptr, nullptr); return; }
  z3::expr_vector a(*Z); a.push_back(!zbool(b));
  z3::model* mod = nullptr;
  int r = bvCheck(a, &mod);
  if (r == 1) { BS->add(!zbool(b)); violation(m, mod, nullptr); }
  if (r < 0) { S->undecided++; msg("UNDECIDED (bit-vector): %s", m); }
}
void lfs_near(double a, double b, double tol, const char* m) {
  consume();
  if (replayMode) { rAsserts++; if (!(std::fabs(a - b) <= tol)) { printf("values %.17g %.17g tol %g\n", a, b, tol); verdict("FAIL", m, 1); } return; }
  uint32_t sa = __lfs_arg[0], sb = __lfs_arg[1];
  if (!(sa | sb)) { S->assertsReal++; if (!(std::fabs(a - b) <= tol)) violation(m, nullptr, nullptr); S->obConst++; return; }
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) violation(m, nullptr, nullptr);
  oblige(rv(sa, a), rv(sb, b), tol, 0, m);
}
void lfs_ge_tol(double a, double b, double tol, const char* m) {
  consume();
  if (replayMode) { rAsserts++; if (!(a >= b - tol)) { printf("values %.17g %.17g\n", a, b); verdict("FAIL", m, 1); } return; }
  uint32_t sa = __lfs_arg[0], sb = __lfs_arg[1];
  if (!(sa | sb)) { S->assertsReal++; if (!(a >= b - tol)) violation(m, nullptr, nullptr); S->obConst++; return; }
  if ((!sa && !std::isfinite(a)) || (!sb && !std::isfinite(b))) violation(m, nullptr, nullptr);
  oblige(rv(sa, a), rv(sb, b), tol, 1, m);
}
void lfs_ge(double a, double b, const char* m) {
  consume();
  if (replayMode) { rAsserts++; if (!(a >= b - 1e-13)) { printf("values %.17g %.17g\n", a, b); verdict("FAIL", m, 1); } return; }
  uint32_t sa = __lfs_arg[0], sb = __lfs_arg[1];
  if (!(sa | sb)) { S->assertsReal++; if (!(a >= b)) violation(m, nullptr, nullptr); S->obConst++; return; }
  oblige(rv(sa, a), rv(sb, b), 0, 1, m);
}
void lfs_fail(const char* m) { consume(); violation(m, nullptr, nullptr); }
void lfs_note(const char* key, long v) {
  consume();
  if (!G) return;
  int n = G->nnotes.load();
  for (int i = 0; i < n; i++) if (!strcmp(G->noteName[i], key)) { G->notes[i] += v; return; }
  if (n < 64) { strncpy(G->noteName[n], key, 63); G->notes[n] = v; G->nnotes = n + 1; }
}
int lfs_is_symbolic(void) { consume(); setRet(0); return !replayMode; }
int lfs_thorough(void) { consume(); setRet(0); return thorough; }
struct CaseReg { std::string name; void (*fn)(); int tier; };
static std::vector<CaseReg>* regs;
void lfs_register_case(const char* name, void (*fn)(), int tier) {
  consume();
  if (!regs) regs = new std::vector<CaseReg>();
  regs->push_back({name, fn, tier});
}
void lfs_assertion_failed(const char* expr, const char* file, long line, const char* m) {
  consume();
  char b[1500];
  snprintf(b, sizeof b, "assertion failed in the code under test: %.300s at %.200s:%ld %.300s", expr, file, line, m);
  for (char* c = b; *c; c++) if (*c == '\n') *c = ' ';
  violation(b, nullptr, nullptr);
}
}  // extern "C"

static void onSignal(int s) {
  if (getenv("LFS_ABORT")) { void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); }
  if (inRuntime) { signal(s, SIG_DFL); raise(s); return; }
  char b[128];
  snprintf(b, sizeof b, "crash: signal %d in the code under test", s);
  violation(b, nullptr, nullptr);
}
static void writeWitness() {
  long k = S->witnesses.fetch_add(1);
  if (k >= 3) { S->witnesses--; return; }
  std::vector<double> p;
  if (!realModel(p)) { S->witnesses--; return; }
  z3::model* bm = nullptr;
  if (Z) { z3::expr_vector a(*Z); if (bvCheck(a, &bm) != 1) { S->witnesses--; return; } }
  char path[1024];
  snprintf(path, sizeof path, "%s/wit_%s_%ld.txt", outDir.c_str(), curCase.c_str(), k);
  writeInputs(path, bm, p, "witness");
}
static void runCase(const CaseReg& c) {
  curCase = c.name;
  zinit();
  double t0 = now();
  try {
    c.fn();
  } catch (std::exception& e) {
    violation((std::string("exception escaped: ") + e.what()).c_str(), nullptr, nullptr);
  } catch (...) { violation("exception escaped", nullptr, nullptr); }
  flushObligations();
  S->paths++;
  writeWitness();
  (void)t0;
  endProcess();
}
int main(int argc, char** argv) {
  double t0 = now();
  std::string only, tier = "quick", json, replayFile;
  bool list = false;
  double budget = 600;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--case") only = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--out") outDir = argv[++i];
    else if (a == "--json") json = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--procs") NPROC = atoi(argv[++i]);
    else if (a == "--seed") seedBase = strtoul(argv[++i], nullptr, 10);
    else if (a == "--list") list = true;
    else if (a == "--replay") replayFile = argv[++i];
  }
  thorough = tier == "thorough";
  if (thorough) { nraRlimit *= 5; lraRlimit *= 5; }
  initTbl();
  mkdir(outDir.c_str(), 0755);
  G = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memcpy(G->cov, covInit, sizeof covInit);
  __lfs_cov = G->cov;
  deadline = now() + budget;
  rng.seed(seedBase * 104729 + 17);
  stack_t ss{};
  ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) { struct sigaction sa{}; sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
  if (!replayFile.empty()) {
    replayMode = true;
    S = &G->cs[0];
    FILE* f = fopen(replayFile.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", replayFile.c_str()); return 2; }
    char line[4096];
    std::string cs;
    while (fgets(line, sizeof line, f)) {
      char k[16], n[512], v[128];
      if (sscanf(line, "case %511s", n) == 1) { cs = n; continue; }
      if (sscanf(line, "thorough %127s", v) == 1) { thorough = atoi(v); continue; }
      if (sscanf(line, "in %15s %511s %127s", k, n, v) == 3) rIn.push_back({k[0], n, strtod(v, nullptr), strtoll(v, nullptr, 10)});
    }
    fclose(f);
    for (auto& c : *regs)
      if (c.name == cs) {
        try { c.fn(); } catch (std::exception& e) { verdict("FAIL", e.what(), 1); } catch (...) { verdict("FAIL", "exception escaped", 1); }
        printf("REPLAY-PASS asserts=%ld\n", rAsserts);
        fflush(stdout);
        _exit(0);
      }
    printf("REPLAY-NOCASE %s\n", cs.c_str());
    return 4;
  }
  std::vector<CaseReg> todo;
  for (auto& c : *regs) {
    if (list) { printf("%s %d\n", c.name.c_str(), c.tier); continue; }
    if (!only.empty() && c.name != only) continue;
    if (only.empty() && c.tier > (thorough ? 1 : 0)) continue;
    todo.push_back(c);
  }
  if (list) return 0;
  G->running = 0;
  for (size_t i = 0; i < todo.size(); i++) {
    while (G->running.load() >= NPROC) { usleep(2000); reap(false); }
    S = &G->cs[i];
    strncpy(S->name, todo[i].name.c_str(), 95);
    G->running++;
    pid_t p = fork();
    if (p == 0) { ownsToken = true; runCase(todo[i]); }
  }
  S = &G->cs[0];
  reap(true);
  // report
  FILE* f = json.empty() ? stdout : fopen(json.c_str(), "w");
  fprintf(f, "{\"wall_s\": %.3f, \"err\": %ld, \"violations\": %ld,\n \"cases\": [\n", now() - t0, G->err.load(), G->totalViol.load());
  for (size_t i = 0; i < todo.size(); i++) {
    CaseStat& c = G->cs[i];
#define FLD(x) #x, c.x.load()
    fprintf(f, "%s  {\"name\": \"%s\"", i ? ",\n" : "", c.name);
#define P1(x) fprintf(f, ", \"%s\": %ld", FLD(x))
    P1(paths); P1(killed); P1(forks); P1(branches); P1(concretised); P1(assertsBV); P1(assertsReal); P1(obIdentity); P1(obConst); P1(obLRA); P1(obNRA); P1(obInterval);
    P1(qBV); P1(qLRA); P1(qNRA); P1(tBV); P1(tLRA); P1(tNRA); P1(unknown); P1(unsup); P1(violations); P1(undecided); P1(incomplete); P1(measureZero);
    P1(divNonzero); P1(witnesses); P1(symReals); P1(symInts); P1(crashed); P1(maxDepth); P1(prune); P1(icp); P1(infeasChecks);
    fprintf(f, "}");
  }
  fprintf(f, "],\n \"notes\": {");
  for (int i = 0; i < G->nnotes.load(); i++) fprintf(f, "%s\"%s\": %ld", i ? ", " : "", G->noteName[i], G->notes[i].load());
  fprintf(f, "},\n \"functions\": [");
  bool first = true;
  if (covNames) for (size_t i = 1; i < covNames->size() && i < (1 << 17); i++) if (G->cov[i]) { fprintf(f, "%s\"%s\"", first ? "" : ",", (*covNames)[i].c_str()); first = false; }
  fprintf(f, "]}\n");
  if (f != stdout) fclose(f);
  return G->totalViol.load() ? 1 : G->err.load() ? 2 : 0;
}
