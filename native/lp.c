/* Bounded-variable simplex with Bland's rule over exact rationals, and branch
 * and bound on top: the decision procedure of the linear domain (lib/nsa/dom.py
 * has the same algorithm in Python, used when a number exceeds 127 bits). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef __int128 I;
typedef struct { I n, d; } Q;
static __thread int ovf;
static I gcd_(I a, I b) {
  if (a < 0) a = -a; if (b < 0) b = -b;
  while (b) {
    if (a <= UINT64_MAX && b <= UINT64_MAX) {
      uint64_t x = (uint64_t)a, y = (uint64_t)b;
      while (y) { uint64_t t = x % y; x = y; y = t; }
      return (I)x;
    }
    I t = a % b; a = b; b = t;
  }
  return a;
}
static I mul(I a, I b) { I r; if (__builtin_mul_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static I add(I a, I b) { I r; if (__builtin_add_overflow(a, b, &r)) { ovf = 1; return 0; } return r; }
static Q mk(I n, I d) {
  if (d == 1) { Q q = {n, 1}; return q; }
  if (d < 0) { n = -n; d = -d; }
  I g = gcd_(n, d);
  if (g > 1) { n /= g; d /= g; }
  Q q = {n, d ? d : 1}; return q;
}
static Q qadd(Q a, Q b) {
  if (a.d == 1 && b.d == 1) { Q q = {add(a.n, b.n), 1}; return q; }
  if (a.d == b.d) return mk(add(a.n, b.n), a.d);
  return mk(add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d));
}
static Q qmul(Q a, Q b) {
  if (a.d == 1 && b.d == 1) { Q q = {mul(a.n, b.n), 1}; return q; }
  I g1 = gcd_(a.n, b.d), g2 = gcd_(b.n, a.d);
  if (g1 > 1) { a.n /= g1; b.d /= g1; }
  if (g2 > 1) { b.n /= g2; a.d /= g2; }
  Q q = {mul(a.n, b.n), mul(a.d, b.d)}; return q;
}
static Q qneg(Q a) { a.n = -a.n; return a; }
static Q qinv(Q a) { return a.n < 0 ? (Q){-a.d, -a.n} : (Q){a.d, a.n}; }
static int qcmp(Q a, Q b) {
  if (a.d == b.d) return a.n < b.n ? -1 : a.n > b.n;
  I x = mul(a.n, b.d), y = mul(b.n, a.d);
  return x < y ? -1 : x > y;
}
typedef struct { int nv, nr; Q *T, *T0; int *row, *col; uint8_t *hl, *hh; I *lo, *hi; Q *val; } S;

/* 0 infeasible, 1 feasible, 2 iteration limit */
static int simplex(S *s, int limit) {
  int nv = s->nv, nr = s->nr;
  for (int v = 0; v < nv; v++)
    if (s->hl[v] && s->hh[v] && s->lo[v] > s->hi[v]) return 0;
  for (int v = 0; v < nv; v++) {
    I l = s->lo[v], h = s->hi[v], x;
    int hl = s->hl[v], hh = s->hh[v];
    if (hl && l <= 0 && (!hh || h >= 0)) x = 0;
    else x = hl ? l : (hh ? h : 0);
    s->val[v] = (Q){x, 1}; s->col[v] = v;
  }
  memcpy(s->T, s->T0, sizeof(Q) * (size_t)nv * nr);
  for (int r = 0; r < nr; r++) {
    s->row[r] = nv + r;
    Q x = {0, 1};
    for (int v = 0; v < nv; v++) if (s->T[r * nv + v].n) x = qadd(x, qmul(s->T[r * nv + v], s->val[v]));
    s->val[nv + r] = x;
  }
  for (int it = 1;; it++) {
    if (ovf) return 2;
    if (it > limit) return 2;
    int br = -1, k = 0;
    for (int r = 0; r < nr; r++) {
      int b = s->row[r], kk;
      if (s->hh[b] && qcmp(s->val[b], (Q){s->hi[b], 1}) > 0) kk = 1;
      else if (s->hl[b] && qcmp(s->val[b], (Q){s->lo[b], 1}) < 0) kk = -1;
      else continue;
      if (br < 0 || b < s->row[br]) { br = r; k = kk; }
    }
    if (br < 0) return 1;
    int b = s->row[br], bc = -1;
    Q *R = s->T + (size_t)br * nv;
    for (int c = 0; c < nv; c++) {
      if (!R[c].n) continue;
      int v = s->col[c], d = R[c].n > 0 ? -k : k, ok;
      if (d > 0) ok = !s->hh[v] || qcmp(s->val[v], (Q){s->hi[v], 1}) < 0;
      else ok = !s->hl[v] || qcmp(s->val[v], (Q){s->lo[v], 1}) > 0;
      if (ok && (bc < 0 || v < s->col[bc])) bc = c;
    }
    if (bc < 0) return 0;
    int v = s->col[bc];
    Q target = {k == 1 ? s->hi[b] : s->lo[b], 1};
    Q ci = qinv(R[bc]);
    Q theta = qmul(qadd(target, qneg(s->val[b])), ci);
    s->val[b] = target;
    s->val[v] = qadd(s->val[v], theta);
    for (int r = 0; r < nr; r++) {
      if (r == br) continue;
      Q c = s->T[(size_t)r * nv + bc];
      if (c.n) s->val[s->row[r]] = qadd(s->val[s->row[r]], qmul(c, theta));
    }
    for (int c = 0; c < nv; c++) if (c != bc && R[c].n) R[c] = qneg(qmul(R[c], ci));
    R[bc] = ci;
    for (int r = 0; r < nr; r++) {
      if (r == br) continue;
      Q *X = s->T + (size_t)r * nv;
      Q cv = X[bc];
      if (!cv.n) continue;
      X[bc] = (Q){0, 1};
      for (int c = 0; c < nv; c++) if (R[c].n) X[c] = qadd(X[c], qmul(cv, R[c]));
    }
    s->row[br] = v; s->col[bc] = b;
  }
}
typedef struct { uint8_t *hl, *hh; I *lo, *hi; } Bd;

/* 0 infeasible, 1 model, 2 unknown, 3 too large for 127 bits */
int lp_int(int nv, int nr, const I *coef, const I *ub, const uint8_t *hl, const uint8_t *hh, const I *lo, const I *hi, int nodes, int limit, I *model) {
  int n = nv + nr, ret = 0;
  ovf = 0;
  S s; s.nv = nv; s.nr = nr;
  s.T = malloc(sizeof(Q) * (size_t)(nv * nr + 1)); s.T0 = malloc(sizeof(Q) * (size_t)(nv * nr + 1));
  s.row = malloc(sizeof(int) * (nr + 1)); s.col = malloc(sizeof(int) * (nv + 1));
  s.hl = malloc(n + 1); s.hh = malloc(n + 1); s.lo = malloc(sizeof(I) * (n + 1)); s.hi = malloc(sizeof(I) * (n + 1));
  s.val = malloc(sizeof(Q) * (n + 1));
  for (int i = 0; i < nv * nr; i++) s.T0[i] = (Q){coef[i], 1};
  int cap = 2 * nodes + 8, top = 0;
  size_t bs = (size_t)nv * (2 * sizeof(I) + 2);
  char *stk = malloc(bs * cap + 64);
#define HL(i) ((uint8_t *)(stk + bs * (i) + 2 * sizeof(I) * nv))
#define HH(i) (HL(i) + nv)
#define LO(i) (stk + bs * (i))
#define HI(i) (LO(i) + sizeof(I) * nv)
  memcpy(LO(0), lo, sizeof(I) * nv); memcpy(HI(0), hi, sizeof(I) * nv); memcpy(HL(0), hl, nv); memcpy(HH(0), hh, nv);
  top = 1;
  while (top) {
    if (--nodes < 0) { ret = 2; break; }
    top--;
    memcpy(s.lo, LO(top), sizeof(I) * nv); memcpy(s.hi, HI(top), sizeof(I) * nv); memcpy(s.hl, HL(top), nv); memcpy(s.hh, HH(top), nv);
    for (int r = 0; r < nr; r++) { s.hl[nv + r] = 0; s.hh[nv + r] = 1; s.hi[nv + r] = ub[r]; s.lo[nv + r] = 0; }
    int q = simplex(&s, limit);
    if (ovf) { ret = 3; break; }
    if (q == 2) { ret = 2; break; }
    if (q == 0) continue;
    int fr = -1;
    for (int v = 0; v < nv; v++) if (s.val[v].d != 1) { fr = v; break; }
    if (fr < 0) { for (int v = 0; v < nv; v++) model[v] = s.val[v].n; ret = 1; break; }
    I f = s.val[fr].n / s.val[fr].d;
    if (s.val[fr].n < 0) f -= 1;
    /* upper half below, lower half on top */
    for (int j = 0; j < 2; j++) {
      memcpy(LO(top), s.lo, sizeof(I) * nv); memcpy(HI(top), s.hi, sizeof(I) * nv); memcpy(HL(top), s.hl, nv); memcpy(HH(top), s.hh, nv);
      I w = j ? f : f + 1;
      if (j) { HH(top)[fr] = 1; memcpy(HI(top) + sizeof(I) * fr, &w, sizeof w); }
      else { HL(top)[fr] = 1; memcpy(LO(top) + sizeof(I) * fr, &w, sizeof w); }
      top++;
    }
  }
  free(s.T); free(s.T0); free(s.row); free(s.col); free(s.hl); free(s.hh); free(s.lo); free(s.hi); free(s.val); free(stk);
  return ret;
}
