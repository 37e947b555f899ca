// Independent step-by-step Turing machine executor (the oracle).
// Table: tab[3*(state*nk+sym)+{0,1,2}] = write, dir(0 L,1 R), next;  next<0 or
// next>=ns means halt; write==-1 means undefined (acts as: write 1, R, halt).
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
  int ns, nk;
  int32_t *tab;
  uint8_t *tape;      // tape[i] holds cell (i + lo)
  int64_t lo, len;    // allocated window [lo, lo+len)
  int64_t pos, steps, minpos, maxpos; // minpos/maxpos: cells ever visited
  int state, halted, undefined;
  int from_state, from_symbol;
  int64_t *last_seen; // steps at which each state last executed a transition
  int64_t max_len;
  int overflow;
} Ref;

Ref *ref_new(int ns, int nk, const int32_t *tab, int64_t max_len) {
  Ref *r = calloc(1, sizeof(Ref));
  r->ns = ns; r->nk = nk;
  r->tab = malloc(sizeof(int32_t) * 3 * ns * nk);
  memcpy(r->tab, tab, sizeof(int32_t) * 3 * ns * nk);
  r->len = 256; r->lo = -128;
  r->tape = calloc(r->len, 1);
  r->last_seen = malloc(sizeof(int64_t) * ns);
  for (int i = 0; i < ns; i++) r->last_seen[i] = -1;
  r->max_len = max_len; r->from_state = -1; r->from_symbol = -1;
  return r;
}
void ref_free(Ref *r) { free(r->tab); free(r->tape); free(r->last_seen); free(r); }

// Set an explicit finite tape segment (rest blank) with head position & state.
void ref_set(Ref *r, const uint8_t *seg, int64_t seglen, int64_t seglo, int64_t pos, int state) {
  free(r->tape);
  int64_t a = seglo < pos ? seglo : pos, b = seglo + seglen > pos + 1 ? seglo + seglen : pos + 1;
  r->lo = a - 64; r->len = (b - a) + 128;
  r->tape = calloc(r->len, 1);
  memcpy(r->tape + (seglo - r->lo), seg, seglen);
  r->pos = pos; r->state = state; r->steps = 0; r->minpos = r->maxpos = pos;
  r->halted = (state < 0 || state >= r->ns); r->undefined = 0; r->overflow = 0;
  for (int i = 0; i < r->ns; i++) r->last_seen[i] = -1;
}
static int grow(Ref *r) {
  int64_t nlen = r->len * 2;
  if (nlen > r->max_len) { r->overflow = 1; return 0; }
  uint8_t *t = calloc(nlen, 1);
  int64_t shift = r->len / 2;
  memcpy(t + shift, r->tape, r->len);
  free(r->tape); r->tape = t; r->lo -= shift; r->len = nlen;
  return 1;
}
// Run until total steps == target, or halt, or tape overflow.
// If stop_lo<=stop_hi, also stop when pos<stop_lo or pos>stop_hi (before stepping).
void ref_run(Ref *r, int64_t target, int64_t stop_lo, int64_t stop_hi) {
  int ns = r->ns, nk = r->nk, lim = stop_lo <= stop_hi;
  while (!r->halted && r->steps < target) {
    if (lim && (r->pos < stop_lo || r->pos > stop_hi)) return;
    int64_t i = r->pos - r->lo;
    if (i < 0 || i >= r->len) { if (!grow(r)) return; continue; }
    int s = r->tape[i];
    int32_t *t = r->tab + 3 * (r->state * nk + s);
    r->last_seen[r->state] = r->steps;
    int w = t[0], d = t[1], n = t[2];
    if (w == -1) { r->undefined = 1; w = 1; d = 1; n = -1; }
    if (n < 0 || n >= ns) { r->halted = 1; r->from_state = r->state; r->from_symbol = s; }
    r->tape[i] = (uint8_t)w;
    r->pos += d ? 1 : -1;
    if (r->pos < r->minpos) r->minpos = r->pos;
    if (r->pos > r->maxpos) r->maxpos = r->pos;
    r->state = n;
    r->steps++;
  }
}
// Run until the configuration equals: cells [pos-nl, pos-nl+seglen) == seg, all else
// blank, state == st (checked before each step, and at the end).  Returns 1 if found.
int ref_match(Ref *r, const uint8_t *seg, int64_t seglen, int64_t nl, int st, int64_t max_more) {
  int64_t segnz = 0, nz = 0, end = r->steps + max_more;
  for (int64_t i = 0; i < seglen; i++) segnz += seg[i] != 0;
  for (int64_t i = 0; i < r->len; i++) nz += r->tape[i] != 0;
  for (;;) {
    if (nz == segnz && r->state == st) {
      int ok = 1; int64_t a = r->pos - nl - r->lo;
      for (int64_t k = 0; k < seglen && ok; k++) {
        int64_t i = a + k; int c = (i < 0 || i >= r->len) ? 0 : r->tape[i];
        ok = c == seg[k];
      }
      if (ok) return 1;
    }
    if (r->halted || r->steps >= end || r->overflow) return 0;
    int64_t p = r->pos, i = p - r->lo; int before = (i < 0 || i >= r->len) ? 0 : r->tape[i] != 0;
    extern void ref_run(Ref *, int64_t, int64_t, int64_t);
    ref_run(r, r->steps + 1, 1, 0);
    i = p - r->lo; int after = (i < 0 || i >= r->len) ? 0 : r->tape[i] != 0;
    nz += after - before;
  }
}
int64_t ref_nonzeros(Ref *r) { int64_t c = 0; for (int64_t i = 0; i < r->len; i++) c += r->tape[i] != 0; return c; }
int ref_get(Ref *r, int64_t cell) { int64_t i = cell - r->lo; return (i < 0 || i >= r->len) ? 0 : r->tape[i]; }
void ref_copy(Ref *r, int64_t lo, int64_t len, uint8_t *out) { for (int64_t k = 0; k < len; k++) out[k] = (uint8_t)ref_get(r, lo + k); }
int64_t ref_pos(Ref *r) { return r->pos; }
int64_t ref_steps(Ref *r) { return r->steps; }
int ref_state(Ref *r) { return r->state; }
int ref_halted(Ref *r) { return r->halted; }
int ref_undefined(Ref *r) { return r->undefined; }
int ref_overflow(Ref *r) { return r->overflow; }
int ref_from_state(Ref *r) { return r->from_state; }
int ref_from_symbol(Ref *r) { return r->from_symbol; }
int64_t ref_minpos(Ref *r) { return r->minpos; }
int64_t ref_maxpos(Ref *r) { return r->maxpos; }
int64_t ref_lo(Ref *r) { return r->lo; }
int64_t ref_len(Ref *r) { return r->len; }
int64_t ref_last_seen(Ref *r, int s) { return r->last_seen[s]; }
// Record state*nk+symbol before each of the next n steps; returns the number of steps taken.
int64_t ref_trace(Ref *r, int64_t n, uint8_t *out) {
  int64_t k = 0;
  while (k < n && !r->halted && !r->overflow) {
    out[k++] = (uint8_t)(r->state * r->nk + ref_get(r, r->pos));
    ref_run(r, r->steps + 1, 1, 0);
  }
  return k;
}
