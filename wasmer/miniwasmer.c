/*
 * miniwasmer: a drop-in replacement for the prebuilt libwasmer that the repository
 * links against but that is absent from this sandbox.  It implements the part of
 * wasmer.h that /repo/wasmer uses, over a small WebAssembly interpreter (integer
 * MVP subset; the original rejects floating point as well), with the Elrond
 * extensions: per-basic-block metering, runtime breakpoints, an import cache,
 * (de)serialised "compiled" modules.
 *
 * On top of that it is the monitoring point of the framework:
 *   mw_set_hook     observer called before and after every host (import) call
 *   mw_set_puppet   contracts whose body is a host-language callback ("puppets")
 *   mw_live_*       live instance / memory accounting (leak monitor)
 * Guest memory sits between PROT_NONE guard pages and moves on every growth, the
 * old mapping being revoked, so any stale or out-of-range host access faults.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <pthread.h>
#include <sys/mman.h>

#define API __attribute__((visibility("default")))
#define PAGE 65536u
#define GUARD 65536u
#define MAX_PAGES 16384u
#define OPCODES 448
#define OP_LOCAL_ALLOCATE 447
#define BP_OUT_OF_GAS 4
#define MAX_LOCALS 4000 /* declared locals per function, as the shipped engine */
#define MAX_DEPTH 2000

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int32_t i32; typedef int64_t i64;

typedef struct { const u8 *bytes; u32 bytes_len; } bytearr;
typedef struct { u32 tag; union { i32 I32; i64 I64; double F; } v; } wvalue;
typedef struct { void *fn; u32 np; u8 p[16]; u32 nr; u8 r; char *name; } ifunc;
typedef struct { bytearr module_name, import_name; u32 tag; union { const ifunc *func; void *x; } value; } wimport;
typedef struct { u64 gas_limit, unmetered_locals; bool opcode_trace, metering, breakpoints; } options;

typedef struct { u32 np, nr; u8 p[32]; u8 r; } ftype;
typedef struct { u32 op; u32 a; u64 b; } ins;           /* decoded instruction */
typedef struct { u32 type; u32 nlocals; u32 body, blen; ins *code; u32 ncode; u32 *tables; u32 ntab, captab; u32 maxstack; u64 entry_cost;} func;
typedef struct { char *name; u32 kind, idx; } wexport;

typedef struct {
  u8 *bytes; u32 len;
  ftype *types; u32 ntypes;
  ifunc **imports; char **import_names; u32 nimports; u32 *import_types;
  func *funcs; u32 nfuncs;
  wexport *exports; u32 nexports;
  u32 mem_min, mem_max; bool has_mem, has_max;
  u32 tab_min; bool has_tab;
  u64 *globals; u8 *gmut; u32 nglobals;
  int start;
  bool puppet; char puppet_id[64];
} module;

typedef struct mem { u8 *base, *data; u32 pages, max; size_t maplen; } mem;
typedef struct inst {
  module *m; mem *mem; u64 *globals; u32 *table; u32 ntable;
  u64 used, limit, bp; bool metering, breakpoints; u64 unmetered_locals;
  void *ctxdata; u32 depth; u64 id; bool destroyed;
  struct stackchunk *chunks;
} inst;
typedef struct stackchunk { struct stackchunk *next; u64 data[]; } stackchunk;

typedef struct { wexport *e; inst *i; } xport;
typedef struct { xport *x; int n; } xports;

static u32 op_costs[OPCODES];
static wimport *cached_imports; static u32 ncached;
static char last_error[512]; /* not thread-local: a goroutine may move between the failing call and the query */
static u64 next_id = 1; static i64 live_instances, live_memories; static u64 total_instances, total_calls, total_import_calls;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

typedef void (*hook_fn)(int phase, inst *in, const char *name, i64 *args, u32 nargs, i64 ret);
typedef int (*puppet_fn)(inst *in, const char *id, const char *func);
static hook_fn hook; static puppet_fn puppet;

static int fail(const char *msg) { snprintf(last_error, sizeof last_error, "%s", msg); return 2; }

/* ---------------------------------------------------------------- memory */
static u8 *map_pages(u32 pages, u8 **base, size_t *len) {
  size_t n = (size_t)pages * PAGE; *len = n + 2 * GUARD;
  u8 *b = mmap(NULL, *len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED) return NULL;
  if (n && mprotect(b + GUARD, n, PROT_READ | PROT_WRITE)) { munmap(b, *len); return NULL; }
  *base = b; return b + GUARD;
}
static mem *mem_new(u32 min, u32 max) {
  mem *m = calloc(1, sizeof *m); m->data = map_pages(min, &m->base, &m->maplen);
  if (!m->data) { free(m); return NULL; }
  m->pages = min; m->max = max; __atomic_add_fetch(&live_memories, 1, __ATOMIC_RELAXED); return m;
}
static int mem_grow(mem *m, u32 delta) {
  if (delta == 0) return 0;
  if ((u64)m->pages + delta > m->max || (u64)m->pages + delta > MAX_PAGES) return -1;
  u8 *nb; size_t nl; u8 *nd = map_pages(m->pages + delta, &nb, &nl);
  if (!nd) return -1;
  memcpy(nd, m->data, (size_t)m->pages * PAGE);
  munmap(m->base, m->maplen);
  m->base = nb; m->data = nd; m->maplen = nl; m->pages += delta; return 0;
}
static void mem_free(mem *m) { munmap(m->base, m->maplen); free(m); __atomic_sub_fetch(&live_memories, 1, __ATOMIC_RELAXED); }

/* ---------------------------------------------------------------- parsing */
typedef struct { const u8 *p, *e; bool bad; } rd;
static u8 r8(rd *r) { if (r->p >= r->e) { r->bad = true; return 0; } return *r->p++; }
static u64 rleb(rd *r, int bits) { u64 v = 0; int s = 0; for (;;) { u8 b = r8(r); if (r->bad) return 0; if (s < 64) v |= (u64)(b & 0x7f) << s; s += 7; if (!(b & 0x80)) break; if (s >= ((bits + 6) / 7) * 7) { r->bad = true; return 0; } } return v; }
static u32 ru32(rd *r) { u64 v = rleb(r, 32); if (v > 0xffffffffull) r->bad = true; return (u32)v; }
static i64 rsleb(rd *r, int bits) { i64 v = 0; int s = 0; u8 b; do { b = r8(r); if (r->bad) return 0; if (s < 64) v |= (i64)(b & 0x7f) << s; s += 7; if ((b & 0x80) && s >= ((bits + 6) / 7) * 7) { r->bad = true; return 0; } } while (b & 0x80); if (s < 64 && (b & 0x40)) v |= -((i64)1 << s); return v; }
static char *rname(rd *r) { u32 n = ru32(r); if (r->bad || n > (size_t)(r->e - r->p)) { r->bad = true; return strdup(""); } char *s = malloc(n + 1); memcpy(s, r->p, n); s[n] = 0; r->p += n; if (strlen(s) != n) r->bad = true; return s; }
static void rbytes(rd *r, const u8 **p, u32 *n) { *n = ru32(r); if (r->bad || *n > (size_t)(r->e - r->p)) { r->bad = true; *n = 0; *p = r->p; return; } *p = r->p; r->p += *n; }

static void module_free(module *m) {
  if (!m) return;
  for (u32 i = 0; i < m->nfuncs; i++) { free(m->funcs[i].code); free(m->funcs[i].tables); }
  for (u32 i = 0; i < m->nexports; i++) free(m->exports[i].name);
  for (u32 i = 0; i < m->nimports; i++) free(m->import_names[i]);
  free(m->funcs); free(m->exports); free(m->imports); free(m->import_names); free(m->import_types);
  free(m->types); free(m->globals); free(m->gmut); free(m->bytes); free(m);
}

static ifunc *find_import(const char *mod, const char *name) {
  for (u32 i = 0; i < ncached; i++) {
    wimport *w = &cached_imports[i];
    if (w->import_name.bytes_len == strlen(name) && !memcmp(w->import_name.bytes, name, strlen(name)) &&
        w->module_name.bytes_len == strlen(mod) && !memcmp(w->module_name.bytes, mod, strlen(mod))) return (ifunc *)w->value.func;
  }
  return NULL;
}

/* cost index of a one-byte opcode in the order of wasmer/opcodes.go, or -1 if unsupported */
static int cost_index(u8 op) {
  switch (op) {
  case 0x00: return 0; case 0x01: return 1; case 0x02: return 2; case 0x03: return 3; case 0x04: return 4; case 0x05: return 5;
  case 0x0b: return 6; case 0x0c: return 7; case 0x0d: return 8; case 0x0e: return 9; case 0x0f: return 10; case 0x10: return 11; case 0x11: return 12;
  case 0x1a: return 13; case 0x1b: return 14; case 0x20: return 16; case 0x21: return 17; case 0x22: return 18; case 0x23: return 19; case 0x24: return 20;
  }
  if (op >= 0x28 && op <= 0x3e) return 21 + (op - 0x28);
  if (op == 0x3f) return 44; if (op == 0x40) return 45; if (op == 0x41) return 46; if (op == 0x42) return 47; if (op == 0x43) return 48; if (op == 0x44) return 49;
  if (op >= 0x45 && op <= 0xc4) return 53 + (op - 0x45);
  return -1;
}
static bool is_float_op(u8 op) {
  if (op == 0x2a || op == 0x2b || op == 0x38 || op == 0x39 || op == 0x43 || op == 0x44) return true;
  if (op >= 0x5b && op <= 0x66) return true;
  if (op >= 0x8b && op <= 0xa6) return true;
  if (op >= 0xa8 && op <= 0xab) return true;
  if (op >= 0xae && op <= 0xbf) return true;
  return false;
}

/* internal ops */
enum { I_JMP = 0x100, I_JZ, I_JNZ, I_BR, I_BRNZ, I_BRTAB, I_RET, I_CALL, I_CALLIMP, I_METER };

typedef struct { u8 kind; u32 height; u32 arity; u32 start; u32 *fix; u32 nfix, cfix; u32 elsefix; bool unreach; } ctl;
static void addfix(ctl *c, u32 at) { if (c->nfix == c->cfix) { c->cfix = c->cfix ? c->cfix * 2 : 4; c->fix = realloc(c->fix, c->cfix * sizeof(u32)); } c->fix[c->nfix++] = at; }

typedef struct { ins *v; u32 n, c; } ivec;
static u32 emit(ivec *x, u32 op, u32 a, u64 b) { if (x->n == x->c) { x->c = x->c ? x->c * 2 : 64; x->v = realloc(x->v, x->c * sizeof(ins)); } x->v[x->n].op = op; x->v[x->n].a = a; x->v[x->n].b = b; return x->n++; }

static int compile_func(module *m, func *f, const u8 *p, u32 len, const char **err) {
  rd r = { p, p + len, false }; ftype *t = &m->types[f->type];
  u32 ndecl = ru32(&r); u64 nl = t->np;
  for (u32 i = 0; i < ndecl && !r.bad; i++) { u32 c = ru32(&r); u8 ty = r8(&r); if (ty != 0x7f && ty != 0x7e) { *err = "unsupported local type"; return -1; } nl += c; if (nl - t->np > MAX_LOCALS) { *err = "too many locals"; return -1; } }
  if (r.bad) { *err = "bad locals"; return -1; }
  f->nlocals = (u32)nl;
  ivec x = { 0 }; ctl *cs = calloc(1, sizeof(ctl)); u32 ncs = 1, ccs = 1; int rc = -1;
  u32 *bts = NULL; u32 nbts = 0, cbts = 0;
  i64 h = 0, maxh = 0; bool dead = false; u64 blockcost = 0; int meter_at = -1; (void)meter_at;
  cs[0].kind = 0x02; cs[0].height = 0; cs[0].arity = t->nr;
#define FAIL(s) do { *err = (s); goto out; } while (0)
#define POP(n) do { if (!dead) { h -= (n); if (h < (i64)cs[ncs-1].height) FAIL("stack underflow"); } else { h -= (n); if (h < (i64)cs[ncs-1].height) h = cs[ncs-1].height; } } while (0)
#define PUSH(n) do { h += (n); if (h > maxh) maxh = h; } while (0)
#define FLUSH() do { emit(&x, I_METER, 0, blockcost); blockcost = 0; } while (0)
#define DEAD() do { dead = true; h = cs[ncs-1].height; } while (0)
  while (ncs) {
    u8 op = r8(&r); if (r.bad) FAIL("truncated body");
    if (op == 0xfc || op == 0xfd || op == 0xfe) FAIL("unsupported opcode prefix");
    int ci = cost_index(op); if (ci < 0) FAIL("unknown opcode"); if (is_float_op(op)) FAIL("floating point is not supported");
    blockcost += op_costs[ci];
    switch (op) {
    case 0x00: FLUSH(); emit(&x, 0x00, 0, 0); DEAD(); break;
    case 0x01: break;
    case 0x02: case 0x03: case 0x04: {
      u8 bt = r8(&r); if (bt != 0x40 && bt != 0x7f && bt != 0x7e) FAIL("bad block type");
      if (op == 0x04) POP(1);
      if (op != 0x02) FLUSH();
      if (ncs == ccs) { ccs *= 2; cs = realloc(cs, ccs * sizeof(ctl)); }
      ctl *c = &cs[ncs++]; memset(c, 0, sizeof *c); c->kind = op; c->height = (u32)h; c->arity = bt == 0x40 ? 0 : 1; c->start = x.n; c->unreach = dead;
      if (op == 0x04) { c->elsefix = emit(&x, I_JZ, 0, 0); }
      break; }
    case 0x05: {
      ctl *c = &cs[ncs - 1]; if (c->kind != 0x04) FAIL("else without if");
      if (!dead && h != (i64)c->height + c->arity) FAIL("bad stack at else");
      FLUSH(); addfix(c, emit(&x, I_JMP, 0, 0)); x.v[c->elsefix].a = x.n; c->kind = 0x05; h = c->height; dead = c->unreach; break; }
    case 0x0b: {
      ctl *c = &cs[ncs - 1]; if (!dead && h != (i64)c->height + c->arity) FAIL("bad stack at end");
      FLUSH();
      if (c->kind == 0x04) { if (c->arity) FAIL("if without else yields a value"); x.v[c->elsefix].a = x.n; }
      for (u32 i = 0; i < c->nfix; i++) { u32 at = c->fix[i]; if (at & 0x80000000u) bts[at & 0x7fffffffu] = x.n; else x.v[at].a = x.n; }
      h = (i64)c->height + c->arity; if (h > maxh) maxh = h; dead = c->unreach; free(c->fix); c->fix = NULL; ncs--;
      if (!ncs) emit(&x, I_RET, t->nr, 0);
      break; }
    case 0x0c: case 0x0d: {
      u32 d = ru32(&r); if (d >= ncs) FAIL("bad branch depth"); if (op == 0x0d) POP(1);
      ctl *c = &cs[ncs - 1 - d]; u32 ar = c->kind == 0x03 ? 0 : c->arity; if (!dead && h - (i64)cs[ncs-1].height < ar && h < (i64)ar) FAIL("branch underflow");
      FLUSH(); u32 at = emit(&x, op == 0x0c ? I_BR : I_BRNZ, 0, ((u64)c->height << 1) | ar);
      if (c->kind == 0x03) x.v[at].a = c->start; else addfix(c, at);
      if (op == 0x0c) DEAD(); break; }
    case 0x0e: {
      u32 n = ru32(&r); if (r.bad || n > 100000) FAIL("bad br_table"); POP(1); FLUSH();
      u32 base = nbts; u32 need = nbts + 2 * (n + 1); if (need > cbts) { cbts = need * 2; bts = realloc(bts, cbts * sizeof(u32)); }
      emit(&x, I_BRTAB, n, base);
      for (u32 i = 0; i <= n; i++) { u32 d = ru32(&r); if (r.bad || d >= ncs) FAIL("bad br_table target"); ctl *c = &cs[ncs - 1 - d]; u32 ar = c->kind == 0x03 ? 0 : c->arity;
        bts[nbts + 1] = (c->height << 1) | ar; if (c->kind == 0x03) bts[nbts] = c->start; else addfix(c, nbts | 0x80000000u); nbts += 2; }
      DEAD(); break; }
    case 0x0f: if (!dead && h < (i64)t->nr) FAIL("return underflow"); FLUSH(); emit(&x, I_RET, t->nr, 0); DEAD(); break;
    case 0x10: { u32 fi = ru32(&r); if (r.bad || fi >= m->nimports + m->nfuncs) FAIL("bad function index"); FLUSH();
      u32 ty = fi < m->nimports ? m->import_types[fi] : m->funcs[fi - m->nimports].type; POP(m->types[ty].np);
      emit(&x, fi < m->nimports ? I_CALLIMP : I_CALL, fi < m->nimports ? fi : fi - m->nimports, 0); PUSH(m->types[ty].nr); break; }
    case 0x11: { u32 ty = ru32(&r); u8 z = r8(&r); if (r.bad || z || ty >= m->ntypes || !m->has_tab) FAIL("bad call_indirect"); FLUSH(); POP(1); POP(m->types[ty].np); emit(&x, 0x11, ty, 0); PUSH(m->types[ty].nr); break; }
    case 0x1a: POP(1); emit(&x, op, 0, 0); break;
    case 0x1b: POP(3); emit(&x, op, 0, 0); PUSH(1); break;
    case 0x20: case 0x21: case 0x22: { u32 l = ru32(&r); if (r.bad || l >= f->nlocals) FAIL("bad local"); if (op == 0x21) POP(1); else if (op == 0x22) { POP(1); PUSH(1); } emit(&x, op, l, 0); if (op == 0x20) PUSH(1); break; }
    case 0x23: case 0x24: { u32 g = ru32(&r); if (r.bad || g >= m->nglobals || (op == 0x24 && !m->gmut[g])) FAIL("bad global"); if (op == 0x24) POP(1); emit(&x, op, g, 0); if (op == 0x23) PUSH(1); break; }
    case 0x3f: case 0x40: if (r8(&r) || !m->has_mem) FAIL("bad memory op"); if (op == 0x40) POP(1); emit(&x, op, 0, 0); PUSH(1); break;
    case 0x41: { i64 v = rsleb(&r, 32); emit(&x, op, 0, (u32)(i32)v); PUSH(1); break; }
    case 0x42: { i64 v = rsleb(&r, 64); emit(&x, op, 0, (u64)v); PUSH(1); break; }
    default:
      if (op >= 0x28 && op <= 0x3e) { (void)ru32(&r); u32 off = ru32(&r); if (r.bad || !m->has_mem) FAIL("bad memarg"); if (op <= 0x35) { POP(1); emit(&x, op, off, 0); PUSH(1); } else { POP(2); emit(&x, op, off, 0); } }
      else if (op == 0x45 || op == 0x50 || (op >= 0x67 && op <= 0x69) || (op >= 0x79 && op <= 0x7b) || op == 0xa7 || op == 0xac || op == 0xad || (op >= 0xc0 && op <= 0xc4)) { POP(1); emit(&x, op, 0, 0); PUSH(1); }
      else { POP(2); emit(&x, op, 0, 0); PUSH(1); }
    }
    if (r.bad) FAIL("truncated body");
  }
  if (r.p != r.e) FAIL("trailing bytes in body");
  f->code = x.v; f->ncode = x.n; f->tables = bts; f->ntab = nbts; f->maxstack = (u32)maxh + 8; x.v = NULL; bts = NULL; rc = 0;
out:
  free(x.v); free(bts); for (u32 i = 0; i < ncs; i++) free(cs[i].fix); free(cs); return rc;
}

typedef struct { u32 off; const u8 *p; u32 n; } seg;

static u64 const_expr(rd *r, module *m) {
  u8 op = r8(r); u64 v = 0;
  if (op == 0x41) v = (u32)rsleb(r, 32); else if (op == 0x42) v = (u64)rsleb(r, 64); else if (op == 0x23) { u32 g = ru32(r); if (g < m->nglobals) v = m->globals[g]; else r->bad = true; } else r->bad = true;
  if (r8(r) != 0x0b) r->bad = true; return v;
}

#define NEW(p, n, cap_) do { if ((n) > (cap_)) { (n) = 0; *err = "too many entries"; goto bad; } (p) = calloc((n) ? (n) : 1, sizeof *(p)); } while (0)

static inst *instantiate(const u8 *code, u32 len, options *o, const char **err) {
  module *m = calloc(1, sizeof *m); inst *in = NULL; seg *segs = NULL; u32 nsegs = 0; u32 *elems = NULL; u32 nelem_tot = 0, celem = 0;
  m->bytes = malloc(len); memcpy(m->bytes, code, len); m->len = len; m->start = -1;
  rd r = { m->bytes, m->bytes + len, false }; *err = "invalid module";
  if (len < 8 || memcmp(code, "\0asm\1\0\0\0", 8)) { *err = "bad magic"; goto bad; }
  r.p += 8; int last = 0; u32 ncode = 0;
  while (r.p < r.e) {
    u8 id = r8(&r); u32 n = ru32(&r); if (r.bad || n > (size_t)(r.e - r.p)) { *err = "bad section"; goto bad; }
    rd s = { r.p, r.p + n, false }; r.p += n;
    if (id != 0) { if (id <= last || id > 11) { *err = "section order"; goto bad; } last = id; }
    switch (id) {
    case 0: { char *nm = rname(&s); if (!s.bad && !strcmp(nm, "mw-puppet")) { u32 k = (u32)(s.e - s.p); if (k > 63) k = 63; memcpy(m->puppet_id, s.p, k); m->puppet_id[k] = 0; m->puppet = true; } free(nm); s.p = s.e; s.bad = false; break; }
    case 1: m->ntypes = ru32(&s); NEW(m->types, m->ntypes, 10000);
      for (u32 i = 0; i < m->ntypes && !s.bad; i++) { if (r8(&s) != 0x60) s.bad = true; ftype *t = &m->types[i]; t->np = ru32(&s); if (t->np > 32) { *err = "too many params"; goto bad; }
        for (u32 j = 0; j < t->np; j++) { u8 v = r8(&s); if (v != 0x7f && v != 0x7e) { *err = "unsupported type"; goto bad; } t->p[j] = v == 0x7f ? 0 : 1; }
        t->nr = ru32(&s); if (t->nr > 1) { *err = "multi-value"; goto bad; } if (t->nr) { u8 v = r8(&s); if (v != 0x7f && v != 0x7e) { *err = "unsupported type"; goto bad; } t->r = v == 0x7f ? 0 : 1; } }
      break;
    case 2: { m->nimports = ru32(&s); NEW(m->imports, m->nimports, 2000); m->import_names = calloc(m->nimports + 1, sizeof(char *)); m->import_types = calloc(m->nimports + 1, sizeof(u32)); u32 tot = m->nimports; m->nimports = 0;
      for (u32 i = 0; i < tot && !s.bad; i++) { char *mo = rname(&s), *nm = rname(&s); u8 k = r8(&s); if (k != 0 || s.bad) { free(mo); free(nm); *err = "unsupported import kind"; goto bad; }
        u32 ty = ru32(&s); m->import_names[i] = nm; m->nimports = i + 1; ifunc *f = find_import(mo, nm); bool ok = f && ty < m->ntypes && f->np == m->types[ty].np && f->nr == m->types[ty].nr && (!f->nr || f->r == m->types[ty].r) && !memcmp(f->p, m->types[ty].p, f->np);
        free(mo); if (!ok) { *err = "link error: unknown import or wrong import signature"; goto bad; } m->imports[i] = f; m->import_types[i] = ty; }
      break; }
    case 3: m->nfuncs = ru32(&s); if (m->nfuncs > 100000) { m->nfuncs = 0; goto bad; } { u32 nf = m->nfuncs; m->nfuncs = 0; m->funcs = calloc(nf + 1, sizeof(func)); m->nfuncs = nf; }
      for (u32 i = 0; i < m->nfuncs && !s.bad; i++) { m->funcs[i].type = ru32(&s); if (m->funcs[i].type >= m->ntypes) { *err = "bad type index"; goto bad; } } break;
    case 4: { u32 k = ru32(&s); if (k > 1) goto bad; if (k) { if (r8(&s) != 0x70) goto bad; u8 fl = r8(&s); m->tab_min = ru32(&s); if (fl) (void)ru32(&s); m->has_tab = true; if (m->tab_min > 100000) goto bad; } break; }
    case 5: { u32 k = ru32(&s); if (k > 1) goto bad; if (k) { u8 fl = r8(&s); m->mem_min = ru32(&s); m->mem_max = 65536; if (fl) { m->mem_max = ru32(&s); m->has_max = true; } m->has_mem = true; if (m->mem_min > MAX_PAGES || m->mem_min > m->mem_max) goto bad; } break; }
    case 6: { m->nglobals = ru32(&s); NEW(m->globals, m->nglobals, 100000); m->gmut = calloc(m->nglobals + 1, 1); u32 tot = m->nglobals; m->nglobals = 0;
      for (u32 i = 0; i < tot && !s.bad; i++) { u8 ty = r8(&s); if (ty != 0x7f && ty != 0x7e) { *err = "unsupported global type"; goto bad; } m->gmut[i] = r8(&s); m->globals[i] = const_expr(&s, m); m->nglobals = i + 1; } break; }
    case 7: { u32 k = ru32(&s); NEW(m->exports, k, 100000); for (u32 i = 0; i < k && !s.bad; i++) { m->exports[i].name = rname(&s); m->nexports = i + 1; m->exports[i].kind = r8(&s); m->exports[i].idx = ru32(&s); if (m->exports[i].kind > 3) goto bad; if (m->exports[i].kind == 0 && m->exports[i].idx >= m->nimports + m->nfuncs) { *err = "bad export"; goto bad; } if (m->exports[i].kind == 2 && (!m->has_mem || m->exports[i].idx)) { *err = "bad export"; goto bad; } } break; }
    case 8: m->start = (int)ru32(&s); break;
    case 9: { u32 k = ru32(&s); for (u32 i = 0; i < k && !s.bad; i++) { if (ru32(&s)) goto bad; u32 off = (u32)const_expr(&s, m); u32 c = ru32(&s); for (u32 j = 0; j < c && !s.bad; j++) { u32 fi = ru32(&s); if (fi >= m->nimports + m->nfuncs || !m->has_tab || (u64)off + j >= m->tab_min) { *err = "bad element"; goto bad; } if (nelem_tot + 2 > celem) { celem = celem ? celem * 2 : 64; elems = realloc(elems, celem * sizeof(u32)); } elems[nelem_tot++] = off + j; elems[nelem_tot++] = fi; } } break; }
    case 10: { ncode = ru32(&s); if (ncode != m->nfuncs) { *err = "function/code count mismatch"; goto bad; } for (u32 i = 0; i < ncode && !s.bad; i++) { const u8 *p; u32 l; rbytes(&s, &p, &l); if (s.bad) break; if (compile_func(m, &m->funcs[i], p, l, err)) goto bad; } break; }
    case 11: { nsegs = ru32(&s); if (nsegs > 100000) goto bad; segs = calloc(nsegs + 1, sizeof(seg)); for (u32 i = 0; i < nsegs && !s.bad; i++) { if (ru32(&s)) goto bad; segs[i].off = (u32)const_expr(&s, m); rbytes(&s, &segs[i].p, &segs[i].n); if (!m->has_mem || (u64)segs[i].off + segs[i].n > (u64)m->mem_min * PAGE) { *err = "data segment does not fit"; goto bad; } } break; }
    }
    if (s.bad || s.p != s.e) { if (!strcmp(*err, "")) *err = "bad section contents"; goto bad; }
  }
  if (r.bad || ncode != m->nfuncs) { *err = "missing code"; goto bad; }
  in = calloc(1, sizeof *in); in->m = m;
  if (m->has_mem) { in->mem = mem_new(m->mem_min, m->mem_max); if (!in->mem) { *err = "cannot allocate memory"; goto bad; } }
  in->globals = malloc((m->nglobals + 1) * sizeof(u64)); if (m->nglobals) memcpy(in->globals, m->globals, m->nglobals * sizeof(u64));
  in->table = malloc((m->tab_min + 1) * sizeof(u32)); in->ntable = m->tab_min; memset(in->table, 0xff, (m->tab_min + 1) * sizeof(u32));
  for (u32 i = 0; i + 1 < nelem_tot; i += 2) in->table[elems[i]] = elems[i + 1];
  for (u32 i = 0; i < nsegs; i++) memcpy(in->mem->data + segs[i].off, segs[i].p, segs[i].n);
  in->limit = o->gas_limit; in->metering = o->metering; in->breakpoints = o->breakpoints; in->unmetered_locals = o->unmetered_locals;
  in->id = __atomic_fetch_add(&next_id, 1, __ATOMIC_RELAXED);
  __atomic_add_fetch(&live_instances, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&total_instances, 1, __ATOMIC_RELAXED);
  free(segs); free(elems); return in;
bad:
  if (in) { free(in->globals); free(in->table); free(in); }
  free(segs); free(elems); module_free(m); return NULL;
}

/* ---------------------------------------------------------------- execution */
static i64 call_native(void *fn, void *ctx, u32 n, i64 *a) {
  switch (n) {
  case 0: return ((i64(*)(void *))fn)(ctx);
  case 1: return ((i64(*)(void *, i64))fn)(ctx, a[0]);
  case 2: return ((i64(*)(void *, i64, i64))fn)(ctx, a[0], a[1]);
  case 3: return ((i64(*)(void *, i64, i64, i64))fn)(ctx, a[0], a[1], a[2]);
  case 4: return ((i64(*)(void *, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3]);
  case 5: return ((i64(*)(void *, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4]);
  case 6: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5]);
  case 7: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
  case 8: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  case 9: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]);
  case 10: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
  case 11: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]);
  case 12: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
  default: return ((i64(*)(void *, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64))fn)(ctx, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], n > 13 ? a[13] : 0);
  }
}

static i64 do_import(inst *in, ifunc *f, i64 *args) {
  i64 a[16] = { 0 };
  for (u32 i = 0; i < f->np && i < 14; i++) a[i] = f->p[i] ? args[i] : (i64)(i32)args[i];
  __atomic_add_fetch(&total_import_calls, 1, __ATOMIC_RELAXED);
  if (hook) hook(0, in, f->name, a, f->np, 0);
  i64 ret = call_native(f->fn, in, f->np, a);
  if (f->nr && !f->r) ret = (i64)(u64)(u32)ret;
  if (hook) hook(1, in, f->name, a, f->np, ret);
  return ret;
}

#define TRAP(s) do { if (!in->bp) fail(s); return -1; } while (0)

static int run(inst *in, func *f, u64 *locals, u64 *result);

static int call_func(inst *in, u32 fi, u64 *args, u64 *result) {
  module *m = in->m;
  func *f = &m->funcs[fi]; ftype *t = &m->types[f->type];
  if (in->depth >= MAX_DEPTH) TRAP("call stack exhausted");
  size_t n = (size_t)f->nlocals + f->maxstack + 16;
  stackchunk *c = malloc(sizeof *c + n * sizeof(u64)); c->next = in->chunks; in->chunks = c;
  for (u32 i = 0; i < t->np; i++) c->data[i] = args[i];
  memset(c->data + t->np, 0, (f->nlocals - t->np) * sizeof(u64));
  u32 saved = in->depth; in->depth++;
  int rc = run(in, f, c->data, result);
  in->depth = saved;
  in->chunks = c->next; free(c);
  return rc;
}

static inline u32 rotl32(u32 x, u32 k) { k &= 31; return k ? (x << k) | (x >> (32 - k)) : x; }
static inline u64 rotl64(u64 x, u64 k) { k &= 63; return k ? (x << k) | (x >> (64 - k)) : x; }

static int run(inst *in, func *f, u64 *L, u64 *result) {
  module *m = in->m; u64 *S = L + f->nlocals, *sp = S; ins *code = f->code; u32 pc = 0;
  if (in->metering && f->nlocals > m->types[f->type].np) {
    u64 extra = f->nlocals - m->types[f->type].np; if (extra > in->unmetered_locals) { in->used += (extra - in->unmetered_locals) * (u64)op_costs[OP_LOCAL_ALLOCATE]; }
  }
#define ADDR(sz) u64 ea = (u64)(u32)sp[-1] + I->a; if (ea + (sz) > (u64)in->mem->pages * PAGE) TRAP("memory out of bounds"); u8 *P = in->mem->data + ea;
#define LD(ty, dst) { ADDR(sizeof(ty)) ty v; memcpy(&v, P, sizeof v); sp[-1] = (u64)(dst)v; break; }
#define ST(ty) { u64 val = *--sp; ADDR(sizeof(ty)) ty v = (ty)val; memcpy(P, &v, sizeof v); sp--; break; }
#define B32(e) { u32 b = (u32)sp[-1], a = (u32)sp[-2]; (void)a; (void)b; sp--; sp[-1] = (u64)(u32)(e); break; }
#define B64(e) { u64 b = sp[-1], a = sp[-2]; (void)a; (void)b; sp--; sp[-1] = (u64)(e); break; }
  for (;;) {
    ins *I = &code[pc++];
    switch (I->op) {
    case I_METER: if (in->metering) { in->used += I->b; if (in->used > in->limit) { in->bp = BP_OUT_OF_GAS; TRAP("out of gas"); } } break;
    case 0x00: TRAP("unreachable");
    case I_JMP: pc = I->a; break;
    case I_JZ: if (!(u32)*--sp) pc = I->a; break;
    case I_BRNZ: if (!(u32)*--sp) break; /* fallthrough */
    case I_BR: { u32 h = (u32)(I->b >> 1); if (I->b & 1) { u64 v = sp[-1]; sp = S + h; *sp++ = v; if (0) {} } else sp = S + h; pc = I->a; break; }
    case I_BRTAB: { u32 k = (u32)*--sp; if (k > I->a) k = I->a; u32 *T = f->tables + I->b + 2 * (u64)k; u32 h = T[1] >> 1; if (T[1] & 1) { u64 v = sp[-1]; sp = S + h; *sp++ = v; } else sp = S + h; pc = T[0]; break; }
    case I_RET: if (I->a) *result = sp[-1]; return 0;
    case I_CALL: { u32 np = m->types[m->funcs[I->a].type].np; sp -= np; u64 rv = 0; if (call_func(in, I->a, sp, &rv)) return -1; if (m->types[m->funcs[I->a].type].nr) *sp++ = rv; break; }
    case I_CALLIMP: { ifunc *g = m->imports[I->a]; sp -= g->np; i64 rv = do_import(in, g, (i64 *)sp); if (in->breakpoints && in->bp) TRAP("breakpoint"); if (g->nr) *sp++ = (u64)rv; break; }
    case 0x11: { u32 k = (u32)*--sp; if (k >= in->ntable || in->table[k] == 0xffffffffu) TRAP("undefined table element"); u32 fi = in->table[k]; ftype *want = &m->types[I->a];
      ftype *have = &m->types[fi < m->nimports ? m->import_types[fi] : m->funcs[fi - m->nimports].type];
      if (have->np != want->np || have->nr != want->nr || (have->nr && have->r != want->r) || memcmp(have->p, want->p, have->np)) TRAP("indirect call signature mismatch");
      sp -= want->np; u64 rv = 0;
      if (fi < m->nimports) { rv = (u64)do_import(in, m->imports[fi], (i64 *)sp); if (in->breakpoints && in->bp) TRAP("breakpoint"); } else if (call_func(in, fi - m->nimports, sp, &rv)) return -1;
      if (want->nr) *sp++ = rv; break; }
    case 0x1a: sp--; break;
    case 0x1b: { u32 c = (u32)*--sp; u64 b = *--sp; if (!c) sp[-1] = b; break; }
    case 0x20: *sp++ = L[I->a]; break;
    case 0x21: L[I->a] = *--sp; break;
    case 0x22: L[I->a] = sp[-1]; break;
    case 0x23: *sp++ = in->globals[I->a]; break;
    case 0x24: in->globals[I->a] = *--sp; break;
    case 0x28: LD(u32, u32) case 0x29: LD(u64, u64)
    case 0x2c: { ADDR(1) sp[-1] = (u64)(u32)(i32)(int8_t)*P; break; }
    case 0x2d: LD(u8, u32)
    case 0x2e: { ADDR(2) int16_t v; memcpy(&v, P, 2); sp[-1] = (u64)(u32)(i32)v; break; }
    case 0x2f: LD(uint16_t, u32)
    case 0x30: { ADDR(1) sp[-1] = (u64)(i64)(int8_t)*P; break; }
    case 0x31: LD(u8, u64)
    case 0x32: { ADDR(2) int16_t v; memcpy(&v, P, 2); sp[-1] = (u64)(i64)v; break; }
    case 0x33: LD(uint16_t, u64)
    case 0x34: { ADDR(4) i32 v; memcpy(&v, P, 4); sp[-1] = (u64)(i64)v; break; }
    case 0x35: LD(u32, u64)
    case 0x36: ST(u32) case 0x37: ST(u64) case 0x3a: ST(u8) case 0x3b: ST(uint16_t) case 0x3c: ST(u8) case 0x3d: ST(uint16_t) case 0x3e: ST(u32)
    case 0x3f: *sp++ = in->mem->pages; break;
    case 0x40: { u32 d = (u32)sp[-1]; u32 old = in->mem->pages; sp[-1] = mem_grow(in->mem, d) ? 0xffffffffu : old; break; }
    case 0x41: case 0x42: *sp++ = I->b; break;
    case 0x45: sp[-1] = !(u32)sp[-1]; break;
    case 0x46: B32(a == b) case 0x47: B32(a != b) case 0x48: B32((i32)a < (i32)b) case 0x49: B32(a < b) case 0x4a: B32((i32)a > (i32)b) case 0x4b: B32(a > b)
    case 0x4c: B32((i32)a <= (i32)b) case 0x4d: B32(a <= b) case 0x4e: B32((i32)a >= (i32)b) case 0x4f: B32(a >= b)
    case 0x50: sp[-1] = !sp[-1]; break;
    case 0x51: B64(a == b) case 0x52: B64(a != b) case 0x53: B64((i64)a < (i64)b) case 0x54: B64(a < b) case 0x55: B64((i64)a > (i64)b) case 0x56: B64(a > b)
    case 0x57: B64((i64)a <= (i64)b) case 0x58: B64(a <= b) case 0x59: B64((i64)a >= (i64)b) case 0x5a: B64(a >= b)
    case 0x67: sp[-1] = (u32)sp[-1] ? (u64)__builtin_clz((u32)sp[-1]) : 32; break;
    case 0x68: sp[-1] = (u32)sp[-1] ? (u64)__builtin_ctz((u32)sp[-1]) : 32; break;
    case 0x69: sp[-1] = (u64)__builtin_popcount((u32)sp[-1]); break;
    case 0x6a: B32(a + b) case 0x6b: B32(a - b) case 0x6c: B32(a * b)
    case 0x6d: { i32 b = (i32)sp[-1], a = (i32)sp[-2]; if (!b) TRAP("divide by zero"); if (a == INT32_MIN && b == -1) TRAP("integer overflow"); sp--; sp[-1] = (u64)(u32)(a / b); break; }
    case 0x6e: { u32 b = (u32)sp[-1], a = (u32)sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = a / b; break; }
    case 0x6f: { i32 b = (i32)sp[-1], a = (i32)sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = b == -1 ? 0 : (u64)(u32)(a % b); break; }
    case 0x70: { u32 b = (u32)sp[-1], a = (u32)sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = a % b; break; }
    case 0x71: B32(a & b) case 0x72: B32(a | b) case 0x73: B32(a ^ b) case 0x74: B32(a << (b & 31)) case 0x75: B32((i32)a >> (b & 31)) case 0x76: B32(a >> (b & 31)) case 0x77: B32(rotl32(a, b)) case 0x78: B32(rotl32(a, 32 - (b & 31)))
    case 0x79: sp[-1] = sp[-1] ? (u64)__builtin_clzll(sp[-1]) : 64; break;
    case 0x7a: sp[-1] = sp[-1] ? (u64)__builtin_ctzll(sp[-1]) : 64; break;
    case 0x7b: sp[-1] = (u64)__builtin_popcountll(sp[-1]); break;
    case 0x7c: B64(a + b) case 0x7d: B64(a - b) case 0x7e: B64(a * b)
    case 0x7f: { i64 b = (i64)sp[-1], a = (i64)sp[-2]; if (!b) TRAP("divide by zero"); if (a == INT64_MIN && b == -1) TRAP("integer overflow"); sp--; sp[-1] = (u64)(a / b); break; }
    case 0x80: { u64 b = sp[-1], a = sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = a / b; break; }
    case 0x81: { i64 b = (i64)sp[-1], a = (i64)sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = b == -1 ? 0 : (u64)(a % b); break; }
    case 0x82: { u64 b = sp[-1], a = sp[-2]; if (!b) TRAP("divide by zero"); sp--; sp[-1] = a % b; break; }
    case 0x83: B64(a & b) case 0x84: B64(a | b) case 0x85: B64(a ^ b) case 0x86: B64(a << (b & 63)) case 0x87: B64((i64)a >> (b & 63)) case 0x88: B64(a >> (b & 63)) case 0x89: B64(rotl64(a, b)) case 0x8a: B64(rotl64(a, 64 - (b & 63)))
    case 0xa7: sp[-1] = (u32)sp[-1]; break;
    case 0xac: sp[-1] = (u64)(i64)(i32)sp[-1]; break;
    case 0xad: sp[-1] = (u32)sp[-1]; break;
    case 0xc0: sp[-1] = (u64)(u32)(i32)(int8_t)sp[-1]; break;
    case 0xc1: sp[-1] = (u64)(u32)(i32)(int16_t)sp[-1]; break;
    case 0xc2: sp[-1] = (u64)(i64)(int8_t)sp[-1]; break;
    case 0xc3: sp[-1] = (u64)(i64)(int16_t)sp[-1]; break;
    case 0xc4: sp[-1] = (u64)(i64)(i32)sp[-1]; break;
    default: TRAP("unknown internal opcode");
    }
  }
}

/* ---------------------------------------------------------------- wasmer.h API */
API void wasmer_set_opcode_costs(const u32 *costs) { pthread_mutex_lock(&mu); memcpy(op_costs, costs, sizeof op_costs); pthread_mutex_unlock(&mu); }

API ifunc *wasmer_import_func_new(void (*fn)(void *), const u32 *params, unsigned np, const u32 *returns, unsigned nr) {
  ifunc *f = calloc(1, sizeof *f); f->fn = (void *)fn; f->np = np; for (unsigned i = 0; i < np && i < 16; i++) f->p[i] = (u8)params[i]; f->nr = nr; if (nr) f->r = (u8)returns[0]; return f;
}
API void wasmer_import_func_destroy(ifunc *f) { (void)f; }
API int wasmer_import_object_cache_from_imports(wimport *imports, unsigned n) {
  pthread_mutex_lock(&mu);
  wimport *c = calloc(n + 1, sizeof *c); memcpy(c, imports, n * sizeof *c);
  for (unsigned i = 0; i < n; i++) { ifunc *f = (ifunc *)c[i].value.func; f->name = strndup((const char *)c[i].import_name.bytes, c[i].import_name.bytes_len); }
  cached_imports = c; ncached = n; /* the previous table is kept: running instances point into it */
  pthread_mutex_unlock(&mu); return 1;
}
static int make(inst **out, const u8 *b, u32 n, options *o) { const char *err = "invalid module"; inst *i = instantiate(b, n, o, &err); if (!i) return fail(err); *out = i; return 1; }
API int wasmer_instantiate_with_options(inst **out, u8 *b, u32 n, const void *o) { return make(out, b, n, (options *)o); }
API int wasmer_instance_from_cache(inst **out, u8 *b, u32 n, const void *o) {
  if (n < 8 || memcmp(b, "MWCACHE1", 8)) return fail("invalid cached module"); return make(out, b + 8, n - 8, (options *)o);
}
API int wasmer_instance_cache(inst *in, const u8 **out, u32 *n) { u8 *p = malloc(in->m->len + 8); memcpy(p, "MWCACHE1", 8); memcpy(p + 8, in->m->bytes, in->m->len); *out = p; *n = in->m->len + 8; return 1; }
API void wasmer_instance_destroy(inst *in) {
  if (!in) return;
  if (in->destroyed) { fprintf(stderr, "MINIWASMER: double destroy of an instance\n"); abort(); }
  for (stackchunk *c = in->chunks; c;) { stackchunk *n = c->next; free(c); c = n; }
  in->chunks = NULL; free(in->globals); free(in->table); module_free(in->m); in->m = NULL; in->mem = NULL; in->destroyed = true; /* the header is kept (quarantine) so that use after destroy is detected */
  __atomic_sub_fetch(&live_instances, 1, __ATOMIC_RELAXED);
}
#define CHECK(in) do { if ((in)->destroyed) { fprintf(stderr, "MINIWASMER: use of a destroyed instance\n"); abort(); } } while (0)
API u64 wasmer_instance_get_points_used(inst *in) { if (!in) return 0; CHECK(in); return in->used; }
API void wasmer_instance_set_points_used(inst *in, u64 v) { if (!in) return; CHECK(in); in->used = v; }
API void wasmer_instance_set_points_limit(inst *in, u64 v) { if (!in) return; CHECK(in); in->limit = v; }
API u64 wasmer_instance_get_runtime_breakpoint_value(inst *in) { if (!in) return 0; CHECK(in); return in->bp; }
API void wasmer_instance_set_runtime_breakpoint_value(inst *in, u64 v) { if (!in) return; CHECK(in); in->bp = v; }
API bool wasmer_instance_is_function_imported(inst *in, const char *name) { CHECK(in); for (u32 i = 0; i < in->m->nimports; i++) if (!strcmp(in->m->import_names[i], name)) return true; return false; }
API inst *wasmer_instance_context_get(inst *in) { return in; }
API void *wasmer_instance_context_data_get(inst *in) { CHECK(in); return in->ctxdata; }
API void wasmer_instance_context_data_set(inst *in, void *p) { CHECK(in); in->ctxdata = p; }
API mem *wasmer_instance_context_memory(inst *in, u32 idx) { (void)idx; CHECK(in); return in->mem; }
API int wasmer_instance_call(inst *in, const char *name, const wvalue *params, u32 np, wvalue *results, u32 nr) {
  CHECK(in); __atomic_add_fetch(&total_calls, 1, __ATOMIC_RELAXED);
  for (u32 i = 0; i < in->m->nexports; i++) {
    wexport *e = &in->m->exports[i]; if (e->kind != 0 || strcmp(e->name, name)) continue;
    if (in->m->puppet && puppet) { int rc = puppet(in, in->m->puppet_id, name); if (rc) return fail("puppet trap"); return 1; }
    u32 ty = e->idx < in->m->nimports ? in->m->import_types[e->idx] : in->m->funcs[e->idx - in->m->nimports].type; ftype *t = &in->m->types[ty];
    if (np != t->np) return fail("wrong number of arguments");
    u64 args[32], rv = 0; for (u32 k = 0; k < np; k++) args[k] = t->p[k] ? (u64)params[k].v.I64 : (u64)(u32)params[k].v.I32;
    if (e->idx < in->m->nimports) { rv = (u64)do_import(in, in->m->imports[e->idx], (i64 *)args); if (in->bp) return fail("breakpoint"); }
    else { if (call_func(in, e->idx - in->m->nimports, args, &rv)) return 2; }
    if (t->nr && nr) { results[0].tag = t->r; if (t->r) results[0].v.I64 = (i64)rv; else results[0].v.I32 = (i32)rv; }
    return 1;
  }
  return fail("function not exported");
}
API void wasmer_instance_exports(inst *in, xports **out) { xports *x = calloc(1, sizeof *x); x->n = (int)in->m->nexports; x->x = calloc(x->n + 1, sizeof(xport)); for (int i = 0; i < x->n; i++) { x->x[i].e = &in->m->exports[i]; x->x[i].i = in; } *out = x; }
API void wasmer_exports_destroy(xports *x) { if (x) { free(x->x); free(x); } }
API xport *wasmer_exports_get(xports *x, int i) { return &x->x[i]; }
API int wasmer_exports_len(xports *x) { return x->n; }
API u32 wasmer_export_kind(xport *x) { return x->e->kind == 0 ? 0 : x->e->kind == 1 ? 3 : x->e->kind == 2 ? 2 : 1; }
API bytearr wasmer_export_name(xport *x) { bytearr b = { (const u8 *)x->e->name, (u32)strlen(x->e->name) }; return b; }
API const xport *wasmer_export_to_func(const xport *x) { return x; }
API int wasmer_export_to_memory(const xport *x, mem **out) { *out = x->i->mem; return *out ? 1 : fail("no memory"); }
static ftype *xtype(const xport *x) { module *m = x->i->m; u32 k = x->e->idx; return &m->types[k < m->nimports ? m->import_types[k] : m->funcs[k - m->nimports].type]; }
API int wasmer_export_func_params_arity(const xport *x, u32 *r) { *r = xtype(x)->np; return 1; }
API int wasmer_export_func_returns_arity(const xport *x, u32 *r) { *r = xtype(x)->nr; return 1; }
API int wasmer_export_func_params(const xport *x, u32 *p, u32 n) { ftype *t = xtype(x); for (u32 i = 0; i < n && i < t->np; i++) p[i] = t->p[i]; return 1; }
API u8 *wasmer_memory_data(const mem *m) { return m->data; }
API u32 wasmer_memory_data_length(const mem *m) { return m->pages * PAGE; }
API int wasmer_memory_grow(mem *m, u32 delta) { return mem_grow(m, delta) ? fail("memory cannot grow") : 1; }
API void wasmer_memory_destroy(mem *m) { if (m) mem_free(m); }
API int wasmer_last_error_length(void) { return last_error[0] ? (int)strlen(last_error) + 1 : 0; }
API int wasmer_last_error_message(char *b, int n) { if (!last_error[0] || n < (int)strlen(last_error) + 1) return -1; int k = (int)strlen(last_error) + 1; memcpy(b, last_error, k); last_error[0] = 0; return k; }

/* ---------------------------------------------------------------- monitoring API */
API void mw_set_hook(hook_fn h) { hook = h; }
API void mw_set_puppet(puppet_fn p) { puppet = p; }
API i64 mw_live_instances(void) { return __atomic_load_n(&live_instances, __ATOMIC_RELAXED); }
API i64 mw_live_memories(void) { return __atomic_load_n(&live_memories, __ATOMIC_RELAXED); }
API u64 mw_total_instances(void) { return total_instances; }
API u64 mw_total_calls(void) { return total_calls; }
API u64 mw_total_import_calls(void) { return total_import_calls; }
API u64 mw_inst_id(inst *in) { return in->id; }
API u64 mw_points_used(inst *in) { return in->used; }
API u64 mw_points_limit(inst *in) { return in->limit; }
API u8 *mw_mem(inst *in, u32 *len) { if (!in->mem) { *len = 0; return NULL; } *len = in->mem->pages * PAGE; return in->mem->data; }
API int mw_mem_grow(inst *in, u32 pages) { return in->mem ? mem_grow(in->mem, pages) : -1; }
API u32 mw_opcode_cost(u32 i) { return i < OPCODES ? op_costs[i] : 0; }
/* a puppet executes one basic block of the given cost: same metering rule as the interpreter; nonzero = out of gas */
API int mw_burn(inst *in, u64 cost) { if (!in->metering) return 0; in->used += cost; if (in->used > in->limit) { in->bp = BP_OUT_OF_GAS; return 1; } return 0; }
/* a puppet calls an import; *ret receives the result; 1 = trapped (breakpoint), 2 = no such import */
API int mw_import(inst *in, const char *name, i64 *args, u32 nargs, i64 *ret) {
  ifunc *f = NULL; for (u32 i = 0; i < ncached; i++) { ifunc *g = (ifunc *)cached_imports[i].value.func; if (!strcmp(g->name, name)) { f = g; break; } }
  if (!f || f->np != nargs) return 2;
  *ret = do_import(in, f, args);
  return in->breakpoints && in->bp ? 1 : 0;
}
API int mw_import_sig(u32 i, char *name, u32 cap, u32 *np, u32 *pmask, int *ret) {
  if (i >= ncached) return 0; ifunc *g = (ifunc *)cached_imports[i].value.func; snprintf(name, cap, "%s", g->name); *np = g->np; u32 mk = 0; for (u32 k = 0; k < g->np; k++) if (g->p[k]) mk |= 1u << k; *pmask = mk; *ret = g->nr ? (g->r ? 2 : 1) : 0; return 1;
}
