/* Bounded exhaustive explorer for libdvbcsa: common part.
 *
 * One process explores one library build (a shared object loaded with dlopen,
 * driven through the public API only) in one mode.  A mode enumerates numbered
 * cases; --shard i/n takes every n-th case, --only k replays a single one.
 * The first case that fails is printed as "FAIL <case> <text>".
 */
#ifndef MC_H
#define MC_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <stdarg.h>
#include <dvbcsa/dvbcsa.h>
#include "ref.h"

/* The explorer reports on a stream of its own; what the library writes to the
 * standard output goes nowhere. */
extern FILE *report;
void report_init(void);
void mute_stderr(void);
#define printf(...) fprintf(report, __VA_ARGS__)
#define vprintf(f, a) vfprintf(report, f, a)

typedef struct dvbcsa_key_s skey;
typedef struct dvbcsa_bs_key_s bkey;
typedef struct dvbcsa_bs_batch_s batch_t;
/* the terminating entry of a batch: its length means nothing */
#define TERMLEN ((const unsigned[4]){ 0xdeadbeef, 0, 184, 5 }[case_idx & 3])
#define MAXLEN DVBCSA_BS_MAX_PACKET_LEN

typedef struct {
  skey *(*key_alloc)(void);
  void (*key_free)(skey *);
  void (*key_set)(const unsigned char *, skey *);
  void (*decrypt)(const skey *, unsigned char *, unsigned);
  void (*encrypt)(const skey *, unsigned char *, unsigned);
  bkey *(*bs_key_alloc)(void);
  void (*bs_key_free)(bkey *);
  void (*bs_key_set)(const unsigned char *, bkey *);
  unsigned (*bs_batch_size)(void);
  void (*bs_decrypt)(const bkey *, const batch_t *, unsigned);
  void (*bs_encrypt)(const bkey *, const batch_t *, unsigned);
  void *handle;
} lib_t;
extern lib_t lib;
extern unsigned B;              /* batch size of the loaded build (at load time) */

enum { ENC, DEC };
static inline const char *dirname_(int d) { return d == ENC ? "encrypt" : "decrypt"; }

/* ---- calls into the library, with faults caught ------------------------ */
#define REFUSED 1000            /* assert()/abort() inside the call */
extern __thread int in_lib;
extern __thread sigjmp_buf lib_jb;
extern __thread void *fault_addr;
const char *outcome_name(int r);

#define STUCK 1001              /* given up: the call took too many steps */
extern int mc_wall_off;
extern void (*mon_begin)(void), (*mon_end)(int r);      /* around every call, if set */
#define LIBCALL_(stmt) __extension__ ({ int r_;                               \
    if (mon_begin) mon_begin();                                               \
    r_ = sigsetjmp(lib_jb, 0);                                                \
    if (r_ == 0) { in_lib = 1; stmt; } in_lib = 0;                            \
    if (mon_end) mon_end(r_); r_; })
/* the plain calls: 0, a signal number, or REFUSED */
int l_key_set(const unsigned char *cw, skey *k);
int l_bs_key_set(const unsigned char *cw, bkey *k);
int l_crypt(int dir, const skey *k, unsigned char *d, unsigned len);
int l_bs_crypt(int dir, const bkey *k, const batch_t *b, unsigned maxlen);
int l_key_alloc(skey **k);
int l_bs_key_alloc(bkey **k);
int l_key_free(skey *k);
int l_bs_key_free(bkey *k);
/* calls that must work: fail the case otherwise */
void m_key_set(const unsigned char *cw, skey *k);
void m_bs_key_set(const unsigned char *cw, bkey *k);
void m_crypt(int dir, const skey *k, unsigned char *d, unsigned len);
void m_bs_crypt(int dir, const bkey *k, const batch_t *b, unsigned maxlen);
skey *m_key_alloc(void);
bkey *m_bs_key_alloc(void);
void m_key_free(skey *k);
void m_bs_key_free(bkey *k);

/* ---- the allocator under the library ----------------------------------- */
/* Allocations made inside library calls come from a guarded arena: each ends
 * at an inaccessible page and is tracked. */
typedef struct { unsigned char *p; size_t size, align, span; unsigned char *base; int live; } alloc_rec;
extern alloc_rec al_rec[];
extern int al_n;
extern unsigned al_calls;       /* allocation requests since al_reset_fail() */
extern uint64_t al_failmask;    /* bit i set: the i-th request fails */
extern int al_failall;
extern int al_fill;             /* byte new memory is filled with; -1: leave */
extern unsigned al_shift;       /* extra offset (multiples of the alignment) */
extern char al_error[160];      /* first allocator misuse seen */
int al_live(void);
alloc_rec *al_find(const void *p);
void al_protect(const void *p, int writable);
void al_reset_fail(void);
int al_check(void);             /* 0: no misuse and all canaries intact */
void al_purge(void);            /* forget freed records (arena reuse) */

/* allocations one behind the other from a given place (NULL: as usual) */
extern unsigned char *al_pool;
extern size_t al_pool_size;     /* size of the last one */
void al_pool_set(unsigned char *at, unsigned char *end);
void al_pool_on(void);
void al_pool_off(void);
extern int al_hint;             /* arena slot to start looking from */
typedef struct { alloc_rec r; int blob; } al_snap;
int al_save(al_snap *o, int max);         /* number of live allocations, -1: too many */
void al_restore(const al_snap *o, int n);
int intern(const unsigned char *p, size_t n);
const unsigned char *blob_data(int b);
extern size_t blob_bytes;
void stack_fill(int byte);

/* guarded buffers of the harness itself */
unsigned char *guard_end(size_t size);    /* size bytes ending at a guard page */
unsigned char *guard_start(size_t size);  /* size bytes starting after one */
void guard_prot(unsigned char *p, size_t size, int prot);

/* ---- cases -------------------------------------------------------------- */
extern uint64_t case_idx;       /* number of the current case (1-based) */
extern uint64_t st_states, st_trans, st_checked;
int case_begin(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
const char *arg_s(const char *key, const char *dflt);
long long arg_i(const char *key, long long dflt);
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void stat_add(const char *name, unsigned long long v);
const char *hex(const unsigned char *p, size_t n);
void check_bytes(const unsigned char *got, const unsigned char *want, size_t n,
                 const char *fmt, ...) __attribute__((format(printf, 4, 5)));
extern volatile int case_progress_tick;
void mc_on_prof(int), mc_on_wall(int);
extern uint64_t mc_seed;
extern int shard_i, shard_n;
extern long long only_case;

/* ---- data --------------------------------------------------------------- */
uint8_t gf_mul(uint8_t a, uint8_t b);
uint64_t mix64(uint64_t x);
/* strength-2 array: 256 keys x 256 packets; any two payload bytes, and any
 * payload byte with any control word byte, take all pairs of values */
void pair_cw(unsigned u, uint8_t cw[8]);
void pair_payload(unsigned u, unsigned v, uint8_t *p, unsigned len);
/* strength-t arrays over n <= 255 positions */
void oa2(unsigned i, uint8_t *p, unsigned n);
void oa3(unsigned i, uint8_t *p, unsigned n);

/* geometry data set: GP packets under GK control words, with the expected
 * result for every length 0..184 and both directions (table file) */
#define GP 260
#define GK 3
void geo_cw(unsigned k, uint8_t cw[8]);
void geo_payload(unsigned p, uint8_t *d, unsigned len);
const uint8_t *geo_expect(unsigned k, int dir, unsigned p, unsigned efflen);
const uint8_t *pair_expect(int dir, unsigned u, unsigned v);

/* ---- modes -------------------------------------------------------------- */
typedef struct { const char *name; void (*run)(void); } mode_t_;
extern const mode_t_ modes_value[], modes_geom[], modes_env[], modes_hist[], modes_alloc[], modes_reent[], modes_bound[], modes_touch[], modes_ambient[], modes_abandon[];
extern const char *mc_env_answer;       /* what getenv answers inside library calls (ambient.c) */
extern volatile char sud_sel;  /* nonzero: system calls are trapped (bound.c) */

/* structured control words, by number; returns 0 past the last */
int special_cw(unsigned i, uint8_t cw[8]);
int special_payload(unsigned i, uint8_t *p, unsigned len);

/* writable memory of the loaded library */
typedef struct { unsigned char *p; size_t n; } region_t;
int lib_regions(region_t *r, int max);
#endif
