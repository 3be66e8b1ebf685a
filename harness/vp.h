/* Exploration engine shared by all harnesses. See DESIGN.md. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <limits.h>

/* ---- allocator seam (link with --wrap=malloc,calloc,realloc,free) ---- */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);
extern long vp_live;            /* blocks allocated by code under test and not freed */
extern uint64_t vp_allocs;      /* allocation calls so far */
extern uint64_t vp_fail_at;     /* 0: never; k: the k-th call counted from vp_arm() returns NULL */
extern uint64_t vp_fail_at2;    /* a second failing position; UINT64_MAX: every call from the first position on */
extern uint64_t vp_armed_calls; /* calls since vp_arm() */
extern int vp_failed_allocs;    /* how many calls were failed since vp_arm() */
void vp_arm(uint64_t k, uint64_t k2);
void vp_disarm(void);
extern bool vp_sparse;          /* requests of 1 GiB and more get untouched pages (no guard zones) */
void *vp_sparse_map(size_t n); bool vp_sparse_unmap(void *p);

/* ---- reporting ---- */
extern int vp_tier;             /* 0 quick, 1 thorough */
extern int vp_verbose;          /* replaying: narrate */
extern int vp_shard, vp_nshards;
void vp_fail(char const *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define CHECK(c, ...) do { if( !(c) ) vp_fail(__VA_ARGS__); } while( 0 )
void vp_note(char const *fmt, ...) __attribute__((format(printf, 1, 2))); /* only when verbose */
void vp_sample(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
void vp_outcome(uint64_t h);    /* count distinct observed outcomes */
void vp_set_states(uint64_t);
void vp_add_transitions(uint64_t);
void vp_capped(char const *why);
uint64_t vp_hash(void const *p, size_t n, uint64_t seed);
extern bool vp_want_sample;     /* true now and then */

/* ---- current case ---- */
enum { VP_MAXTRACE = 4096 };
/* false: this exact case is a listed known finding (skip it) */
bool vp_case(uint32_t const *t, size_t n);
void vp_case_done(void);        /* leak check: vp_live must be what it was at vp_case() */
void vp_note_progress(void);

/* ---- explicit-state search over histories ---- */
struct vp_sys {
	uint32_t nops;
	void (*begin)(void);
	/* 0: operation not enabled (nothing was done). check: compare every observation */
	int (*apply)(uint32_t op, bool check);
	size_t (*canon)(uint8_t *buf, size_t cap); /* full object state */
	void (*end)(void);
	void (*opname)(uint32_t op, char *out, size_t n);
};
void vp_bfs(struct vp_sys const *s, int maxdepth, size_t maxstates);
/* all histories, nothing merged */
void vp_dfs(struct vp_sys const *s, int maxdepth);
void vp_replay_hist(struct vp_sys const *s, uint32_t const *t, size_t n);

/* ---- enumeration of all words over an alphabet ---- */
/* calls fn(word,len) for every word of length 0..maxlen over alphabet size k, sharded on index */
void vp_words(uint32_t k, int maxlen, void (*fn)(uint32_t const *w, int len));

/* ---- canon helpers ---- */
struct vp_buf { uint8_t *p; size_t n, cap; };
static inline void vp_put(struct vp_buf *b, void const *p, size_t n) {
	if( b->n + n > b->cap ) { fprintf(stderr, "vp canon overflow\n"); abort(); }
	if( n ) memcpy(b->p + b->n, p, n);
	b->n += n;
}
static inline void vp_put64(struct vp_buf *b, uint64_t v) { vp_put(b, &v, sizeof v); }

/* ---- supplied by the harness ---- */
extern char const *const vp_property;
int  vp_nconfigs(void);
void vp_config_name(int c, char *out, size_t n);
int  vp_config_shards(int c);   /* >= 1 */
void vp_explore(int c);
void vp_replay(int c, uint32_t const *t, size_t n);
#endif
