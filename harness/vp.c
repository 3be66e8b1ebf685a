#define _GNU_SOURCE
#include "vp.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>

/* ================= allocator seam ================= */
long vp_live; uint64_t vp_allocs, vp_fail_at, vp_fail_at2, vp_armed_calls; int vp_failed_allocs;
static bool armed;
void vp_arm(uint64_t k, uint64_t k2) { armed = true; vp_fail_at = k; vp_fail_at2 = k2; vp_armed_calls = 0; vp_failed_allocs = 0; }
void vp_disarm(void) { armed = false; vp_fail_at = vp_fail_at2 = 0; }
static inline bool deny(void) {
	vp_allocs++;
	if( !armed ) return false;
	vp_armed_calls++;
	if( vp_armed_calls==vp_fail_at || vp_armed_calls==vp_fail_at2 || (vp_fail_at2==UINT64_MAX && vp_fail_at && vp_armed_calls >= vp_fail_at) ) { vp_failed_allocs++; return true; }
	return false;
}
void *__wrap_malloc(size_t n);
void *__wrap_calloc(size_t n, size_t m);
void *__wrap_realloc(void *p, size_t n);
void __wrap_free(void *p);
/* when vp_sparse is set, requests of 1 GiB and more are served with untouched pages */
bool vp_sparse; static struct { uint8_t *p; size_t n; } sparse[16];
void *vp_sparse_map(size_t n) {
	for( int i=0; i < 16; i++ ) if( !sparse[i].p ) { size_t z = (n + 8191) / 4096 * 4096; uint8_t *m = n > (size_t)1 << 40? MAP_FAILED : mmap(NULL, z, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if( m==MAP_FAILED ) return NULL; sparse[i].p = m; sparse[i].n = z; return m; }
	return NULL;
}
bool vp_sparse_unmap(void *p) { if( p ) for( int i=0; i < 16; i++ ) if( sparse[i].p==p ) { munmap(p, sparse[i].n); sparse[i].p = NULL; return true; } return false; }
void *__wrap_malloc(size_t n) {
	if( deny() ) return NULL;
	if( vp_sparse && n >= (size_t)1 << 30 ) { void *q = vp_sparse_map(n); if( q ) vp_live++; return q; }
	void *p = __real_malloc(n); if( p ) vp_live++; return p;
}
void *__wrap_calloc(size_t n, size_t m) {
	if( deny() ) return NULL;
	size_t z; if( vp_sparse && !__builtin_mul_overflow(n, m, &z) && z >= (size_t)1 << 30 ) { void *q = vp_sparse_map(z); if( q ) vp_live++; return q; }
	void *p = __real_calloc(n, m); if( p ) vp_live++; return p;
}
void *__wrap_realloc(void *p, size_t n) {
	if( p==NULL ) return __wrap_malloc(n);
	if( n==0 ) { __real_free(p); vp_live--; return NULL; } /* glibc: frees */
	if( deny() ) return NULL;
	/* always move: exposes stale pointers on every schedule */
	return __real_realloc(p, n);
}
void __wrap_free(void *p) { if( p ) vp_live--; if( vp_sparse && vp_sparse_unmap(p) ) return; __real_free(p); }

/* ================= shared record with the driver ================= */
struct shm {
	uint64_t progress, states, transitions, execs, distinct, maxdepth, capped, done, skipped;
	uint64_t failed;
	uint64_t n;
	uint32_t t[VP_MAXTRACE];
	char msg[4000];
	char capwhy[200];
	uint64_t nsamples;
	char samples[6][600];
};
static struct shm dummy, *S = &dummy;
int vp_tier, vp_verbose, vp_shard, vp_nshards = 1;
static int cur_config;
static long live0;
bool vp_want_sample = true;

void vp_fail(char const *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	vsnprintf(S->msg, sizeof S->msg, fmt, ap);
	va_end(ap);
	S->failed = 1;
	printf("FAIL: %s\n", S->msg);
	fflush(stdout);
	_exit(3);
}
void vp_note(char const *fmt, ...) {
	if( !vp_verbose ) return;
	va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n'); fflush(stdout);
}
void vp_sample(char const *fmt, ...) {
	if( S->nsamples >= 6 ) { vp_want_sample = false; return; }
	va_list ap; va_start(ap, fmt);
	vsnprintf(S->samples[S->nsamples++], sizeof S->samples[0], fmt, ap);
	va_end(ap);
	if( S->nsamples >= 6 ) vp_want_sample = false;
}
void vp_set_states(uint64_t n) { S->states = n; }
void vp_add_transitions(uint64_t n) { S->transitions += n; }
void vp_capped(char const *why) { S->capped = 1; snprintf(S->capwhy, sizeof S->capwhy, "%s", why); }
void vp_note_progress(void) { S->progress++; }

static inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
uint64_t vp_hash(void const *p, size_t n, uint64_t seed) {
	uint8_t const *b = p; uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
	while( n >= 8 ) { uint64_t k; memcpy(&k, b, 8); h = (h ^ mix(k + 0x165667B19E3779F9ULL)) * 0x9E3779B97F4A7C15ULL; h = (h << 27) | (h >> 37); b += 8; n -= 8; }
	uint64_t k = 0; if( n ) { memcpy(&k, b, n); h = (h ^ mix(k + 0x27D4EB2F165667C5ULL)) * 0x9E3779B97F4A7C15ULL; }
	return mix(h);
}

/* ================= 128-bit hash set ================= */
struct set { uint64_t (*a)[2]; size_t n, cap; };
static bool set_add(struct set *s, uint64_t h1, uint64_t h2) {
	if( h1==0 && h2==0 ) h1 = 1;
	if( s->cap==0 || s->n * 10 >= s->cap * 7 ) {
		size_t nc = s->cap? s->cap * 2 : 1 << 14;
		uint64_t (*na)[2] = __real_calloc(nc, sizeof *na);
		if( !na ) { fprintf(stderr, "vp: out of memory\n"); _exit(4); }
		for( size_t i=0; i < s->cap; i++ ) if( s->a[i][0] | s->a[i][1] ) {
			size_t j = s->a[i][0] & (nc-1);
			while( na[j][0] | na[j][1] ) j = (j+1) & (nc-1);
			na[j][0] = s->a[i][0]; na[j][1] = s->a[i][1];
		}
		__real_free(s->a); s->a = na; s->cap = nc;
	}
	size_t j = h1 & (s->cap-1);
	while( s->a[j][0] | s->a[j][1] ) { if( s->a[j][0]==h1 && s->a[j][1]==h2 ) return false; j = (j+1) & (s->cap-1); }
	s->a[j][0] = h1; s->a[j][1] = h2; s->n++;
	return true;
}
static struct set outcomes;
void vp_outcome(uint64_t h) {
	if( outcomes.n < 2000000 && set_add(&outcomes, h, mix(h+1)) ) S->distinct = outcomes.n;
}

/* ================= cases and skip list ================= */
static struct { uint32_t *t; size_t n; } *skips; static size_t nskips;
bool vp_case(uint32_t const *t, size_t n) {
	if( n > VP_MAXTRACE ) n = VP_MAXTRACE;
	S->n = n; memcpy(S->t, t, n * sizeof *t);
	S->progress++; S->execs++;
	for( size_t i=0; i < nskips; i++ )
		if( skips[i].n==n && !memcmp(skips[i].t, t, n * sizeof *t) ) { S->skipped++; return false; }
	live0 = vp_live;
	return true;
}
void vp_case_done(void) {
	if( vp_live != live0 ) vp_fail("%ld block(s) allocated by the library are still live after everything was released", vp_live - live0);
}

/* ================= BFS ================= */
static void opn(struct vp_sys const *s, uint32_t op, char *b, size_t n) { if( s->opname ) s->opname(op, b, n); else snprintf(b, n, "%u", (unsigned)op); }
static void hist_str(struct vp_sys const *s, uint32_t const *t, size_t n, char *out, size_t cap) {
	size_t o = 0; out[0] = 0;
	for( size_t i=0; i < n && o+1 < cap; i++ ) { char b[100]; opn(s, t[i], b, sizeof b); o += (size_t)snprintf(out+o, cap-o, "%s%s", i? "; " : "", b); if( o >= cap ) o = cap-1; }
}
struct bst { uint32_t parent; uint32_t op; };
void vp_bfs(struct vp_sys const *s, int maxdepth, size_t maxstates) {
	struct set seen = {0};
	struct bst *st = NULL; size_t nst = 0, cap = 0;
	static uint8_t buf[1<<16];
	uint32_t hist[VP_MAXTRACE];
	size_t cur = 0, level_end, ndis = 0; int depth = 0;
#define PUSH(P,O) do { if( nst==cap ) { cap = cap? cap*2 : 4096; st = __real_realloc(st, cap * sizeof *st); } st[nst].parent = (P); st[nst].op = (O); nst++; } while( 0 )
	/* initial state */
	vp_case(hist, 0); s->begin();
	{ size_t n = s->canon(buf, sizeof buf); set_add(&seen, vp_hash(buf, n, 1), vp_hash(buf, n, 2)); PUSH(UINT32_MAX, 0); }
	s->end(); vp_case_done();
	level_end = nst;
	while( cur < nst ) {
		if( cur==level_end ) { depth++; level_end = nst; }
		if( depth >= maxdepth ) break;
		/* rebuild history of cur */
		int d = 0; for( uint32_t i=(uint32_t)cur; st[i].parent != UINT32_MAX; i = st[i].parent ) d++;
		{ int k = d; for( uint32_t i=(uint32_t)cur; st[i].parent != UINT32_MAX; i = st[i].parent ) hist[--k] = st[i].op; }
		for( uint32_t op=0; op < s->nops; op++ ) {
			hist[d] = op;
			if( !vp_case(hist, (size_t)d+1) ) continue;
			s->begin();
			for( int i=0; i < d; i++ ) if( !s->apply(hist[i], false) ) vp_fail("replay diverged: step %d of an explored history became disabled", i);
			if( !s->apply(op, true) ) { s->end(); vp_case_done(); S->execs--; continue; }
			S->transitions++;
			size_t const n = s->canon(buf, sizeof buf);
			uint64_t const h1 = vp_hash(buf, n, 1), h2 = vp_hash(buf, n, 2);
			s->end(); vp_case_done();
			if( set_add(&seen, h1, h2) ) {
				if( nst >= maxstates ) { ndis++; continue; }
				PUSH((uint32_t)cur, op);
				if( (uint64_t)d+1 > S->maxdepth ) S->maxdepth = (uint64_t)d+1;
				if( vp_want_sample && (nst==50 || nst==1000 || nst==20000) ) {
					char b[500]; hist_str(s, hist, (size_t)d+1, b, sizeof b); vp_sample("%s", b);
				}
			}
			S->states = nst;
		}
		cur++;
	}
	S->states = nst; S->distinct = nst;
	if( ndis ) vp_capped("state cap reached before the depth bound");
	if( nst==1 || S->nsamples==0 ) { char b[500]; int d=0; uint32_t i=(uint32_t)(nst-1);
		for( uint32_t k=i; st[k].parent != UINT32_MAX; k = st[k].parent ) d++;
		{ int q=d; for( uint32_t k=i; st[k].parent != UINT32_MAX; k = st[k].parent ) hist[--q] = st[k].op; }
		hist_str(s, hist, (size_t)d, b, sizeof b); vp_sample("%s", b); }
	__real_free(st); __real_free(seen.a);
}

static void dfs_rec(struct vp_sys const *s, uint32_t *hist, int d, int maxdepth) {
	for( uint32_t op=0; op < s->nops; op++ ) {
		if( d==1 && vp_nshards > 1 && (int)((hist[0] * s->nops + op) % (uint32_t)vp_nshards) != vp_shard ) continue;
		hist[d] = op;
		if( !vp_case(hist, (size_t)d+1) ) continue;
		s->begin(); bool ok = true;
		for( int i=0; i < d && ok; i++ ) ok = s->apply(hist[i], false);
		if( !ok ) vp_fail("replay diverged");
		ok = s->apply(op, true);
		s->end(); vp_case_done();
		if( !ok ) continue;
		S->transitions++; S->states++;
		if( (uint64_t)d+1 > S->maxdepth ) S->maxdepth = (uint64_t)d+1;
		if( vp_want_sample && d+1==maxdepth ) { char b[500]; hist_str(s, hist, (size_t)d+1, b, sizeof b); vp_sample("%s", b); }
		if( d+1 < maxdepth ) dfs_rec(s, hist, d+1, maxdepth);
	}
}
void vp_dfs(struct vp_sys const *s, int maxdepth) { uint32_t hist[VP_MAXTRACE]; dfs_rec(s, hist, 0, maxdepth); S->distinct = S->states; }

void vp_replay_hist(struct vp_sys const *s, uint32_t const *t, size_t n) {
	if( !vp_case(t, n) ) return;
	s->begin();
	for( size_t i=0; i < n; i++ ) {
		char b[100]; opn(s, t[i], b, sizeof b); vp_note("step %zu: %s", i, b);
		if( !s->apply(t[i], true) ) vp_note("  (not enabled)");
	}
	static uint8_t buf[1<<16]; s->canon(buf, sizeof buf);
	vp_note("teardown"); s->end(); vp_case_done();
}

void vp_words(uint32_t k, int maxlen, void (*fn)(uint32_t const *w, int len)) {
	uint32_t w[64]; uint64_t idx = 0;
	for( int len=0; len <= maxlen; len++ ) {
		memset(w, 0, sizeof w);
		for(;;) {
			if( (int)(idx++ % (uint64_t)vp_nshards)==vp_shard ) {
				if( vp_case(w, (size_t)len) ) { fn(w, len); vp_case_done(); S->states++; S->transitions++; }
			}
			int i = len-1;
			while( i >= 0 && ++w[i]==k ) w[i--] = 0;
			if( i < 0 ) break;
		}
		S->maxdepth = (uint64_t)len;
	}
}

/* ================= main ================= */
static size_t parse_ints(char const *s, uint32_t *t) {
	size_t n = 0; char *e;
	while( *s && n < VP_MAXTRACE ) { while( *s==',' || *s==' ' ) s++; if( !*s ) break; t[n++] = (uint32_t)strtoul(s, &e, 10); if( e==s ) break; s = e; }
	return n;
}
int main(int argc, char **argv) {
	char const *shmfile = NULL, *replay = NULL, *skipfile = NULL; bool list = false;
	for( int i=1; i < argc; i++ ) {
		if( !strcmp(argv[i], "--tier") ) vp_tier = !strcmp(argv[++i], "thorough");
		else if( !strcmp(argv[i], "--list") ) list = true;
		else if( !strcmp(argv[i], "--config") ) cur_config = atoi(argv[++i]);
		else if( !strcmp(argv[i], "--shard") ) { sscanf(argv[++i], "%d/%d", &vp_shard, &vp_nshards); }
		else if( !strcmp(argv[i], "--shm") ) shmfile = argv[++i];
		else if( !strcmp(argv[i], "--replay") ) replay = argv[++i];
		else if( !strcmp(argv[i], "--skip") ) skipfile = argv[++i];
	}
	if( list ) {
		for( int c=0; c < vp_nconfigs(); c++ ) { char b[200]; vp_config_name(c, b, sizeof b); printf("%d %d %s\n", c, vp_config_shards(c), b); }
		return 0;
	}
	if( shmfile ) {
		int fd = open(shmfile, O_RDWR|O_CREAT, 0600);
		if( fd < 0 || ftruncate(fd, sizeof *S) ) { perror("shm"); return 4; }
		S = mmap(NULL, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
		if( S==MAP_FAILED ) { perror("mmap"); return 4; }
		close(fd);
	}
	if( skipfile ) {
		FILE *f = fopen(skipfile, "r"); static char line[100000];
		if( f ) { while( fgets(line, sizeof line, f) ) {
			static uint32_t t[VP_MAXTRACE]; size_t n = parse_ints(line, t);
			skips = __real_realloc(skips, (nskips+1) * sizeof *skips);
			skips[nskips].t = __real_malloc((n? n : 1) * sizeof *t); memcpy(skips[nskips].t, t, n * sizeof *t); skips[nskips].n = n; nskips++;
		} fclose(f); }
	}
	if( replay ) {
		vp_verbose = 1;
		static uint32_t t[VP_MAXTRACE];
		static char big[200000];
		if( replay[0]=='@' ) { FILE *f = fopen(replay+1, "r"); if( !f ) { perror("replay"); return 4; } size_t n = fread(big, 1, sizeof big - 1, f); big[n]=0; fclose(f); replay = big; }
		size_t n = parse_ints(replay, t);
		vp_replay(cur_config, t, n);
		printf("replay finished without failure\n");
		return 0;
	}
	vp_explore(cur_config);
	S->done = 1;
	return 0;
}
