/* C27: generator against the recurrence x[n+624] = x[n+397] ^ (mix of x[n], x[n+1]), all schedules of several generators near every refill. */
#include "vp.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#include "mtwister/mtwister.h"
char const *const vp_property = "C27";
enum { SEEDS, LONG, UNSEEDED, SCHED, NCFG = SCHED + 9 };
static int const START[9] = {0, 1, 226, 227, 396, 621, 622, 623, 1246};
static int cfg;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { if( c==SEEDS ) snprintf(o, n, "many seeds"); else if( c==LONG ) snprintf(o, n, "long sequences"); else if( c==UNSEEDED ) snprintf(o, n, "a generator marked as never seeded"); else snprintf(o, n, "schedules after %d outputs", START[c-SCHED]); }
int vp_config_shards(int c) { return c==SEEDS? 8 : c==LONG? 4 : c==UNSEEDED? 1 : 2; }
/* reference: the whole sequence is kept, outputs are tempered elements from 624 on */
struct ref { uint64_t *x; size_t n, cap, at; };
static void rseed(struct ref *r, uint64_t s) { if( !r->x ) { r->cap = 1024; r->x = __real_malloc(r->cap * 8); } r->x[0] = s; for( int i=1; i < 624; i++ ) r->x[i] = r->x[i-1] * 6069; r->n = 624; r->at = 624; }
static uint64_t rnext(struct ref *r) {
	while( r->n <= r->at ) { if( r->n==r->cap ) { r->cap *= 2; r->x = __real_realloc(r->x, r->cap * 8); } size_t b = r->n - 624; uint64_t y = (r->x[b] & 0x80000000u) + (r->x[b+1] & 0x7fffffffu); r->x[r->n++] = r->x[b+397] ^ (y/2) ^ (y % 2? 0x9908b0dfu : 0); }
	uint64_t y = r->x[r->at++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y;
}
static void f64(double d, uint64_t y) { CHECK(d >= 0 && d <= 1, "floating output %.20g out of range", d); CHECK(d==(double)y / (double)SIZE_MAX, "floating output %.20g, should be %.20g", d, (double)y / (double)SIZE_MAX); }
static void seq(uint64_t s, size_t len) {
	uint32_t t[3] = {(uint32_t)s, (uint32_t)(s >> 32), (uint32_t)len}; if( !vp_case(t, 3) ) return;
	struct MTRand *g = __real_malloc(sizeof *g), *h = __real_malloc(sizeof *h); memset(h, 0xEE, sizeof *h); *g = MT_SeedRand(s); _MT_SeedRand(h, s); struct ref r = {0}; rseed(&r, s);
	for( size_t i=0; i < len; i++ ) { uint64_t y = rnext(&r); if( i % 5==3 ) f64(MT_GenRand_F64(g), y); else { size_t v = MT_GenRand_UInt(g); CHECK(v==y, "output %zu of seed %lu is %zu, should be %lu", i, s, v, y); } if( i < 700 ) { size_t v = MT_GenRand_UInt(h); CHECK(v==y, "output %zu of a re-seeded generator (seed %lu) is %zu, should be %lu", i, s, v, y); } }
	__real_free(g); __real_free(h); __real_free(r.x); vp_case_done(); vp_add_transitions(len); vp_outcome(vp_hash(&s, 8, len)); if( vp_want_sample && s % 1009==7 ) vp_sample("%zu outputs of seed %lu", len, s);
}
static struct MTRand A0;
/* a state whose index lies beyond the vector counts as never seeded: it starts over from the default seed, whatever the vector holds */
static void unseeded(uint32_t k, uint32_t fill) {
	static size_t const IX[] = {625, 626, 627, 700, 1000, 65536, 65537, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, SIZE_MAX-1, SIZE_MAX}; uint32_t t[2] = {k, fill}; if( k >= sizeof IX/sizeof *IX || (sizeof(A0.index) < 8 && IX[k] > UINT32_MAX) || !vp_case(t, 2) ) return;
	struct MTRand *g = __real_malloc(sizeof *g); memset(g, (int)fill, sizeof *g); g->index = IX[k]; struct ref r = {0}; rseed(&r, 4357); for( int i=0; i < 1400; i++ ) { uint64_t y = rnext(&r); size_t v = MT_GenRand_UInt(g); CHECK(v==y, "output %d of a generator that was never seeded (index %zu) is %zu, should be %lu", i, IX[k], v, y); } __real_free(g); __real_free(r.x); vp_case_done();
}
/* ---- schedules ---- */
static struct MTRand A, B; static struct ref ra, rb;
enum { UA, FA, UB, FB, SEEDA, SEEDB, COPY, NOPS };
static void opname(uint32_t o, char *b, size_t n) { snprintf(b, n, "%s", ((char const *[]){"uint(A)", "f64(A)", "uint(B)", "f64(B)", "seed(A)", "seed(B)", "B = A"})[o]); }
static void begin(void) { A = MT_SeedRand(4357); B = MT_SeedRand(SIZE_MAX - 12); rseed(&ra, 4357); rseed(&rb, SIZE_MAX - 12); for( int i=0; i < START[cfg-SCHED]; i++ ) { (void)rnext(&ra); (void)MT_GenRand_UInt(&A); if( i < 624 ) { (void)rnext(&rb); (void)MT_GenRand_UInt(&B); } } }
static void end(void) {}
static int apply(uint32_t o, bool check) {
	(void)check; uint64_t y; size_t v;
	switch( o ) {
	case UA: y = rnext(&ra); v = MT_GenRand_UInt(&A); CHECK(v==y, "A: output is %zu, should be %lu", v, y); break;
	case UB: y = rnext(&rb); v = MT_GenRand_UInt(&B); CHECK(v==y, "B: output is %zu, should be %lu", v, y); break;
	case FA: f64(MT_GenRand_F64(&A), rnext(&ra)); break; case FB: f64(MT_GenRand_F64(&B), rnext(&rb)); break;
	case SEEDA: _MT_SeedRand(&A, 99); rseed(&ra, 99); break; case SEEDB: B = MT_SeedRand(99); rseed(&rb, 99); break;
	case COPY: B = A; while( rb.cap < ra.n ) { rb.cap *= 2; rb.x = __real_realloc(rb.x, rb.cap * 8); } memcpy(rb.x, ra.x, ra.n * 8); rb.n = ra.n; rb.at = ra.at; break;
	}
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf, 0, cap}; vp_put(&b, &A, sizeof A); vp_put(&b, &B, sizeof B); return b.n; }
static struct vp_sys sys = {NOPS, begin, apply, canon, end, opname};
void vp_explore(int c) {
	cfg = c; uint64_t k = 0;
#define MINE ((int)(k++ % (uint64_t)vp_nshards)==vp_shard)
	if( c==SEEDS ) { size_t len = vp_tier? 6000 : 1300; for( uint64_t s=0; s < (vp_tier? 20000u : 4000u); s++ ) { if( MINE ) seq(s, len); if( MINE ) seq(~s, len); } for( int b=0; b < 64; b++ ) for( int d=-3; d <= 3; d++ ) if( MINE ) seq(((uint64_t)1 << b) + (uint64_t)(int64_t)d, len); }
	else if( c==LONG ) { uint64_t const S[8] = {4357, 1, 0, 5489, UINT64_MAX, 0x80000000u, 0x123456789ABCDEF0u, 19650218}; for( int i=0; i < 8; i++ ) if( MINE ) seq(S[i], vp_tier? 30000000 : 1000000); }
	else if( c==UNSEEDED ) for( uint32_t i=0; i < 12; i++ ) for( uint32_t f=0; f < 256; f += 51 ) unseeded(i, f);
	else vp_dfs(&sys, vp_tier? 6 : 5);
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c >= SCHED ) vp_replay_hist(&sys, t, n); else if( c==UNSEEDED ) unseeded(t[0], t[1]); else seq(t[0] | (uint64_t)t[1] << 32, t[2]); }
