/* C12: region allocator. All request histories to exhaustion for every small region size. */
#include "vp.h"
#include "allocators/region/region.h"
#include <sys/mman.h>
char const *const vp_property = "C12";
static size_t const BIG[] = {96, 100, 127, 128, 200, 1000};
enum { SMALL = 72 };
enum { NC = 2*(SMALL + 6) };
int vp_nconfigs(void) { return NC + 2; }
static size_t rsize(int c) { c /= 2; return c < SMALL? (size_t)c+1 : BIG[c-SMALL]; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) snprintf(o, n, c==NC? "ladder" : "beyond 32 bits"); else snprintf(o, n, "%s-%zu", c & 1? "buffer" : "heap", rsize(c)); }
int vp_config_shards(int c) { return c==NC? 4 : 1; }
static int cfg; static size_t S, rem0, rem;
static struct HarbolRegion R; static uint8_t *raw;
static struct { uint8_t *p; size_t n; uint8_t f; } B[300]; static int nB;
/* requests, some relative to what remains or to the size of the region */
enum { K_ABS, K_REM, K_SIZE, K_MAX };
static struct { int k; long long d; } const O[] = { {K_ABS,0},{K_ABS,1},{K_ABS,7},{K_ABS,8},{K_ABS,9},{K_ABS,16},{K_ABS,17},{K_ABS,24},
	{K_REM,-9},{K_REM,-8},{K_REM,-7},{K_REM,-1},{K_REM,0},{K_REM,1},{K_REM,2},{K_REM,8}, {K_SIZE,-1},{K_SIZE,0},{K_SIZE,1},{K_SIZE,7},{K_SIZE,8},
	{K_MAX,0},{K_MAX,-6},{K_MAX,-7},{K_MAX,-8},{K_MAX,-100} };
enum { NOPS = sizeof O / sizeof *O };
static bool val(uint32_t o, size_t *v) {
	long long d = O[o].d; size_t b = O[o].k==K_ABS? 0 : O[o].k==K_REM? rem : O[o].k==K_SIZE? S : SIZE_MAX;
	if( d < 0 && (size_t)-d > b ) return false;
	*v = b + (size_t)d; return true;
}
static void opname(uint32_t o, char *b, size_t n) { snprintf(b, n, "alloc(%s%+lld)", (char const*[]){"","remaining","size","SIZE_MAX"}[O[o].k], O[o].d); }
static void verify(void) {
	for( int i=0; i < nB; i++ ) for( size_t b=0; b < B[i].n; b++ ) CHECK(B[i].p[b]==B[i].f, "block %d lost its data", i);
	CHECK(harbol_region_remaining(&R)==rem, "remaining is %zu, should be %zu", harbol_region_remaining(&R), rem);
}
static void begin(void) {
	S = rsize(cfg); nB = 0; raw = NULL;
	if( cfg & 1 ) { raw = __real_malloc(S); memset(raw, 0xC7, S); R = harbol_region_make_from_buffer(raw, S); }
	else { R = harbol_region_make(S); raw = R.mem; if( raw ) memset(raw, 0xC7, S); }
	CHECK(R.mem != NULL, "construction failed");
	rem = rem0 = harbol_region_remaining(&R);
	CHECK(rem <= S && rem + 8 > S, "a region of %zu bytes has %zu remaining", S, rem);
}
static int apply(uint32_t o, bool check) {
	(void)check; size_t v; if( !val(o, &v) ) return 0;
	size_t r = v > SIZE_MAX - 8? SIZE_MAX : (v + 7) / 8 * 8; bool fits = v > 0 && r <= rem;
	uint8_t *p = harbol_region_alloc(&R, v);
	CHECK((p != NULL)==fits, "alloc(%zu) with %zu remaining %s", v, rem, p? "succeeded" : "failed");
	if( p ) {
		CHECK(p >= raw && p + v <= raw + S && p + r <= raw + S, "block at %ld..%ld leaves the region of %zu", (long)(p-raw), (long)(p-raw)+(long)v, S);
		CHECK((uintptr_t)p % sizeof(uintptr_t)==0, "block misaligned");
		for( int i=0; i < nB; i++ ) CHECK(p + r <= B[i].p || B[i].p + B[i].n <= p, "block overlaps block %d", i);
		for( size_t b=0; b < v; b++ ) CHECK(p[b]==0, "block not zero-filled");
		B[nB].p = p; B[nB].n = v; B[nB].f = (uint8_t)(nB + 1); memset(p, B[nB].f, v); nB++;
		rem -= r;
	}
	verify(); return 1;
}
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf,0,cap}; vp_put64(&b, R.offs); vp_put64(&b, rem); vp_put64(&b, R.size); return b.n; }
static void end(void) {
	if( cfg & 1 ) __real_free(raw);
	else { harbol_region_clear(&R); CHECK(R.mem==NULL && harbol_region_remaining(&R)==0 && harbol_region_alloc(&R, 1)==NULL, "cleared region still usable"); harbol_region_clear(&R); }
}
static struct vp_sys sys = {NOPS, begin, apply, canon, end, opname};

/* ---- ladder: large regions, many requests, the last one around what remains ---- */
static void lcase(size_t sz, size_t step, int heap, int last) {
	uint8_t *own; S = sz; if( heap ) { R = harbol_region_make(S); raw = R.mem; CHECK(raw, "construction failed"); } else { raw = __real_malloc(S); R = harbol_region_make_from_buffer(raw, S); }
	memset(raw, 0xC7, S); own = __real_calloc(S, 1); rem = harbol_region_remaining(&R); CHECK(rem <= S && rem + 8 > S, "a region of %zu bytes has %zu remaining", S, rem);
	for( int k=0; ; k++ ) {
		size_t v = step + (size_t)(k % 5)*(size_t)(last & 1), r = (v+7)/8*8; if( rem < 3*r + 80 || k > 70000 ) { static int const D[] = {-17,-8,-7,-1,0,1,7,8,9}; v = (size_t)((long)rem + D[last]); r = (v+7)/8*8; if( (long)v <= 0 ) break;
			uint8_t *p = harbol_region_alloc(&R, v); bool fits = r <= rem; CHECK((p != NULL)==fits, "alloc(%zu) with %zu of %zu remaining %s", v, rem, S, p? "succeeded" : "failed");
			if( p ) { CHECK(p >= raw && p + r <= raw + S && (uintptr_t)p % 8==0, "last block leaves the region"); for( size_t b=0; b < v; b++ ) CHECK(p[b]==0, "last block not zero-filled at byte %zu", b); for( size_t b=0; b < r; b++ ) CHECK(!own[p-raw+(long)b], "last block overlaps another at byte %zu", b); rem -= r; }
			CHECK(harbol_region_remaining(&R)==rem, "remaining is %zu, should be %zu", harbol_region_remaining(&R), rem); p = harbol_region_alloc(&R, rem + 1); CHECK(p==NULL, "more was granted than remained"); if( rem ) { p = harbol_region_alloc(&R, rem); CHECK(p, "all of what remains (%zu) was refused", rem); CHECK(harbol_region_remaining(&R)==0, "something remains"); CHECK(!harbol_region_alloc(&R, 1), "a full region grants a request"); } break; }
		uint8_t *p = harbol_region_alloc(&R, v); CHECK(p, "alloc(%zu) with %zu remaining failed", v, rem); CHECK(p >= raw && p + r <= raw + S && (uintptr_t)p % 8==0, "block leaves the region");
		for( size_t b=0; b < v; b++ ) CHECK(p[b]==0, "block %d not zero-filled at byte %zu", k, b); for( size_t b=0; b < r; b++ ) { CHECK(!own[p-raw+(long)b], "block %d overlaps another", k); own[p-raw+(long)b] = 1; }
		memset(p, 0xA5 ^ k, v); rem -= r; CHECK(harbol_region_remaining(&R)==rem, "remaining is %zu, should be %zu", harbol_region_remaining(&R), rem);
	}
	__real_free(own); if( heap ) harbol_region_clear(&R); else __real_free(raw);
}
static void lrun(uint32_t a, uint32_t b, uint32_t c, uint32_t d) { uint32_t t[4] = {a, b, c, d}; if( !vp_case(t, 4) ) return; vp_note("%s region of %u, blocks of %u, ending %u", c? "heap" : "buffer", a, b, d); lcase(a, b, (int)c, (int)d); vp_case_done(); }
static void ladder(void) {
	static uint32_t const Z[] = {120,128,200,255,256,257,264,300,511,512,520,1000,1024,1031,2048,4095,4096,4097,4104,8191,8192,10000,32760,32768,65535,65536,65537,65544,100003,131072,1000000,1048576}, T[] = {1,7,8,9,15,16,17,24,33,63,64,65,100,127,128,255,256,257,1000,4095,4096,4097,65535,65536,65537,100000};
	int x = 0; for( unsigned a=0; a < sizeof Z/sizeof *Z; a++ ) for( unsigned b=0; b < sizeof T/sizeof *T; b++ ) for( uint32_t h=0; h < 2; h++ ) for( uint32_t d=0; d < 9; d++ ) { if( T[b] > Z[a] ) continue; if( Z[a] > 60000 && !vp_tier && (a + b + h + d) % 4 ) continue; if( x++ % vp_nshards==vp_shard ) lrun(Z[a], T[b], h, d); }
}
/* ---- regions about and beyond 4 GiB ---- */
static void hone(uint32_t zi, uint32_t a, uint32_t b, uint32_t last) {
	static size_t const Z[] = {(size_t)1 << 31, ((size_t)1 << 32) - 8, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 8, ((size_t)1 << 32) + 24, ((size_t)1 << 33) + 5}; static size_t const Q[] = {1, 8, 13, 100, 4096, 65537};
	uint32_t t[4] = {zi, a, b, last}; if( !vp_case(t, 4) ) return; bool hp = zi >= 7; size_t z = Z[zi % 7]; vp_note("%s region of %zu", hp? "heap" : "buffer", z);
	static uint8_t *map; if( !map ) map = vp_sparse_map(((size_t)1 << 33) + 4096); if( !map ) { vp_capped("no address space for regions beyond 4 GiB"); vp_case_done(); return; } uint8_t *buf = map;
	vp_sparse = true; if( hp ) { R = harbol_region_make(z); buf = R.mem; if( !buf ) { vp_capped("no address space for regions beyond 4 GiB"); vp_case_done(); return; } } else R = harbol_region_make_from_buffer(buf, z); rem = z/8*8; CHECK(harbol_region_remaining(&R)==rem, "a region of %zu bytes has %zu remaining", z, harbol_region_remaining(&R)); uint8_t *p[3]; size_t n[3]; int k = 0; uint32_t const ab[2] = {a, b};
	for( ; k < 2; k++ ) { size_t v = Q[ab[k]], r = (v+7)/8*8; p[k] = harbol_region_alloc(&R, v); n[k] = v; CHECK(p[k] && p[k] >= buf && p[k]+r <= buf+z, "alloc(%zu) with %zu remaining is outside or failed", v, rem); if( k ) CHECK(p[1]+r <= p[0] || p[0]+n[0] <= p[1], "blocks overlap"); for( size_t i=0; i < v; i++ ) CHECK(p[k][i]==0, "not zeroed"); memset(p[k], 0x40+k, v); rem -= r; CHECK(harbol_region_remaining(&R)==rem, "remaining is %zu, should be %zu", harbol_region_remaining(&R), rem); }
	for( size_t v = rem+1; v < (size_t)1 << 62; v = v < rem+200? v+1 : v*2+1 ) CHECK(!harbol_region_alloc(&R, v), "alloc(%zu) with %zu remaining succeeded", v, rem);
	size_t v = last? rem : 0; if( v && v <= rem ) { size_t r = (v+7)/8*8; uint8_t *q = harbol_region_alloc(&R, v); CHECK(q && q >= buf && q+r <= buf+z, "alloc(%zu) with %zu remaining is outside or failed", v, rem); for( int i=0; i < 2; i++ ) CHECK(q+r <= p[i] || p[i]+n[i] <= q, "blocks overlap"); for( size_t i=0; i < 4096; i++ ) CHECK(!q[i] && !q[v-1-i] && !q[v/4096*i], "not zeroed"); rem -= r; CHECK(harbol_region_remaining(&R)==rem, "remaining is %zu, should be %zu", harbol_region_remaining(&R), rem); }
	for( k=0; k < 2; k++ ) for( size_t i=0; i < n[k]; i++ ) CHECK(p[k][i]==0x40+k, "block %d lost its data", k);
	if( hp ) harbol_region_clear(&R); else if( last ) madvise(map, ((size_t)1 << 33) + 4096, MADV_DONTNEED);
	vp_case_done();
}
static void huge(void) { for( uint32_t z=0; z < 14; z++ ) { for( uint32_t a=0; a < 6; a++ ) for( uint32_t b=0; b < 6; b++ ) hone(z, a, b, 0); if( z==0 ) hone(z, 1, 2, 1); } }
/* quick: merge equal allocator states, to exhaustion; thorough: additionally every history unmerged up to 3 */
void vp_explore(int c) { if( c==NC+1 ) { huge(); return; } if( c >= NC ) { ladder(); return; } cfg = c;
	struct HarbolRegion z = harbol_region_make(0); CHECK(z.mem==NULL && harbol_region_alloc(&z, 1)==NULL && harbol_region_remaining(&z)==0, "empty region");
	vp_dfs(&sys, vp_tier? 4 : 3); vp_bfs(&sys, 100, 1000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c==NC+1 ) { hone(t[0], t[1], t[2], t[3]); return; } if( c >= NC ) { if( l==4 ) lrun(t[0], t[1], t[2], t[3]); return; } cfg = c; vp_replay_hist(&sys, t, l); }
