/* C13: double-ended stack allocator. All histories of requests, resets, resizes. */
#include "vp.h"
#include "allocators/bistack/bistack.h"
#include <sys/mman.h>
char const *const vp_property = "C13";
enum { SMALL = 48 };
static size_t const BIG[] = {64, 71, 100, 128};
enum { NC = 2*(SMALL + 4) };
int vp_nconfigs(void) { return NC + 2; }
static size_t rsize(int c) { c /= 2; return c < SMALL? (size_t)c+1 : BIG[c-SMALL]; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) snprintf(o, n, c==NC? "ladder" : "beyond 32 bits"); else snprintf(o, n, "%s-%zu", c & 1? "buffer" : "heap", rsize(c)); }
int vp_config_shards(int c) { return c >= NC? 4 : 1; }
static int cfg; static size_t S, cap, front, back;
static struct HarbolBiStack K; static uint8_t *raw;
static struct { uint8_t *p; size_t n; uint8_t f; } B[2][200]; static int nB[2]; static uint8_t ctr;
enum { K_ABS, K_GAP, K_MAX };
static struct { int k; long long d; } const A[] = { {K_ABS,0},{K_ABS,1},{K_ABS,8},{K_ABS,9},{K_ABS,16}, {K_GAP,-9},{K_GAP,-8},{K_GAP,-1},{K_GAP,0},{K_GAP,1},{K_GAP,8},{K_GAP,100},
	{K_MAX,0},{K_MAX,-6},{K_MAX,-7},{K_MAX,-8},{K_MAX,-16},{K_MAX,-40} };
enum { NA = sizeof A / sizeof *A, RF = 2*NA, RB, RA, RZ0, RZSAME, RZUP, RZDOWN, RZODD, NOPS };
static bool val(uint32_t a, size_t *v) { long long d = A[a].d; size_t b = A[a].k==K_ABS? 0 : A[a].k==K_GAP? back-front : SIZE_MAX; if( d < 0 && (size_t)-d > b ) return false; *v = b + (size_t)d; return true; }
static void opname(uint32_t o, char *b, size_t n) {
	if( o < RF ) snprintf(b, n, "alloc_%s(%s%+lld)", o < NA? "front" : "back", (char const*[]){"","gap","SIZE_MAX"}[A[o%NA].k], A[o%NA].d);
	else snprintf(b, n, "%s", (char const*[]){"reset_front","reset_back","reset_all","resize(0)","resize(same)","resize(+24)","resize(half)","resize(+5)"}[o-RF]);
}
static void verify(void) {
	for( int s=0; s < 2; s++ ) for( int i=0; i < nB[s]; i++ ) for( size_t b=0; b < B[s][i].n; b++ ) CHECK(B[s][i].p[b]==B[s][i].f, "%s block %d lost its data", s? "back" : "front", i);
	CHECK(harbol_bistack_get_margins(K)==back-front, "margin is %zu, should be %zu", harbol_bistack_get_margins(K), back-front);
}
static void fresh(void) { raw = K.mem; cap = harbol_bistack_get_margins(K); CHECK(cap <= S && cap + 8 > S, "a stack of %zu bytes has a margin of %zu", S, cap); memset(raw, 0xC7, S); front = 0; back = cap; nB[0] = nB[1] = 0; }
static void begin(void) {
	S = rsize(cfg); ctr = 0; memset(&K, 0, sizeof K); bool ok = true;
	if( cfg & 1 ) K = harbol_bistack_make_from_buffer(malloc(S), S); else if( S & 1 ) ok = harbol_bistack_init(&K, S); else K = harbol_bistack_make(S, &ok);
	CHECK(ok && K.mem, "construction failed"); fresh();
}
static int apply(uint32_t o, bool check) {
	(void)check;
	if( o < RF ) {
		int s = o >= NA; size_t v; if( !val(o % NA, &v) ) return 0; if( nB[s] >= 60 ) return 0;
		size_t r = v > SIZE_MAX - 8? SIZE_MAX : (v + 7) / 8 * 8; bool fits = r <= back - front;
		uint8_t *p = s? harbol_bistack_alloc_back(&K, v) : harbol_bistack_alloc_front(&K, v);
		if( v ) CHECK((p != NULL)==fits, "alloc_%s(%zu) with a gap of %zu %s", s? "back" : "front", v, back-front, p? "succeeded" : "failed");
		if( p ) {
			CHECK(p >= raw && p + r <= raw + S, "block at %ld+%zu leaves the buffer of %zu", (long)(p-raw), v, S);
			if( v ) CHECK((uintptr_t)p % sizeof(size_t)==0, "block misaligned");
			for( int q=0; q < 2; q++ ) for( int i=0; i < nB[q]; i++ ) CHECK(v==0 || p + r <= B[q][i].p || B[q][i].p + B[q][i].n <= p, "block overlaps %s block %d", q? "back" : "front", i);
			if( v ) { B[s][nB[s]].p = p; B[s][nB[s]].n = v; B[s][nB[s]].f = ++ctr; memset(p, ctr, v); nB[s]++; }
			if( s ) back -= r; else front += r;
		}
	} else if( o==RF ) { harbol_bistack_reset_front(&K); front = 0; nB[0] = 0; }
	else if( o==RB ) { harbol_bistack_reset_back(&K); back = cap; nB[1] = 0; }
	else if( o==RA ) { harbol_bistack_reset_all(&K); front = 0; back = cap; nB[0] = nB[1] = 0; }
	else {
		size_t n = o==RZ0? 0 : o==RZSAME? S : o==RZUP? S + 24 : o==RZODD? S + 5 : S/2;
		if( n > 160 || (n==0 && o != RZ0) ) return 0;
		bool q = harbol_bistack_resize(&K, n);
		if( n==0 ) CHECK(!q, "resize to nothing succeeded");
		else { CHECK(q, "resize(%zu) failed", n); S = n; fresh(); }
	}
	verify(); return 1;
}
static size_t canon(uint8_t *buf, size_t c) { struct vp_buf b = {buf,0,c}; vp_put64(&b, K.front); vp_put64(&b, K.back); vp_put64(&b, K.size); vp_put64(&b, front); vp_put64(&b, back); vp_put64(&b, cap); return b.n; }
static void end(void) { harbol_bistack_clear(&K); CHECK(K.mem==NULL && harbol_bistack_alloc_front(&K, 8)==NULL && harbol_bistack_alloc_back(&K, 8)==NULL && harbol_bistack_get_margins(K)==0, "cleared stack still usable"); harbol_bistack_clear(&K); }
static struct vp_sys sys = {NOPS, begin, apply, canon, end, opname};

/* ---- ladder: large stacks, many blocks from both ends, resets and resizes in between ---- */
static uint16_t *own; /* 0: unused since the last reset of its side, 1+: front block, 0x8000+: back block */
static void lfresh(void) { raw = K.mem; cap = harbol_bistack_get_margins(K); CHECK(cap <= S && cap + 8 > S, "a stack of %zu bytes has a margin of %zu", S, cap); memset(raw, 0xC7, S); __real_free(own); own = __real_calloc(S + 8, sizeof *own); front = 0; back = cap; }
static bool lalloc(int s, size_t v) {
	size_t r = (v+7)/8*8; uint8_t *p = s? harbol_bistack_alloc_back(&K, v) : harbol_bistack_alloc_front(&K, v); CHECK((p != NULL)==(r <= back - front), "alloc_%s(%zu) with a gap of %zu %s", s? "back" : "front", v, back-front, p? "succeeded" : "failed");
	if( p ) { CHECK(p >= raw && p + r <= raw + S && (uintptr_t)p % 8==0, "block at %ld+%zu leaves the buffer of %zu", (long)(p-raw), v, S); for( size_t b=0; b < r; b++ ) { CHECK(own[p-raw+(long)b]==0, "%s block overlaps another at %ld", s? "back" : "front", (long)(p-raw)); own[p-raw+(long)b] = (uint16_t)(s? 0x8000 : 1); } memset(p, s? 0xBB : 0xFF, v); if( s ) back -= r; else front += r; }
	CHECK(harbol_bistack_get_margins(K)==back-front, "margin is %zu, should be %zu", harbol_bistack_get_margins(K), back-front); return p != NULL;
}
static void lreset(int w) { if( w==0 || w==2 ) { front = 0; for( size_t i=0; i < S; i++ ) if( own[i]==1 ) { own[i] = 0; } } if( w==1 || w==2 ) { back = cap; for( size_t i=0; i < S; i++ ) if( own[i]==0x8000 ) own[i] = 0; } if( w==0 ) harbol_bistack_reset_front(&K); else if( w==1 ) harbol_bistack_reset_back(&K); else harbol_bistack_reset_all(&K); CHECK(harbol_bistack_get_margins(K)==back-front, "margin after a reset is %zu, should be %zu", harbol_bistack_get_margins(K), back-front); }
static void ldata(void) { for( size_t i=0; i+8 <= S; i += 8 ) if( own[i] ) CHECK(raw[i]==(own[i]==1? 0xFF : 0xBB), "%s data lost at %zu", own[i]==1? "front" : "back", i); }
static void lcase(size_t sz, size_t step, uint32_t w) {
	S = sz; memset(&K, 0, sizeof K); bool ok = true; own = NULL; if( w & 1 ) K = harbol_bistack_make_from_buffer(malloc(S), S); else ok = harbol_bistack_init(&K, S); CHECK(ok && K.mem, "construction failed"); lfresh();
	size_t f = step, g = w & 2? step : step/2 + 1; /* fill from both ends until one is refused */
	for( int k=0; k < 70000 && lalloc(k & 1, k & 1? g : f); k++ ); ldata(); lalloc(0, back-front+1); lalloc(1, back-front+1); if( back-front ) { lalloc((int)(w>>2 & 1), back-front); CHECK(back==front, "internal"); } lalloc(0, 1); lalloc(1, 1); ldata();
	lreset((int)(w % 3)); ldata(); while( lalloc((int)(w % 3==1), f + 8) ); ldata(); lreset(1); lreset(0); lalloc(1, S/3); lalloc(0, S/2); ldata();
	size_t const Z[] = {sz/2 + 1, sz*2 + 5, sz, sz + 4096, 7}; for( int i=0; i < 5; i++ ) { S = Z[(i + (int)w) % 5]; CHECK(harbol_bistack_resize(&K, S), "resize(%zu) failed", S); lfresh(); lalloc(0, step); lalloc(1, step); lalloc(0, back-front); ldata(); }
	lreset(2); __real_free(own); harbol_bistack_clear(&K); CHECK(K.mem==NULL && harbol_bistack_get_margins(K)==0, "cleared stack still usable");
}
static void lrun(uint32_t a, uint32_t b, uint32_t c) { uint32_t t[3] = {a, b, c}; if( !vp_case(t, 3) ) return; vp_note("stack of %u, blocks of %u, variant %u", a, b, c); lcase(a, b, c); vp_case_done(); }
static void ladder(void) {
	static uint32_t const Z[] = {56,72,127,129,160,200,255,256,257,300,511,512,520,1000,1024,1031,4095,4096,4097,10000,32768,65535,65536,65537,100003,500000}, T[] = {1,7,8,9,16,17,24,33,63,64,65,100,127,128,255,256,257,1000,4096,4097,65536,65537};
	int x = 0; for( unsigned a=0; a < sizeof Z/sizeof *Z; a++ ) for( unsigned b=0; b < sizeof T/sizeof *T; b++ ) for( uint32_t w=0; w < 12; w++ ) { if( T[b] > Z[a] ) continue; if( Z[a] > 9000 && !vp_tier && (a + b + w) % 6 ) continue; if( x++ % vp_nshards==vp_shard ) lrun(Z[a], T[b], w); }
}
/* ---- stacks about and beyond 4 GiB: all histories of a few requests ---- */
static size_t const HZ[] = {(size_t)1 << 31, ((size_t)1 << 32) - 8, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 8, ((size_t)1 << 32) + 24, ((size_t)1 << 33) + 5}; enum { NHZ = sizeof HZ / sizeof *HZ, HREQ = 10, HOPS = 2*HREQ + 3 };
static uint8_t *hbuf; static size_t hz;
static size_t hreq(uint32_t k) { size_t g = back-front; switch( k ) { case 0: return 8; case 1: return 13; case 2: return (size_t)1 << 31; case 3: return ((size_t)1 << 32) - 8; case 4: return (size_t)1 << 32; case 5: return ((size_t)1 << 32) + 8; case 6: return g; case 7: return g+1; case 8: return g > 8? g-8 : 0; default: return g > (size_t)1 << 32? g - ((size_t)1 << 32) : 0; } }
static void hname(uint32_t o, char *b, size_t n) { if( o < 2*HREQ ) snprintf(b, n, "alloc_%s(%s)", o < HREQ? "front" : "back", (char const *[]){"8","13","2^31","2^32-8","2^32","2^32+8","gap","gap+1","gap-8","gap-2^32"}[o%HREQ]); else snprintf(b, n, "%s", (char const *[]){"reset_front","reset_back","reset_all"}[o-2*HREQ]); }
static void hbegin(void) { size_t const z = hz; if( !hbuf ) { hbuf = vp_sparse_map(((size_t)1 << 33) + 4096); if( !hbuf ) vp_fail("harness: no address space"); } S = z; K = harbol_bistack_make_from_buffer(hbuf, z); raw = hbuf; cap = z/8*8; front = 0; back = cap; nB[0] = nB[1] = 0; CHECK(harbol_bistack_get_margins(K)==cap, "a stack of %zu bytes has a margin of %zu", z, harbol_bistack_get_margins(K)); }
static bool hheap0(void);
static void hend(void) { if( hheap0() ) harbol_bistack_clear(&K); memset(&K, 0, sizeof K); }
static void hmark(int s, int i, bool put) { uint8_t *p = B[s][i].p; size_t n = B[s][i].n; uint8_t v = (uint8_t)(s*64 + i + 1); if( put ) p[0] = p[n-1] = p[n/2] = v; else CHECK(p[0]==v && p[n-1]==v && p[n/2]==v, "%s block %d lost its data", s? "back" : "front", i); }
static int happly(uint32_t o, bool check) {
	(void)check; if( o < 2*HREQ ) { int s = o >= HREQ; size_t v = hreq(o % HREQ), r = (v+7)/8*8; if( v==0 || nB[s] >= 20 ) return 0; uint8_t *p = s? harbol_bistack_alloc_back(&K, v) : harbol_bistack_alloc_front(&K, v), *want = s? raw + back - r : raw + front;
		CHECK((p != NULL)==(r <= back-front), "alloc_%s(%zu) with a gap of %zu %s", s? "back" : "front", v, back-front, p? "succeeded" : "failed"); if( p ) { (void)want; CHECK(p >= raw && p + r <= raw + S && (uintptr_t)p % 8==0, "block at %ld leaves the buffer", (long)(p-raw)); for( int q=0; q < 2; q++ ) for( int i=0; i < nB[q]; i++ ) CHECK(p + r <= B[q][i].p || B[q][i].p + B[q][i].n <= p, "block of %zu overlaps %s block %d", v, q? "back" : "front", i); B[s][nB[s]].p = p; B[s][nB[s]].n = v; hmark(s, nB[s]++, true); if( s ) back -= r; else front += r; } }
	else { o -= 2*HREQ; if( o != 1 ) { front = 0; nB[0] = 0; } if( o ) { back = cap; nB[1] = 0; } if( o==0 ) harbol_bistack_reset_front(&K); else if( o==1 ) harbol_bistack_reset_back(&K); else harbol_bistack_reset_all(&K); }
	for( int q=0; q < 2; q++ ) for( int i=0; i < nB[q]; i++ ) hmark(q, i, false); CHECK(harbol_bistack_get_margins(K)==back-front, "margin is %zu, should be %zu", harbol_bistack_get_margins(K), back-front); return 1;
}
static bool hheap;
static struct vp_sys hsys = {HOPS + 2*NHZ, NULL, NULL, NULL, hend, hname};
/* the first operation chooses the size */
static bool hready;
static void hbegin0(void) { hready = hheap = false; }
static bool hheap0(void) { return hheap; }
static int happly0(uint32_t o, bool check) { if( o >= HOPS ) { if( hready ) return 0; hheap = o-HOPS >= NHZ; hz = HZ[(o-HOPS) % NHZ]; hbegin(); hready = true; if( hheap ) { bool ok = false; vp_sparse = true; K = harbol_bistack_make(hz, &ok); if( !ok || !K.mem ) { vp_capped("no address space"); hheap = hready = false; return 0; } raw = K.mem; CHECK(harbol_bistack_get_margins(K)==cap, "a stack of %zu bytes has a margin of %zu", hz, harbol_bistack_get_margins(K)); } return 1; } return hready? happly(o, check) : 0; }
static void hname0(uint32_t o, char *b, size_t n) { if( o >= HOPS ) snprintf(b, n, "%s stack of %zu bytes", o-HOPS >= NHZ? "heap" : "buffer", HZ[(o-HOPS) % NHZ]); else hname(o, b, n); }
static void hinit(void) { hsys.begin = hbegin0; hsys.apply = happly0; hsys.opname = hname0; }
void vp_explore(int c) { if( c==NC+1 ) { if( !hbuf && !(hbuf = vp_sparse_map(((size_t)1 << 33) + 4096)) ) { vp_capped("no address space for stacks beyond 4 GiB"); return; } hinit(); vp_dfs(&hsys, vp_tier? 5 : 4); return; } if( c >= NC ) { ladder(); return; } cfg = c; bool ok = true; struct HarbolBiStack z = harbol_bistack_make(0, &ok); CHECK(!ok, "empty stack accepted"); (void)z; vp_dfs(&sys, vp_tier? 3 : 2); vp_bfs(&sys, vp_tier? 100 : 7, 1000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c==NC+1 ) { hinit(); vp_replay_hist(&hsys, t, l); return; } if( c >= NC ) { if( l==3 ) lrun(t[0], t[1], t[2]); return; } cfg = c; vp_replay_hist(&sys, t, l); }
