/* C11: object pool. All reachable pool states (fixpoint) for every small pool. */
#include "vp.h"
#include "allocators/objpool/objpool.h"
char const *const vp_property = "C11";
struct conf { int n; size_t obj; int buf; };
static struct conf C[200]; static int nC;
static void mk(void) {
	static size_t const os[] = {1,7,8,9,16,24,33}; nC = 0;
	int maxn = vp_tier? 7 : 6;
	for( int b=0; b < 2; b++ ) for( int n=1; n <= maxn; n++ ) for( unsigned o=0; o < 7; o++ ) {
		if( b && os[o] % 8 ) continue; /* refused: tested in begin */
		if( n >= 6 && os[o] != 8 && os[o] != 24 ) continue;
		C[nC++] = (struct conf){n, os[o], b};
	}
	static size_t const big[] = {63,64,65,72,100,128,255,256,257,1000,4096,5000,70000};
	for( int b=0; b < 2; b++ ) for( unsigned o=0; o < 13; o++ ) { if( b && big[o] % 8 ) continue; for( int n=2; n <= 3; n++ ) C[nC++] = (struct conf){n, big[o], b}; }
}
int vp_nconfigs(void) { mk(); return nC + 2; }
void vp_config_name(int c, char *o, size_t n) { mk(); if( c >= nC ) snprintf(o, n, c==nC? "ladder" : "beyond 32 bits"); else snprintf(o, n, "%s-%dx%zu", C[c].buf? "buffer" : "heap", C[c].n, C[c].obj); }
int vp_config_shards(int c) { mk(); return c==nC? 4 : 1; }
static int cfg; static size_t rsz;
static struct HarbolObjPool P; static uint8_t *raw, *blk[8]; static uint8_t fill[8]; static int N, live; static uint8_t ctr;
static uint8_t *base;
static void verify(void) {
	int k = 0; for( int i=0; i < N; i++ ) if( blk[i] ) {
		k++;
		for( size_t b=0; b < C[cfg].obj; b++ ) CHECK(blk[i][b]==fill[i], "live block %d lost its data at byte %zu", i, b);
	}
	CHECK(k==live, "internal");
	CHECK(P.free_blocks==(size_t)(N - live), "pool says %zu free, %d are", P.free_blocks, N-live);
}
static void begin(void) {
	N = C[cfg].n; rsz = (C[cfg].obj + 7) / 8 * 8; live = 0; ctr = 1; memset(blk, 0, sizeof blk); raw = NULL; memset(&P, 0, sizeof P);
	bool ok = false;
	CHECK(!harbol_objpool_init(&P, SIZE_MAX, 1) && !harbol_objpool_init(&P, SIZE_MAX-6, 2) && !harbol_objpool_init(&P, SIZE_MAX/2, 3), "a pool larger than memory was accepted");
	CHECK(!harbol_objpool_init(&P, 0, 3) && !harbol_objpool_init(&P, 8, 0), "empty pool accepted");
	memset(&P, 0, sizeof P);
	if( C[cfg].buf ) {
		raw = __real_malloc(rsz * (size_t)N); memset(raw, 0xC7, rsz * (size_t)N);
		CHECK(!harbol_objpool_init_from_buffer(&P, raw, 7, (size_t)N), "objects too small for the free list accepted");
		CHECK(!harbol_objpool_init_from_buffer(&P, raw, 9, (size_t)N), "object size that does not fit the buffer when aligned accepted");
		memset(&P, 0, sizeof P);
		if( N & 1 ) P = harbol_objpool_from_buffer(raw, C[cfg].obj, (size_t)N, &ok); else ok = harbol_objpool_init_from_buffer(&P, raw, C[cfg].obj, (size_t)N);
	} else if( N & 1 ) P = harbol_objpool_make(C[cfg].obj, (size_t)N, &ok); else ok = harbol_objpool_init(&P, C[cfg].obj, (size_t)N);
	CHECK(ok, "construction failed");
	base = (uint8_t*)P.mem; if( raw ) CHECK(base==raw, "pool is not over the given buffer");
	verify();
}
enum { ALLOC, FREE0, CLEAN0 = FREE0+8, BADNULL = CLEAN0+8, BADEND, BADFAR, BADBEFORE, BADLOW, NOPS };
static void opname(uint32_t o, char *b, size_t n) {
	if( o==ALLOC ) snprintf(b, n, "alloc"); else if( o < CLEAN0 ) snprintf(b, n, "free(block %u)", o-FREE0); else if( o < BADNULL ) snprintf(b, n, "cleanup(block %u)", o-CLEAN0);
	else snprintf(b, n, "free(%s)", (char const*[]){"NULL","one past the pool","far past","just before","address 8"}[o-BADNULL]);
}
static int apply(uint32_t o, bool check) {
	(void)check;
	if( o==ALLOC ) {
		uint8_t *p = harbol_objpool_alloc(&P);
		if( live==N ) { CHECK(p==NULL, "allocation from a full pool succeeded"); }
		else {
			CHECK(p != NULL, "allocation failed with %d of %d blocks live", live, N);
			CHECK(p >= base && p + C[cfg].obj <= base + rsz*(size_t)N, "block outside the pool");
			CHECK((uintptr_t)p % sizeof(size_t)==0, "block misaligned");
			for( int i=0; i < N; i++ ) if( blk[i] ) CHECK(p + C[cfg].obj <= blk[i] || blk[i] + C[cfg].obj <= p, "block overlaps live block %d", i);
			for( size_t b=0; b < C[cfg].obj; b++ ) CHECK(p[b]==0, "block not zero-filled at byte %zu", b);
			int i = 0; while( blk[i] ) i++;
			blk[i] = p; fill[i] = ctr = (uint8_t)(ctr % 200 + 1); memset(p, fill[i], C[cfg].obj); live++;
		}
	} else if( o < CLEAN0 ) { int i = (int)o-FREE0; if( i >= N || !blk[i] ) return 0; harbol_objpool_free(&P, blk[i]); blk[i] = NULL; live--; }
	else if( o < BADNULL ) { int i = (int)o-CLEAN0; if( i >= N || !blk[i] ) return 0; void *r = blk[i]; harbol_objpool_cleanup(&P, &r); CHECK(r==NULL, "cleanup left the reference"); harbol_objpool_cleanup(&P, &r); blk[i] = NULL; live--; }
	else {
		struct HarbolObjPool before = P;
		void *p = o==BADNULL? NULL : o==BADEND? base + rsz*(size_t)N : o==BADFAR? base + rsz*(size_t)(N+1) : o==BADBEFORE? base - rsz : (void*)8;
		harbol_objpool_free(&P, p);
		CHECK(before.free_blocks==P.free_blocks && before.next==P.next && before.size==P.size && before.objsize==P.objsize && before.mem==P.mem, "freeing a pointer that is not the pool's changed the pool");
	}
	verify();
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf,0,cap};
	for( int i=0; i < N; i++ ) vp_put64(&b, blk[i]? (uint64_t)(blk[i]-base) : 999999);
	vp_put64(&b, P.next? P.next - P.mem : UINT64_MAX); vp_put64(&b, P.free_blocks);
	/* order of the free list as the pool threads it through free blocks */
	uintptr_t n = P.next; for( size_t k=0; k < P.free_blocks && n; k++ ) { size_t ix = *(size_t*)n; vp_put64(&b, ix); n = ix < (size_t)N? P.mem + ix*P.objsize : 0; }
	return b.n;
}
static void end(void) {
	/* drain and refill: all N blocks must be available again */
	for( int i=0; i < N; i++ ) if( blk[i] ) { harbol_objpool_free(&P, blk[i]); blk[i] = NULL; live--; }
	uint8_t *q[8]; for( int i=0; i < N; i++ ) { q[i] = harbol_objpool_alloc(&P); CHECK(q[i] != NULL, "only %d of %d blocks available after freeing all", i, N); for( int j=0; j < i; j++ ) CHECK(q[i] != q[j], "same block handed out twice"); }
	CHECK(harbol_objpool_alloc(&P)==NULL, "more than %d blocks", N);
	if( raw ) __real_free(raw); else { harbol_objpool_clear(&P); CHECK(P.mem==0 && P.size==0 && harbol_objpool_alloc(&P)==NULL, "cleared pool still usable"); harbol_objpool_clear(&P); }
}
static struct vp_sys sys = {NOPS, begin, apply, canon, end, opname};

/* ---- ladder: pools of many objects, every freeing order, partial refills ---- */
static int order(int o, int k, int n) {
	switch( o ) { case 0: return n-1-k; case 1: return k; case 2: { int ev = (n+1)/2; return k < ev? 2*k : 2*(k-ev)+1; } case 3: { int m = n/2; return k & 1? m - 1 - k/2 : m + k/2; } default: { int st = n % 3? 3 : n % 7? 7 : n % 11? 11 : 1; return (int)(((long)k * st) % n); } }
}
static uint8_t **LP, *LF; static size_t Ln, Lo; static int Llive;
static void lalloc(int id) {
	uint8_t *p = harbol_objpool_alloc(&P); if( Llive==(int)Ln ) { CHECK(p==NULL, "allocation from a full pool succeeded"); return; }
	CHECK(p, "allocation failed with %d of %zu blocks live", Llive, Ln); CHECK(p >= base && p + Lo <= base + rsz*Ln, "block outside the pool"); CHECK((size_t)(p-base) % rsz==0, "block overlaps its neighbour"); size_t i = (size_t)(p-base)/rsz;
	CHECK(LP[i]==NULL, "block %zu is handed out while it is live", i); for( size_t b=0; b < Lo; b++ ) CHECK(p[b]==0, "block %zu not zero-filled at byte %zu", i, b);
	LP[i] = p; LF[i] = (uint8_t)(id*13 + 1); for( size_t b=0; b < Lo; b++ ) p[b] = (uint8_t)(LF[i] + b*3); Llive++; CHECK(P.free_blocks==Ln - (size_t)Llive, "pool says %zu free, %zu are", P.free_blocks, Ln - (size_t)Llive);
}
static void lfree(size_t i, bool cl) { if( !LP[i] ) return; for( size_t b=0; b < Lo; b++ ) CHECK(LP[i][b]==(uint8_t)(LF[i] + b*3), "block %zu lost its data at byte %zu", i, b); if( cl ) { void *r = LP[i]; harbol_objpool_cleanup(&P, &r); CHECK(r==NULL, "cleanup left the reference"); } else harbol_objpool_free(&P, LP[i]); LP[i] = NULL; Llive--; CHECK(P.free_blocks==Ln - (size_t)Llive, "pool says %zu free, %zu are", P.free_blocks, Ln - (size_t)Llive); }
static void lall(void) { for( size_t i=0; i < Ln; i++ ) if( LP[i] ) for( size_t b=0; b < Lo; b++ ) CHECK(LP[i][b]==(uint8_t)(LF[i] + b*3), "block %zu lost its data at byte %zu", i, b); }
static void lcase(size_t n, size_t os, int o, int b) {
	Ln = n; Lo = os; rsz = (os+7)/8*8; Llive = 0; LP = __real_calloc(n, sizeof *LP); LF = __real_calloc(n, 1); memset(&P, 0, sizeof P); bool ok; raw = NULL;
	if( b ) { raw = __real_malloc(rsz*n); memset(raw, 0xC7, rsz*n); ok = harbol_objpool_init_from_buffer(&P, raw, os, n); } else ok = harbol_objpool_init(&P, os, n);
	CHECK(ok, "construction failed"); base = (uint8_t*)P.mem;
	for( size_t i=0; i < n; i++ ) lalloc((int)i); lalloc(0); lall();
	for( size_t k=0; k < n; k++ ) { lfree((size_t)order(o, (int)k, (int)n), k & 1); if( k % 3==0 ) lalloc((int)(k+n)); } lall();
	while( (size_t)Llive < n ) lalloc(Llive + 7); lalloc(0); lall();
	for( size_t k=0; k < n/2; k++ ) lfree((size_t)order((o+1)%5, (int)k, (int)n), false);
	for( size_t k=0; k < n/4; k++ ) lalloc((int)k); lall();
	for( size_t k=0; k < n; k++ ) lfree((size_t)order((o+2)%5, (int)k, (int)n), false); CHECK(Llive==0, "internal");
	for( size_t k=0; k < n; k++ ) lalloc((int)k); lalloc(0); lall();
	if( raw ) __real_free(raw); else harbol_objpool_clear(&P); __real_free(LP); __real_free(LF);
}
static void lrun(uint32_t n, uint32_t os, uint32_t o, uint32_t b) { uint32_t t[4] = {n, os, o, b}; if( !vp_case(t, 4) ) return; vp_note("%u objects of %u, order %u, %s", n, os, o, b? "over a buffer" : "heap"); lcase(n, os, (int)o, (int)b); vp_case_done(); }
static void ladder(void) {
	static uint32_t const N[] = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,20,24,31,32,33,48,63,64,65,100,127,128,129,200,255,256,257,300,511,512,513,1000,1023,1024,1025,4095,4096,4097,10000,32767,32768,65535,65536,65537,70000}, S[] = {1,4,7,8,9,15,16,17,24,31,32,33,40,56,64,65,100,255,256,257,1024,4096};
	int x = 0; for( unsigned a=0; a < sizeof N/sizeof *N; a++ ) for( unsigned b=0; b < sizeof S/sizeof *S; b++ ) for( uint32_t o=0; o < 5; o++ ) for( uint32_t h=0; h < 2; h++ ) {
		if( h && S[b] % 8 ) continue; if( (size_t)N[a]*((S[b]+7)/8*8) > (vp_tier? 8000000u : 1200000u) ) continue; if( N[a] > 600 && !vp_tier && (a + b + o + h) % 4 ) continue;
		if( x++ % vp_nshards==vp_shard ) lrun(N[a], S[b], o, h); }
}
/* ---- a pool beyond 4 GiB ---- */
#include <sys/mman.h>
static void gone(uint32_t heap, uint32_t ord) {
	uint32_t t[2] = {heap, ord}; if( !vp_case(t, 2) ) return; enum { G = 18 }; size_t const os = ((size_t)1 << 28) + (ord? 8 : 0); uint8_t *q[G] = {0}, *map = NULL; bool ok = false; memset(&P, 0, sizeof P); vp_sparse = true;
	if( heap ) ok = harbol_objpool_init(&P, os, G); else { map = vp_sparse_map(os * G); if( map ) { ok = harbol_objpool_init_from_buffer(&P, map, os, G); CHECK(ok, "a pool of %d objects of %zu bytes over a buffer is refused", G, os); } }
	if( !ok ) { vp_capped("no address space for pools beyond 4 GiB"); vp_case_done(); return; }
	uint8_t *b0 = (uint8_t *)P.mem; int live = 0;
	for( int k=0; k < G + 6 + 4; k++ ) {
		if( k==G ) { CHECK(!harbol_objpool_alloc(&P), "allocation from a full pool succeeded"); static int const F[2][4] = {{17, 0, 16, 5}, {3, 15, 16, 17}}; for( int i=0; i < 4; i++ ) { int x = F[ord & 1][i]; CHECK(q[x][0]==(uint8_t)(x+1) && q[x][os-1]==(uint8_t)(x+1), "block %d lost its data", x); harbol_objpool_free(&P, b0 + os*G); harbol_objpool_free(&P, q[x]); q[x] = NULL; live--; CHECK(P.free_blocks==(size_t)(G - live), "pool says %zu free, %d are", P.free_blocks, G-live); } }
		if( live==G ) { CHECK(!harbol_objpool_alloc(&P), "allocation from a full pool succeeded"); continue; }
		uint8_t *p = harbol_objpool_alloc(&P); CHECK(p && p >= b0 && p + os <= b0 + os*G && (size_t)(p-b0) % os==0, "a block is refused, outside the pool or overlaps another"); int x = (int)((size_t)(p-b0)/os); CHECK(!q[x], "block %d is handed out while it is live", x);
		for( size_t i=0; i < 4096; i++ ) CHECK(!p[i] && !p[os-1-i] && !p[os/4096*i], "block %d not zero-filled", x);
		q[x] = p; live++; madvise(p + (4096 - (uintptr_t)p % 4096), os - 8192, MADV_DONTNEED); p[0] = p[os-1] = (uint8_t)(x+1); CHECK(P.free_blocks==(size_t)(G - live), "pool says %zu free, %d are", P.free_blocks, G-live);
		for( int i=0; i < G; i++ ) if( q[i] ) CHECK(q[i][0]==(uint8_t)(i+1) && q[i][os-1]==(uint8_t)(i+1), "block %d lost its data", i);
	}
	CHECK(live==G, "only %d of %d blocks could be handed out", live, G); if( heap ) harbol_objpool_clear(&P); else vp_sparse_unmap(map); memset(&P, 0, sizeof P); vp_sparse = false; vp_case_done();
}
static void giant(void) { for( uint32_t h=0; h < 2; h++ ) for( uint32_t o=0; o < 2; o++ ) if( vp_tier || h != o ) gone(h, o); }
void vp_explore(int c) { mk(); if( c==nC+1 ) { giant(); return; } if( c >= nC ) { ladder(); return; } cfg = c; vp_bfs(&sys, 1000, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { mk(); if( c==nC+1 ) { gone(t[0], t[1]); return; } if( c >= nC ) { if( l==4 ) lrun(t[0], t[1], t[2], t[3]); return; } cfg = c; vp_replay_hist(&sys, t, l); }
