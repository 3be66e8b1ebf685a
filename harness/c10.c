/* C10: memory pool. All reachable pool states under alloc/realloc/free, compared with a list of live blocks. */
#include "vp.h"
#include "allocators/mempool/mempool.h"
char const *const vp_property = "C10";
struct conf { char const *name; size_t pool; int buf; int ns; size_t sz[6]; int dq, dt; bool re; };
static struct conf const C[] = {
	{"same32", 320, 0, 1, {8}, 60, 60, false},
	{"same104", 640, 1, 1, {80}, 60, 60, false},
	{"two-buckets", 256, 1, 2, {8,24}, 40, 60, false},
	{"bucket+large", 400, 0, 2, {8,80}, 11, 40, false},
	{"large", 900, 0, 3, {80,100,200}, 8, 14, false},
	{"mixed", 360, 1, 4, {1,16,40,72}, 8, 12, false},
	{"realloc", 400, 0, 3, {8,40,90}, 7, 9, true},
	{"realloc-tight", 256, 1, 2, {8,32}, 9, 40, true},
	{"odd-sizes", 301, 0, 4, {1,7,9,33}, 6, 8, true},
	{"tiny", 33, 0, 2, {1,8}, 20, 20, true},
	{"split", 700, 0, 3, {8,60,300}, 8, 12, false},
};
enum { NC = sizeof C / sizeof *C, NL = 5 };
int vp_nconfigs(void) { return NC + NL; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) snprintf(o, n, "ladder-%s", (char const*[]){"free-orders","realloc","churn","free-lists","beyond 32 bits"}[c-NC]); else snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { return c >= NC+3? 1 : c >= NC? 4 : 1; }
static int cfg; enum { ML = 24, HD = sizeof(struct HarbolMemNode) };
static bool freed; static struct HarbolMemPool P; static uint8_t *raw, *rawend; static size_t total;
static struct { uint8_t *p; size_t n; uint8_t f; } B[ML]; static int nB; static uint8_t ctr;
static void *foreign_lo, *foreign_hi; static uint64_t outside[8];
enum { K_ALLOC, K_FREE, K_REALLOC, K_CLEAN, K_BAD };
struct op { uint8_t k, i, s; }; static struct op O[200]; static uint32_t nO;
static void mkops(void) {
	nO = 0; struct conf const *c = &C[cfg];
	for( int s=0; s < c->ns; s++ ) O[nO++] = (struct op){K_ALLOC, 0, (uint8_t)s};
	for( int i=0; i < 12; i++ ) O[nO++] = (struct op){K_FREE, (uint8_t)i, 0};
	if( c->re ) for( int i=0; i < 6; i++ ) { for( int s=0; s < c->ns; s++ ) O[nO++] = (struct op){K_REALLOC, (uint8_t)i, (uint8_t)s}; O[nO++] = (struct op){K_CLEAN, (uint8_t)i, 0}; }
	for( int b=0; b < 14; b++ ) O[nO++] = (struct op){K_BAD, (uint8_t)b, 0};
}
static void opname(uint32_t o, char *b, size_t n) {
	struct op p = O[o]; size_t z = C[cfg].sz[p.s];
	switch( p.k ) { case K_ALLOC: snprintf(b, n, "alloc(%zu)", z); break; case K_FREE: snprintf(b, n, "free(#%d)", p.i); break; case K_REALLOC: snprintf(b, n, "realloc(#%d, %zu)", p.i, z); break; case K_CLEAN: snprintf(b, n, "cleanup(#%d)", p.i); break; default: snprintf(b, n, "refused request %d", p.i); }
}
static struct HarbolMemNode *hd(uint8_t *p) { return (struct HarbolMemNode*)(p - HD); }
static void verify(void) {
	size_t used = 0;
	for( int i=0; i < nB; i++ ) { for( size_t b=0; b < B[i].n; b++ ) CHECK(B[i].p[b]==B[i].f, "block %d (%zu bytes) lost its data at byte %zu", i, B[i].n, b); used += hd(B[i].p)->size; }
	size_t r = harbol_mempool_mem_remaining(&P);
	CHECK(r==total - used, "remaining is %zu: should be %zu (%zu of %zu handed out)", r, total-used, used, total);
}
static int find_slot(void) { return nB; }
/* a new block [p, p+n) must be fresh */
static void fresh(uint8_t *p, size_t n, int except) {
	CHECK((uintptr_t)p % sizeof(intptr_t)==0, "block misaligned");
	CHECK(p - HD >= raw && p + n <= rawend, "block of %zu at %ld leaves the pool of %zu", n, (long)(p-raw), C[cfg].pool);
	CHECK(hd(p)->size >= n + HD && p - HD + hd(p)->size <= rawend, "block's extent leaves the pool");
	for( int i=0; i < nB; i++ ) if( i != except ) CHECK(p + hd(p)->size - HD <= B[i].p - HD || B[i].p - HD + hd(B[i].p)->size <= p - HD, "block of %zu at %ld overlaps live block %d (%zu at %ld)", n, (long)(p-raw), i, B[i].n, (long)(B[i].p-raw));
}
static void begin(void) {
	size_t S = C[cfg].pool; memset(&P, 0, sizeof P); bool ok; nB = 0; ctr = 0; freed = false;
	if( C[cfg].buf ) {
		raw = __real_malloc(S); memset(raw, 0xC7, S);
		if( S & 2 ) P = harbol_mempool_make_from_buffer(raw, S, &ok); else ok = harbol_mempool_init_from_buffer(&P, raw, S);
	} else { if( S & 4 ) P = harbol_mempool_make(S, &ok); else ok = harbol_mempool_init(&P, S); raw = P.stack.mem; memset(raw, 0xC7, S); }
	CHECK(ok && raw, "construction failed"); rawend = raw + S;
	total = harbol_mempool_mem_remaining(&P); CHECK(total <= S && total + 8 > S, "fresh pool of %zu reports %zu remaining", S, total);
}
static void reuse(size_t n) { /* what was just freed can be handed out again (and is given back) */
	uint8_t *q = harbol_mempool_alloc(&P, n); CHECK(q != NULL, "a block of %zu was freed but a request of the same size is refused", n);
	for( size_t b=0; b < n; b++ ) CHECK(q[b]==0, "recycled block not zero-filled at byte %zu", b);
	fresh(q, n, -1); CHECK(harbol_mempool_free(&P, q), "free failed");
}
static size_t lastfree;
static int apply(uint32_t o, bool check) {
	(void)check; struct op const p = O[o]; lastfree = 0;
	switch( p.k ) {
	case K_ALLOC: {
		if( nB==ML ) return 0;
		size_t n = C[cfg].sz[p.s]; uint8_t *q = nB & 1? harbol_mempool_realloc(&P, NULL, n) : harbol_mempool_alloc(&P, n); /* reallocating nothing allocates */
		if( q==NULL ) { CHECK(nB > 0 || n + HD > total - 8 || harbol_mempool_mem_remaining(&P) != total || P.stack.offs < total, "request of %zu refused by an untouched pool of %zu", n, total); CHECK(harbol_region_remaining(&P.stack) < (n+HD+7)/8*8, "request of %zu refused though %zu bytes were never handed out", n, harbol_region_remaining(&P.stack)); break; }
		for( size_t b=0; b < n; b++ ) CHECK(q[b]==0, "new block of %zu not zero-filled at byte %zu", n, b);
		fresh(q, n, -1);
		int i = find_slot(); B[i].p = q; B[i].n = n; B[i].f = (uint8_t)(++ctr | 0x80); memset(q, B[i].f, n); nB++;
	} break;
	case K_FREE: case K_CLEAN: {
		if( p.i >= nB ) return 0; freed = true;
		size_t n = B[p.i].n;
		if( p.k==K_FREE ) CHECK(harbol_mempool_free(&P, B[p.i].p), "free of a live block failed");
		else { void *r = B[p.i].p; CHECK(harbol_mempool_cleanup(&P, &r) && r==NULL, "cleanup of a live block failed"); CHECK(!harbol_mempool_cleanup(&P, &r), "cleanup of NULL succeeded"); }
		memmove(&B[p.i], &B[p.i+1], (size_t)(nB-p.i-1)*sizeof *B); nB--;
		lastfree = n;
	} break;
	case K_REALLOC: {
		if( p.i >= nB ) return 0; freed = true;
		size_t n = C[cfg].sz[p.s], old = B[p.i].n; uint8_t f = B[p.i].f, *was = B[p.i].p;
		uint8_t *q = harbol_mempool_realloc(&P, was, n);
		if( q==NULL ) { verify(); CHECK(harbol_mempool_alloc(&P, n)==NULL, "realloc of %zu to %zu is refused though a new block of %zu is granted", old, n, n); break; }
		fresh(q, n, p.i);
		for( size_t b=0; b < n && b < old; b++ ) CHECK(q[b]==f, "realloc %zu to %zu: byte %zu is wrong", old, n, b);
		B[p.i].p = q; B[p.i].n = n; B[p.i].f = (uint8_t)(++ctr | 0x80); memset(q, B[p.i].f, n);
	} break;
	case K_BAD: {
		void *x = (void*)1; size_t r0 = harbol_mempool_mem_remaining(&P), o0 = P.stack.offs; bool refused = true;
		switch( p.i ) {
		case 0: refused = harbol_mempool_alloc(&P, 0)==NULL; break;
		case 1: refused = harbol_mempool_alloc(&P, C[cfg].pool)==NULL; break;
		case 2: refused = harbol_mempool_alloc(&P, C[cfg].pool+1)==NULL; break;
		case 3: refused = harbol_mempool_alloc(&P, SIZE_MAX)==NULL; break;
		case 4: refused = harbol_mempool_alloc(&P, SIZE_MAX-24)==NULL; break;
		case 5: refused = !harbol_mempool_free(&P, NULL); break;
		case 6: refused = !harbol_mempool_free(&P, raw-64); break;
		case 7: refused = !harbol_mempool_free(&P, raw); break;
		case 8: refused = !harbol_mempool_free(&P, rawend + HD); break;
		case 9: refused = !harbol_mempool_free(&P, rawend + 4096); break;
		case 10: refused = harbol_mempool_realloc(&P, rawend + 4096, 8)==NULL; break;
		case 11: refused = harbol_mempool_realloc(&P, raw - 64, 8)==NULL; break;
		case 12: if( nB==0 ) return 0; refused = harbol_mempool_realloc(&P, B[0].p, C[cfg].pool)==NULL; break;
		case 13: if( nB==0 ) return 0; refused = harbol_mempool_realloc(&P, B[0].p, SIZE_MAX)==NULL; break;
		}
		(void)x; CHECK(refused, "request %d (foreign, null or oversized) was not refused", p.i);
		CHECK(harbol_mempool_mem_remaining(&P)==r0 && P.stack.offs==o0, "a refused request changed the pool");
	} break;
	}
	verify(); return 1;
}
static void put_list(struct vp_buf *b, struct HarbolFreeList *l) {
	vp_put64(b, 0xFEED); int k = 0; for( struct HarbolMemNode *n = l->head; n; n = n->next ) { CHECK(++k < 100, "free list runs into a cycle"); vp_put64(b, (uint64_t)((uint8_t*)n - raw)); vp_put64(b, n->size); }
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf,0,cap}; vp_put64(&b, P.stack.offs); put_list(&b, &P.large); for( int i=0; i < HARBOL_BUCKET_SIZE; i++ ) put_list(&b, &P.buckets[i]);
	/* live blocks sorted by address: which index names them does not matter to the pool */
	uint64_t a[ML][2]; for( int i=0; i < nB; i++ ) { int j = i; uint64_t x = (uint64_t)(B[i].p - raw), y = B[i].n; while( j > 0 && a[j-1][0] > x ) { a[j][0] = a[j-1][0]; a[j][1] = a[j-1][1]; j--; } a[j][0] = x; a[j][1] = y; }
	for( int i=0; i < nB; i++ ) { vp_put64(&b, a[i][0]); vp_put64(&b, a[i][1]); vp_put64(&b, hd(raw + a[i][0])->size); }
	return b.n;
}
static void end(void) {
	if( lastfree ) { reuse(lastfree); verify(); lastfree = 0; }
	if( !freed ) { /* freeing in reverse order of allocation gives everything back */
		while( nB ) { CHECK(harbol_mempool_free(&P, B[nB-1].p), "free failed"); nB--; verify(); }
		if( total > HD ) { uint8_t *q = harbol_mempool_alloc(&P, total - HD); CHECK(q != NULL, "after freeing every block in reverse order, the pool cannot serve its whole capacity"); for( size_t b=0; b < total-HD; b++ ) CHECK(q[b]==0, "block not zero-filled"); CHECK(harbol_mempool_free(&P, q), "free failed"); }
	}
	while( nB ) { CHECK(harbol_mempool_free(&P, B[nB/2].p), "free failed"); memmove(&B[nB/2], &B[nB/2+1], (size_t)(nB-nB/2-1)*sizeof *B); nB--; verify(); }
	if( C[cfg].buf ) __real_free(raw); else { harbol_mempool_clear(&P); CHECK(P.stack.mem==NULL && harbol_mempool_alloc(&P, 1)==NULL, "cleared pool still usable"); }
}
static struct vp_sys sys = {0, begin, apply, canon, end, opname};

/* ---- ladder: many blocks, large sizes, every freeing order ---- */
enum { LB = 1100 };
static struct { uint8_t *p; size_t n; uint8_t f; } L[LB]; static int nL; static uint16_t *own; static size_t Lsz;
static uint8_t *lraw; static bool lheap;
static size_t const LS[] = {1,2,7,8,9,15,16,17,24,25,31,32,33,39,40,41,47,48,49,56,57,63,64,65,72,100,127,128,200,255,256,257,500,1000,1024,4096,5000,65512,65520,65528,65535,65536,65537,100000,131048,131056};
static int const LN[] = {1,2,3,4,5,6,7,8,9,12,16,17,31,33,64,65,100,255,256,257,300,1000};
static size_t lused; 
static void mark(uint8_t *q, uint16_t v, uint16_t was) { size_t a = (size_t)(q - HD - lraw)/8, b = a + hd(q)->size/8; for( size_t i=a; i < b; i++ ) { CHECK(own[i]==was, "block at %ld overlaps live block %d at byte %zu", (long)(q-lraw), own[i]-1, i*8); own[i] = v; } if( v ) lused += hd(q)->size; else lused -= hd(q)->size; }
static void lfill(int i) { size_t n = L[i].n; for( size_t b=0; b < n; b++ ) L[i].p[b] = (uint8_t)(L[i].f + b*7); }
static void lcheck1(int i, size_t upto, uint8_t *p) { for( size_t b=0; b < upto; b++ ) CHECK(p[b]==(uint8_t)(L[i].f + b*7), "block %d of %zu bytes lost its data at byte %zu", i, L[i].n, b); }
static void lremaining(void) { size_t r = harbol_mempool_mem_remaining(&P); CHECK(r==total - lused, "remaining is %zu: should be %zu", r, total - lused); }
static void lstart(size_t S) {
	memset(&P, 0, sizeof P); bool ok; Lsz = S; nL = 0; lused = 0; lheap = S & 8;
	if( lheap ) { ok = harbol_mempool_init(&P, S); lraw = P.stack.mem; } else { lraw = __real_malloc(S); ok = harbol_mempool_init_from_buffer(&P, lraw, S); }
	CHECK(ok, "construction failed"); memset(lraw, 0xC7, S); own = __real_calloc(S/8 + 2, sizeof *own); total = harbol_mempool_mem_remaining(&P); CHECK(total <= S && total + 8 > S, "fresh pool of %zu reports %zu remaining", S, total);
}
static bool lalloc(int i, size_t n, bool must) {
	uint8_t *q = harbol_mempool_alloc(&P, n); if( q==NULL ) { CHECK(!must, "request of %zu refused though %zu of %zu are free in one piece", n, total-lused, total); return false; }
	CHECK((uintptr_t)q % sizeof(intptr_t)==0, "block misaligned"); CHECK(q - HD >= lraw && q - HD + hd(q)->size <= lraw + Lsz && hd(q)->size >= n + HD, "block of %zu leaves the pool", n);
	for( size_t b=0; b < n; b++ ) CHECK(q[b]==0, "new block of %zu not zero-filled at byte %zu", n, b);
	mark(q, (uint16_t)(i+1), 0); L[i].p = q; L[i].n = n; L[i].f = (uint8_t)(i*31 + 5); lfill(i); return true;
}
static void lfree(int i) { lcheck1(i, L[i].n, L[i].p); mark(L[i].p, 0, (uint16_t)(i+1)); CHECK(harbol_mempool_free(&P, L[i].p), "free of live block %d failed", i); L[i].p = NULL; }
static void lallcheck(int n) { for( int i=0; i < n; i++ ) if( L[i].p ) lcheck1(i, L[i].n, L[i].p); lremaining(); }
static void lend(void) { if( lheap ) harbol_mempool_clear(&P); else __real_free(lraw); __real_free(own); }
static size_t need(size_t s) { return (s + HD + 7)/8*8; }
static size_t lsize(int i, size_t s, int mix) { return mix==0? s : mix==1? (i & 1? s : s + 8) : mix==2? s + (size_t)(i*37 % 13)*9 : (size_t)(i % 11)*8 + 1 + (i % 17==0? s : 0); }
/* the k-th block to be freed */
static int order(int o, int k, int n) {
	switch( o ) { case 0: return n-1-k; case 1: return k; case 2: { int ev = (n+1)/2; return k < ev? 2*k : 2*(k-ev)+1; } case 3: { int od = n/2; return k < od? n-1-((n-1)%2==0? 1:0) - 2*k : n-1-((n-1)%2==0? 0:1) - 2*(k-od); }
	case 4: { int m = n/2; return k & 1? m - 1 - k/2 : m + k/2; } default: { int st = n % 3? 3 : n % 7? 7 : n % 11? 11 : 1; return (int)(((long)k * st) % n); } }
}
static void lcase(uint32_t kind, int n, size_t s, int mix, int o) {
	size_t want = 0; for( int i=0; i < n; i++ ) want += need(lsize(i, s, mix));
	if( kind==0 ) {
		lstart(want + (size_t)(mix*8 % 24)); for( int i=0; i < n; i++ ) lalloc(i, lsize(i, s, mix), true); lallcheck(n);
		if( want==Lsz ) CHECK(harbol_mempool_alloc(&P, 1)==NULL, "a full pool grants a request");
		for( int k=0; k < n; k++ ) { int i = order(o, k, n); CHECK(L[i].p, "internal"); size_t z = L[i].n; lfree(i); if( k % 7==0 || n < 20 ) { uint8_t *q = harbol_mempool_alloc(&P, z); CHECK(q, "a block of %zu was freed but a request of the same size is refused", z); for( size_t b=0; b < z; b++ ) CHECK(q[b]==0, "recycled block not zero-filled at byte %zu", b); size_t a = (size_t)(q-HD-lraw)/8; for( size_t w=0; w < hd(q)->size/8; w++ ) CHECK(own[a+w]==0, "recycled block overlaps a live one"); memset(q, 0xA5, z); CHECK(harbol_mempool_free(&P, q), "free failed"); } if( k % 16==0 || n < 40 ) lallcheck(n); }
		lremaining(); CHECK(harbol_mempool_mem_remaining(&P)==total, "after freeing everything %zu of %zu remain", harbol_mempool_mem_remaining(&P), total);
		if( o==0 && n < 7 ) { } for( int i=0; i < n; i++ ) lalloc(i, lsize(i, s, mix), false); lallcheck(n); for( int k=0; k < n; k++ ) { int i = order((o+1)%6, k, n); if( L[i].p ) lfree(i); } lremaining();
	} else if( kind==1 ) { /* every block is resized to each of several sizes */
		size_t to[] = {1, s, s+1, s+8, s+33, s*2, s/2+1, 3*s, s-1? s-1 : 1}; lstart(want*4 + 4096);
		for( int i=0; i < n; i++ ) lalloc(i, lsize(i, s, mix), true);
		for( int r=0; r < 9; r++ ) { for( int k=0; k < n; k++ ) { int i = order(o, k, n); size_t z = to[(r + (mix? k : 0)) % 9], old = L[i].n; lcheck1(i, old, L[i].p);
			uint8_t *was = L[i].p; uint64_t oldext = hd(was)->size; size_t rem = harbol_mempool_mem_remaining(&P); uint8_t *q = harbol_mempool_realloc(&P, was, z);
			if( q==NULL ) { CHECK(rem==harbol_mempool_mem_remaining(&P), "a refused reallocation changed the pool"); CHECK(harbol_mempool_alloc(&P, z)==NULL, "realloc of %zu to %zu is refused though a new block is granted", old, z); lcheck1(i, old, L[i].p); continue; }
			CHECK((uintptr_t)q % sizeof(intptr_t)==0 && q - HD >= lraw && q - HD + hd(q)->size <= lraw + Lsz && hd(q)->size >= z + HD, "reallocated block leaves the pool"); lcheck1(i, z < old? z : old, q);
			if( q != was ) { size_t a = (size_t)(was-HD-lraw)/8; for( size_t w=0; w < oldext/8; w++ ) own[a+w] = 0; lused -= oldext; mark(q, (uint16_t)(i+1), 0); }
			else if( hd(q)->size != oldext ) { size_t a = (size_t)(was-HD-lraw)/8; for( size_t w=0; w < oldext/8; w++ ) own[a+w] = 0; lused -= oldext; mark(q, (uint16_t)(i+1), 0); }
			L[i].p = q; L[i].n = z; L[i].f = (uint8_t)(L[i].f + 11); lfill(i); } lallcheck(n); }
		for( int k=0; k < n; k++ ) lfree(order((o+2)%6, k, n)); lremaining();
	} else { /* a long run of frees and requests over a pool that holds about half of what is asked for */
		lstart(want/2 + 512 + want % 8); memset(L, 0, sizeof L); uint32_t x = (uint32_t)(s*7 + (size_t)o*131 + 1); int steps = n*6 + 40;
		for( int k=0; k < steps; k++ ) { x = x*1664525u + 1013904223u; int i = (int)((x >> 16) % (uint32_t)n); size_t z = lsize((int)(x >> 9) % 97, s, mix);
			if( L[i].p ) { if( k % 3 ) { size_t f = L[i].n; lfree(i); if( k % 5==0 ) { CHECK(lalloc(i, f, false), "a block of %zu was freed but a request of the same size is refused", f); } } } else lalloc(i, z, false);
			if( k % 32==0 || n < 40 ) lallcheck(n); }
		lallcheck(n); for( int i=0; i < n; i++ ) if( L[i].p ) lfree(i); lremaining(); CHECK(lused==0, "internal");
	}
	memset(L, 0, sizeof L); lend();
}
static void lrun(uint32_t k, int n, size_t s, int mix, int o) { uint32_t t[5] = {k, (uint32_t)n, (uint32_t)s, (uint32_t)mix, (uint32_t)o}; if( !vp_case(t, 5) ) return; vp_note("kind %u: %d blocks of about %zu, mix %d, order %d", k, n, s, mix, o); lcase(k, n, s, mix, o); vp_case_done(); }
static void ladder(uint32_t k) {
	int x = 0; size_t lim = vp_tier? 3000000 : 600000;
	for( unsigned a=0; a < sizeof LN/sizeof *LN; a++ ) for( unsigned b=0; b < sizeof LS/sizeof *LS; b++ ) for( int mix=0; mix < 4; mix++ ) for( int o=0; o < 6; o++ ) {
		if( (size_t)LN[a]*(LS[b]+60) > lim ) continue; if( !vp_tier && LN[a] > 200 && (b + (unsigned)mix + (unsigned)o) % 5 ) continue; if( !vp_tier && LN[a] > 30 && (b*6 + (unsigned)mix*2 + (unsigned)o) % 4 ) continue; if( !vp_tier && LS[b] > 30000 && (a + (unsigned)mix + (unsigned)o) % 3 ) continue;
		if( x++ % vp_nshards==vp_shard ) lrun(k, LN[a], LS[b], mix, o);
	}
}
/* ---- the free-list functions by themselves: a list over an arena of cells, and the cells it should hold ---- */
enum { FC = 7, CELL = 64 }; static _Alignas(64) uint8_t farena[FC * CELL]; static struct HarbolFreeList FL; static struct HarbolMemPool FP; static bool fin[FC]; static int fnodes;
static struct HarbolMemNode *fcell(int i) { return (struct HarbolMemNode *)(farena + i*CELL); }
static struct HarbolMemNode *fkth(int k) { struct HarbolMemNode *n = FL.head; while( n && k-- ) n = n->next; return n; }
static int fpos(struct HarbolMemNode const *n) { size_t o = (size_t)((uint8_t const *)n - farena); CHECK((uint8_t const *)n >= farena && o < sizeof farena && o % CELL==0, "a node where none can be"); return (int)(o / CELL); }
static int flen(struct HarbolMemNode const *n) { CHECK(n->size && n->size % CELL==0 && fpos(n) + n->size/CELL <= FC, "a node of impossible size %zu", n->size); return (int)(n->size / CELL); }
static void fset(int i, int l, bool to) { for( int k=i; k < i+l; k++ ) { CHECK(k < FC && fin[k] != to, "the free list %s cell %d", to? "already holds" : "does not hold", k); fin[k] = to; } }
static void fcheck(void) {
	bool got[FC] = {0}; struct HarbolMemNode *prev = NULL; int last = 0, k = 0;
	for( struct HarbolMemNode *n = FL.head; n; prev = n, n = n->next ) { CHECK(++k <= FC, "the free list runs into a cycle"); int i = fpos(n), l = flen(n); CHECK(i >= last, "the free list is out of order or overlaps at cell %d", i); CHECK(n->prev==prev, "cell %d: the backward link is wrong", i); last = i+l; for( int x=i; x < i+l; x++ ) got[x] = true; }
	for( int x=0; x < FC; x++ ) CHECK(got[x]==fin[x], "cell %d %s the free list", x, got[x]? "should not be in" : "is missing from");
}
static void fbegin(void) { memset(farena, 0xA5, sizeof farena); memset(&FL, 0, sizeof FL); memset(&FP, 0, sizeof FP); memset(fin, 0, sizeof fin); }
static bool frange(int i, int l) { if( i+l > FC ) return false; for( int k=i; k < i+l; k++ ) if( fin[k] ) return false; return true; }
static struct HarbolMemNode *ffresh(int i, int l) { struct HarbolMemNode *n = fcell(i); memset(n, 0, sizeof *n); n->size = (size_t)l * CELL; return n; }
enum { FO_INS = 0, FO_RM = FC*3, FO_FIND = FO_RM + FC, FO_BEFORE = FO_FIND + 5, FO_REPL = FO_BEFORE + FC*2, FO_N = FO_REPL + FC*2 };
static void fname(uint32_t o, char *b, size_t n) { if( o < FO_RM ) snprintf(b, n, "insert cell %u, length %u", o%FC, o/FC+1); else if( o < FO_FIND ) snprintf(b, n, "remove node %u", o-FO_RM); else if( o < FO_BEFORE ) snprintf(b, n, "find %u bytes", (o-FO_FIND)*48+32); else if( o < FO_REPL ) snprintf(b, n, "insert cell %u, length %u before the node after it", (o-FO_BEFORE)%FC, (o-FO_BEFORE)/FC+1); else snprintf(b, n, "replace the node after cell %u by a node there, length %u", (o-FO_REPL)%FC, (o-FO_REPL)/FC+1); }
static int fapply(uint32_t o, bool check) {
	(void)check; struct HarbolMemNode *n;
	if( o < FO_RM ) { int i = (int)o % FC, l = (int)o / FC + 1; if( !frange(i, l) ) return 0; n = ffresh(i, l); harbol_freelist_insert(&FP, &FL, n, false); fset(i, l, true); }
	else if( o < FO_FIND ) { n = fkth((int)(o-FO_RM)); if( !n ) return 0; int i = fpos(n), l = flen(n); struct HarbolMemNode *r = harbol_freelist_remove(&FL, n); CHECK(r==n && flen(r)==l && !r->next && !r->prev, "remove gives back something else or leaves links"); fset(i, l, false); }
	else if( o < FO_BEFORE ) { size_t want = (o-FO_FIND)*64 + 64; bool can = false; for( n = FL.head; n; n = n->next ) can |= n->size >= want; n = harbol_freelist_find(&FL, want); CHECK((n != NULL)==can, "find(%zu) %s", want, can? "misses a node large enough" : "invents a node"); if( !n ) { fcheck(); return 1; } CHECK(n->size >= want, "find(%zu) gives %zu bytes", want, n->size); fset(fpos(n), flen(n), false); }
	else { bool rep = o >= FO_REPL; uint32_t q = rep? o-FO_REPL : o-FO_BEFORE; int i = (int)(q % FC), l = (int)(q / FC) + 1; if( !frange(i, l) ) return 0; for( n = FL.head; n && fpos(n) < i; n = n->next ); if( !n ) return 0; struct HarbolMemNode *f = ffresh(i, l);
		if( rep ) { int oi = fpos(n), ol = flen(n); bool head = n==FL.head; harbol_memnode_replace(n, f); if( head ) FL.head = f; fset(oi, ol, false); } else harbol_freelist_insert_before(&FL, n, f); fset(i, l, true); }
	fcheck(); return 1;
}
static size_t fcanon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf,0,cap}; for( struct HarbolMemNode *n = FL.head; n; n = n->next ) { vp_put64(&b, (uint64_t)fpos(n)); vp_put64(&b, n->size); } vp_put64(&b, FL.tail? (uint64_t)((uint8_t *)FL.tail - farena) : 1u<<20); return b.n; }
static void fend(void) { while( FL.head ) { fnodes++; struct HarbolMemNode *n = FL.head; fset(fpos(n), flen(n), false); CHECK(harbol_freelist_remove(&FL, n)==n, "remove"); fcheck(); } }
static struct vp_sys fsys = {FO_N, fbegin, fapply, fcanon, fend, fname};
/* ---- pools about and beyond 4 GiB ---- */
static void gone(uint32_t zi, uint32_t a, uint32_t b, uint32_t heap) {
	static size_t const Z[] = {(size_t)1 << 31, ((size_t)1 << 32) - 8, (size_t)1 << 32, ((size_t)1 << 32) + 1, ((size_t)1 << 32) + 32, ((size_t)1 << 32) + 100000, ((size_t)1 << 33) + 5}, Q[] = {1, 8, 40, 100, 4096, 70000};
	uint32_t t[4] = {zi, a, b, heap}; if( !vp_case(t, 4) ) return; size_t z = Z[zi], n[4]; uint8_t *p[4], *map = NULL; bool ok = false; memset(&P, 0, sizeof P); vp_sparse = true; vp_note("pool of %zu", z);
	if( heap ) ok = harbol_mempool_init(&P, z); else { map = vp_sparse_map(z); if( map ) { P = harbol_mempool_make_from_buffer(map, z, &ok); CHECK(ok, "a pool over a buffer of %zu is refused", z); } }
	if( !ok ) { vp_capped("no address space for pools beyond 4 GiB"); vp_case_done(); return; }
	uint8_t *lo = P.stack.mem; size_t tot = z/8*8, used = 0; CHECK(harbol_mempool_mem_remaining(&P)==tot, "a pool of %zu bytes has %zu remaining", z, harbol_mempool_mem_remaining(&P));
#define LEFT() CHECK(harbol_mempool_mem_remaining(&P)==tot - used, "remaining is %zu, should be %zu", harbol_mempool_mem_remaining(&P), tot - used)
#define BIG() for( size_t v = tot - used + 1; v < (size_t)1 << 62; v = v < tot + 100? v + 997 : v*2+1 ) CHECK(!harbol_mempool_alloc(&P, v), "alloc(%zu) with %zu remaining succeeded", v, tot - used)
#define KEEP() for( int j=0; j < 4; j++ ) if( p[j] ) for( size_t x=0; x < n[j]; x++ ) CHECK(p[j][x]==(uint8_t)(j*50 + x), "block %d lost its data", j)
	memset(p, 0, sizeof p);
	for( int i=0; i < 4; i++ ) { n[i] = Q[i==0? a : i==1? b : i==2? (a+b) % 6 : 2]; uint8_t *q = harbol_mempool_alloc(&P, n[i]); CHECK(q && q - HD >= lo && q + n[i] <= lo + z && (uintptr_t)q % 8==0, "alloc(%zu) with %zu remaining is outside or failed", n[i], tot - used); for( int j=0; j < i; j++ ) CHECK(q + n[i] <= p[j] - HD || p[j] + n[j] <= q - HD, "blocks overlap"); for( size_t x=0; x < n[i]; x++ ) { CHECK(!q[x], "not zeroed"); q[x] = (uint8_t)(i*50 + x); } p[i] = q; used += hd(q)->size; LEFT(); }
	BIG(); KEEP(); CHECK(!harbol_mempool_free(&P, lo + z) && !harbol_mempool_free(&P, lo - 64), "a foreign pointer is freed");
	used -= hd(p[1])->size; CHECK(harbol_mempool_free(&P, p[1]), "free of a live block is refused"); p[1] = NULL; LEFT(); KEEP(); uint8_t *q = harbol_mempool_alloc(&P, n[1]); CHECK(q, "a block of %zu was freed but a request of the same size is refused", n[1]); for( size_t x=0; x < n[1]; x++ ) { CHECK(!q[x], "not zeroed"); q[x] = (uint8_t)(50 + x); } p[1] = q; used += hd(q)->size; LEFT(); KEEP();
	used -= hd(p[2])->size; q = harbol_mempool_realloc(&P, p[2], n[2] + 500); CHECK(q, "reallocation with %zu remaining is refused", tot - used); for( size_t x=0; x < n[2]; x++ ) CHECK(q[x]==(uint8_t)(100 + x), "reallocation lost the data"); p[2] = q; n[2] += 500; for( size_t x=0; x < n[2]; x++ ) q[x] = (uint8_t)(100 + x); used += hd(q)->size; LEFT(); KEEP(); CHECK(!harbol_mempool_realloc(&P, p[2], tot + 8) && !harbol_mempool_realloc(&P, p[2], SIZE_MAX - 8), "impossible reallocation granted"); KEEP();
	for( int i=3; i >= 0; i-- ) { used -= hd(p[i])->size; CHECK(harbol_mempool_free(&P, p[i]), "free of a live block is refused"); p[i] = NULL; LEFT(); KEEP(); } CHECK(used==0, "internal");
	if( heap ) harbol_mempool_clear(&P); else vp_sparse_unmap(map); memset(&P, 0, sizeof P); vp_sparse = false; vp_case_done();
}
static void giant(void) { for( uint32_t z=0; z < 7; z++ ) for( uint32_t a=0; a < 6; a++ ) for( uint32_t b=0; b < 6; b++ ) for( uint32_t h=0; h < 2; h++ ) gone(z, a, b, h); }
void vp_explore(int c) { if( c==NC+4 ) { giant(); return; } if( c==NC+3 ) { vp_bfs(&fsys, vp_tier? 40 : 20, 3000000); return; } if( c >= NC ) { ladder((uint32_t)(c-NC)); return; } cfg = c; mkops(); sys.nops = nO; bool ok = true; struct HarbolMemPool z = harbol_mempool_make(0, &ok); CHECK(!ok, "empty pool accepted"); (void)z; vp_bfs(&sys, vp_tier? C[c].dt : C[c].dq, vp_tier? 30000000 : 3000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c==NC+4 ) { gone(t[0], t[1], t[2], t[3]); return; } if( c==NC+3 ) { vp_replay_hist(&fsys, t, l); return; } if( c >= NC ) { if( l==5 ) lrun(t[0], (int)t[1], t[2], (int)t[3], (int)t[4]); return; } cfg = c; mkops(); sys.nops = nO; vp_replay_hist(&sys, t, l); }
