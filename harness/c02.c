/* C02: map == insertion-ordered dictionary, for every seed residue. BFS over histories. */
#include "vp.h"
#include <time.h>
#include "map/map.h"
char const *const vp_property = "C02";

/* the map takes its seed from srand(time())/rand(): own both */
static int g_seed;
time_t __wrap_time(time_t *t) { if( t ) *t = 1234567890; return 1234567890; }
void __wrap_srand(unsigned s) { (void)s; }
int __wrap_rand(void) { return g_seed; }

enum { NK = 14, NVAL = 4 };
struct blob { char const *p; size_t n; };
/* one-byte keys land in consecutive home buckets; equal residues collide at every small capacity */
static struct blob const ALLK[NK] = { {"\x40",1}, {"\x48",1}, {"\x41",1}, {"\x43",1}, {"\x47",1}, {"\x40\x40",2}, {"\x50",1}, {"\x40\0",2}, {"\x42",1}, {"\x44",1}, {"\x45",1}, {"\x46",1}, {"\xC7\x01\x02",3}, {"",0} };
static struct blob const VAL[NVAL] = { {"x",1}, {"xy",2}, {"xz",2}, {"",0} };

/* keys whose whole 64-bit hashes are equal whatever the seed: differences are short vectors of the lattice { d : sum d[i] 65599^(13-i) = 0 mod 2^64 } */
static int8_t const LAT[4][14] = {{4,-4,6,-16,4,-2,8,4,4,-6,1,6,4,-15}, {-6,0,-2,11,-4,2,-5,-8,13,3,-3,0,13,-2}, {0,-3,-1,-7,6,11,-11,-1,18,-5,-13,0,3,7}, {7,8,-3,9,-10,-9,-2,-5,18,-12,-3,0,1,17}};
static char COLL[16][14];
static void mkcoll(void) { for( int k=0; k < 16; k++ ) for( int i=0; i < 14; i++ ) COLL[k][i] = (char)(78 + (k & 1? LAT[0][i] : 0) + (k & 2? LAT[1][i] : 0) + (k & 4? LAT[2][i] : 0) + (k & 8? LAT[3][i] : 0)); }
struct conf { size_t cap; int seed; int nk, nv, preload; int dq, dt; int mode; };
static struct conf C[80]; static int nC;
static void mk(void) {
	if( nC ) return;
#define ADD(...) C[nC++] = (struct conf){__VA_ARGS__}
	for( int s=0; s < 2; s++ ) ADD(1, s, 4, 2, 0, 5, 7, 0);
	for( int s=0; s < 2; s++ ) ADD(2, s, 5, 2, 0, 5, 7, 0);
	for( int s=0; s < 4; s++ ) ADD(4, s, 6, 2, 0, s < 2? 5 : 4, 6, 0);
	for( int s=0; s < 8; s++ ) ADD(8, s, 7, 1, 5, 4, 6, 0);      /* filled, wrapped chains */
	for( int s=0; s < 8; s++ ) ADD(8, s, 13, 1, 8, 3, 4, 0);      /* full, next insertion rehashes */
	ADD(4, INT_MAX, 6, 3, 0, 4, 6, 1); ADD(16, 12345, 13, 1, 10, 4, 5, 0); ADD(4, 77, NK, 4, 3, 3, 4, 2);
	for( size_t c=0; c <= 7; c++ ) if( c==0 || (c & (c-1)) ) for( int s=0; s < 2; s++ ) ADD(c, s, 6, 1, 0, 5, 7, 0); /* sizes that are not powers of two */
	ADD(8, 3, 3, 3, 0, 6, 8, 0);
	ADD(2, 9, 6, 1, 0, 5, 7, 3); ADD(8, 5, 8, 2, 4, 4, 5, 3); mkcoll();
}

static struct HarbolMap *m, mem; static int cfg;
static struct { int k, v; } E[64]; static int n;
static struct blob K_(int k) { return C[cfg].mode==3? (struct blob){COLL[k], 14} : ALLK[k]; }
static int nk, nv;

enum kind { INSERT, KSET, ISET, KRM, IRM, REHASH, CLEAR };
struct op { uint8_t k, a, b; }; static struct op O[400]; static uint32_t nO;
static int keyid(int i) { return C[cfg].mode==2? (int[]){0,13,1,7,5,2,3,4,6,8,9,10,11,12}[i] : i; }
static void mkops(void) {
	nO = 0; nk = C[cfg].nk; nv = C[cfg].nv;
	for( int k=0; k < nk; k++ ) for( int v=0; v < nv; v++ ) O[nO++] = (struct op){INSERT, (uint8_t)k, (uint8_t)v};
	for( int k=0; k < nk; k++ ) O[nO++] = (struct op){KRM, (uint8_t)k, 0};
	for( int k=0; k < nk; k++ ) O[nO++] = (struct op){KSET, (uint8_t)k, (uint8_t)(nv > 1? 1 : 2)};
	if( nv > 1 ) for( int k=0; k < nk; k++ ) O[nO++] = (struct op){KSET, (uint8_t)k, (uint8_t)(nv > 2? nv-1 : 2)};
	for( int i=0; i < 4; i++ ) O[nO++] = (struct op){IRM, (uint8_t)i, 0};
	for( int i=0; i < 5; i++ ) O[nO++] = (struct op){ISET, (uint8_t)i, (uint8_t)(1 + i%2)};
	for( int i=0; i < 5; i++ ) O[nO++] = (struct op){REHASH, (uint8_t)i, 0};
	O[nO++] = (struct op){CLEAR, 0, 0};
}
static void opname(uint32_t i, char *o, size_t s) {
	static char const *KN[] = {"insert","key_set","idx_set","key_rm","idx_rm","rehash"}; struct op p = O[i];
	switch( p.k ) {
	case INSERT: case KSET: snprintf(o, s, "%s(key%d,val%d)", KN[p.k], keyid(p.a), p.b); break;
	case KRM: snprintf(o, s, "key_rm(key%d)", keyid(p.a)); break;
	case ISET: case IRM: snprintf(o, s, "%s(%s)", KN[p.k], (char const*[]){"0","1","last","len","SIZE_MAX"}[p.a]); break;
	case CLEAR: snprintf(o, s, "clear"); break;
	default: snprintf(o, s, "rehash(%s)", (char const*[]){"2*cap","cap","len","4*cap","len-1"}[p.a]);
	}
}
static size_t idx(int code) { return code==0? 0 : code==1? 1 : code==2? (size_t)(n-1) : code==3? (size_t)n : SIZE_MAX; }
static int find(int k) { for( int i=0; i < n; i++ ) if( E[i].k==k ) return i; return -1; }
/* exact-size copies so that over-reads are seen */
static void *ex(struct blob b) { void *p = __real_malloc(b.n? b.n : 1); if( b.n ) memcpy(p, b.p, b.n); return p; }

static void compare(void) {
	CHECK(m->len==(size_t)n, "map holds %zu entries, should hold %d", m->len, n);
	CHECK(m->cap >= m->len, "capacity %zu below length %zu", m->cap, m->len);
	for( int i=0; i < n; i++ ) {
		struct blob k = K_(E[i].k), v = VAL[E[i].v];
		void *kp = ex(k); size_t r = harbol_map_get_entry_index(m, kp, k.n);
		CHECK(r==(size_t)i, "key%d is found at index %zd, should be %d", E[i].k, (ssize_t)r, i);
		uint8_t *d = harbol_map_key_get(m, kp, k.n);
		CHECK(d != NULL, "key%d has no value", E[i].k);
		CHECK(!memcmp(d, v.p, v.n), "key%d has a wrong value", E[i].k);
		CHECK(m->datalens[i]==v.n, "key%d has a value of %zu bytes, should be %zu", E[i].k, m->datalens[i], v.n);
		CHECK(m->keylens[i]==k.n, "key%d has length %zu", E[i].k, m->keylens[i]);
		CHECK(harbol_map_idx_get(m, (size_t)i)==d, "index access disagrees with key access");
		__real_free(kp);
	}
}
static size_t const WRAP[] = {256, 257, 65536, 65537, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, ((size_t)1 << 63) + 1}; /* indices that become small when a narrower type holds them */
static void observe(void) {
	for( int k=0; k < NK; k++ ) { void *kp = ex(K_(k)); bool e = find(k) >= 0; CHECK(harbol_map_has_key(m, kp, K_(k).n)==e, "has_key(key%d) should be %d", k, e); if( !e ) { CHECK(harbol_map_key_get(m, kp, K_(k).n)==NULL && harbol_map_get_entry_index(m, kp, K_(k).n)==SIZE_MAX, "absent key%d is found", k); } __real_free(kp); }
	CHECK(harbol_map_idx_get(m, (size_t)n)==NULL && harbol_map_idx_get(m, (size_t)n+1)==NULL && harbol_map_idx_get(m, SIZE_MAX)==NULL, "out-of-range index yields a value");
	for( int k=0; k < 8; k++ ) { uint8_t one = 1; CHECK(harbol_map_idx_get(m, WRAP[k])==NULL && !harbol_map_idx_set(m, WRAP[k], &one, 1) && !harbol_map_idx_rm(m, WRAP[k]), "index %zu of %d accepted", WRAP[k], n); }
	for( int v=0; v < NVAL; v++ ) {
		int w = -1; for( int i=0; i < n; i++ ) if( E[i].v==v ) { w = i; break; }
		void *vp = ex(VAL[v]); size_t r = harbol_map_idx_val(m, vp, VAL[v].n);
		CHECK(r==(w < 0? SIZE_MAX : (size_t)w), "idx_val(val%d) is %zd, should be %d", v, (ssize_t)r, w);
		size_t kl = 12345; uint8_t *kp = harbol_map_key_val(m, vp, VAL[v].n, &kl);
		CHECK((kp != NULL)==(w >= 0), "key_val(val%d) presence wrong", v);
		if( kp ) CHECK(kl==K_(E[w].k).n && !memcmp(kp, K_(E[w].k).p, kl), "key_val(val%d) yields a wrong key", v);
		__real_free(vp);
	}
}
static void ins(int k, int v, bool check) {
	(void)check; void *kp = ex(K_(k)), *vp = ex(VAL[v]);
	bool e = find(k) < 0, r = harbol_map_insert(m, kp, K_(k).n, vp, VAL[v].n);
	CHECK(r==e, "insert(key%d) returned %d, should return %d", k, r, e);
	if( e ) { E[n].k = k; E[n].v = v; n++; }
	/* the map keeps its own copies */
	memset(kp, 0xDD, K_(k).n); memset(vp, 0xDD, VAL[v].n); __real_free(kp); __real_free(vp);
}
static void begin(void) {
	n = 0; g_seed = C[cfg].seed; memset(&mem, 0, sizeof mem);
	if( C[cfg].mode==1 ) { m = harbol_map_new(C[cfg].cap); CHECK(m != NULL, "map_new failed"); }
	else { bool res = false; mem = harbol_map_make(C[cfg].cap, &res); CHECK(res, "map_make failed"); m = &mem; }
	for( int i=0; i < C[cfg].preload; i++ ) ins(keyid(i), i % NVAL % 3, false);
}
static int apply(uint32_t o, bool check) {
	struct op const p = O[o];
	switch( p.k ) {
	case INSERT: ins(keyid(p.a), p.b, check); break;
	case KSET: { int k = keyid(p.a); void *kp = ex(K_(k)), *vp = ex(VAL[p.b]); bool r = harbol_map_key_set(m, kp, K_(k).n, vp, VAL[p.b].n); CHECK(r, "key_set failed"); int i = find(k); if( i < 0 ) { i = n++; E[i].k = k; } E[i].v = p.b; __real_free(kp); __real_free(vp); } break;
	case ISET: { if( (p.a==1 && n < 2) || (p.a==2 && n < 3) || (p.a==0 && n < 1) ) return 0; size_t i = idx(p.a); void *vp = ex(VAL[p.b]); bool r = harbol_map_idx_set(m, i, vp, VAL[p.b].n); CHECK(r==(i < (size_t)n), "idx_set(%zu) returned %d", i, r); if( r ) E[i].v = p.b; __real_free(vp); } break;
	case KRM: { int k = keyid(p.a), i = find(k); void *kp = ex(K_(k)); bool r = harbol_map_key_rm(m, kp, K_(k).n); CHECK(r==(i >= 0), "key_rm(key%d) returned %d", k, r); if( i >= 0 ) { memmove(&E[i], &E[i+1], (size_t)(n-i-1) * sizeof *E); n--; } __real_free(kp); } break;
	case IRM: { if( (p.a==1 && n < 2) || (p.a==2 && n < 3) || (p.a==0 && n < 1) ) return 0; size_t i = idx(p.a); bool r = harbol_map_idx_rm(m, i); CHECK(r==(i < (size_t)n), "idx_rm(%zu) of %d returned %d", i, n, r); if( i < (size_t)n ) { memmove(&E[i], &E[i+1], ((size_t)n-i-1) * sizeof *E); n--; } } break;
	case REHASH: {
		size_t const c = m->cap, ns = p.a==0? c*2 : p.a==1? c : p.a==2? (size_t)n : p.a==3? c*4 : (size_t)(n-1);
		if( ns > 64 || (p.a==4 && n < 2) || (p.a==2 && n==0) ) return 0;
		bool r = harbol_map_rehash(m, ns);
		if( ns >= (size_t)n ) CHECK(r && m->cap >= ns, "rehash(%zu) with %d entries returned %d, capacity %zu", ns, n, r, m->cap);
		/* a size below the number of entries cannot hold them: whatever is returned, no entry may be lost */
	} break;
	case CLEAR: harbol_map_clear(m); CHECK(m->len==0, "cleared map holds entries"); n = 0; break; /* an empty map like any other */
	}
	compare(); if( check ) { observe(); compare(); }
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf, 0, cap};
	vp_put64(&b, m->cap); vp_put64(&b, m->len); vp_put64(&b, m->seed);
	for( size_t i=0; i < m->len; i++ ) { vp_put64(&b, m->keylens[i]); vp_put(&b, m->keys[i], m->keylens[i]); vp_put64(&b, m->datalens[i]); vp_put(&b, m->datum[i], m->datalens[i]); }
	vp_put(&b, m->hashes, m->cap * sizeof *m->hashes); vp_put(&b, m->buckets, m->cap * sizeof *m->buckets);
	return b.n;
}
static void end(void) {
	if( C[cfg].mode==1 ) { harbol_map_free(&m); CHECK(m==NULL, "map_free left the pointer"); harbol_map_free(&m); }
	else { harbol_map_clear(m); CHECK(m->len==0, "clear left entries"); }
}
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) { mk(); cfg = c; mkops(); sys.nops = nO; }

/* ---- ladder: maps of many sizes, key shapes and value sizes; one operation (or one sweep) on each ---- */
enum { K_INT, K_TEXT, K_LEN, K_TAIL, K_HEAD, K_HIGH, K_HASH, K_NSCHEMES };
/* added to twenty bytes of a key, these leave all 64 bits of its SDBM hash as they are, whatever the seed */
static int8_t const SAME[4][20] = {{1,-2,2,1,-3,3,1,-4,-4,2,4,0,0,-1,-1,3,-5,-3,1,-3}, {4,4,1,-2,-3,-4,1,-3,5,0,0,1,0,5,3,1,-1,4,-2,2}, {6,-4,0,-1,-2,4,-1,-1,-2,3,3,2,-1,1,2,-1,-2,2,-1,-3}, {-2,3,-6,3,6,4,2,-3,-3,-6,0,-3,3,1,2,0,5,4,-1,3}};
static size_t lkey(uint32_t scheme, uint32_t i, uint8_t *o) {
	switch( scheme ) {
	case K_INT: for( int b=0; b < 4; b++ ) o[b] = (uint8_t)(i >> 8*b); return 4;
	case K_TEXT: return (size_t)sprintf((char*)o, "key%u", i);
	case K_LEN: memset(o, 'a', i+1); return i+1;                      /* each a prefix of the next */
	case K_TAIL: memset(o, 'q', 300); o[298] = (uint8_t)i; o[299] = (uint8_t)(i >> 8); return 300;
	case K_HEAD: memset(o, 'q', 70); o[0] = (uint8_t)i; o[1] = (uint8_t)(i >> 8); return 70;
	case K_HASH: { int const x = (int)(i % 9) - 4, y = (int)(i/9 % 9) - 4, z = (int)(i/81 % 17) - 8, w = (int)(i/1377); for( int b=0; b < 20; b++ ) { o[b] = (uint8_t)(128 + x*SAME[0][b] + y*SAME[1][b]); o[b+20] = (uint8_t)(128 + z*SAME[2][b] + w*SAME[3][b]); } return 40; }
	default: memset(o, 0xFF, 9); o[4] = (uint8_t)(0x80 | (i & 0x7F)); o[7] = (uint8_t)(0x80 | (i >> 7 & 0x7F)); o[8] = (uint8_t)(i >> 14); return 9;
	}
}
static size_t lval(uint32_t vs, uint32_t i, uint8_t *o) {
	size_t const n = vs==0? 8 : vs==1? i % 600 + 1 : vs==2? 1000 : vs==3? 1 + i % 2 : vs==5? 12 : 70000; if( vs==5 ) { memset(o, 0, 12); o[9] = (uint8_t)(i >> 8); o[11] = (uint8_t)i; return n; } /* alike up to a NUL */
	for( size_t b=0; b < n; b++ ) o[b] = (uint8_t)(b < 4? i >> 8*b : b*13 + i);
	return n;
}
enum { LM = 6000 };
static struct { uint32_t k, v, vs; } LE[LM]; static size_t ln; static uint32_t lscheme;
static uint8_t LK[8192], LV[70001];
static void lcompare(void) {
	CHECK(m->len==ln && m->cap >= ln, "map holds %zu entries (capacity %zu), should hold %zu", m->len, m->cap, ln);
	for( size_t i=0; i < ln; i++ ) {
		size_t const kl = lkey(lscheme, LE[i].k, LK), vl = lval(LE[i].vs, LE[i].v, LV);
		uint8_t *kp = ex((struct blob){(char*)LK, kl}); /* exact size */
		size_t const r = harbol_map_get_entry_index(m, kp, kl); CHECK(r==i, "key %u of %zu is found at %zd, should be at %zu", LE[i].k, ln, (ssize_t)r, i);
		uint8_t *d = harbol_map_key_get(m, kp, kl); CHECK(d && d==harbol_map_idx_get(m, i) && m->datalens[i]==vl && !memcmp(d, LV, vl), "key %u of %zu has a wrong value", LE[i].k, ln);
		CHECK(m->keylens[i]==kl && !memcmp(m->keys[i], LK, kl), "entry %zu of %zu has a wrong key", i, ln);
		__real_free(kp);
	}
	CHECK(!harbol_map_idx_get(m, ln), "an entry past the end is there");
}
static void labsent(uint32_t k) { size_t const kl = lkey(lscheme, k, LK); CHECK(!harbol_map_has_key(m, LK, kl) && !harbol_map_key_get(m, LK, kl) && harbol_map_get_entry_index(m, LK, kl)==SIZE_MAX && !harbol_map_key_rm(m, LK, kl), "absent key %u is found among %zu", k, ln); }
static void lput(uint32_t k, uint32_t v, uint32_t vs, bool set) {
	size_t const kl = lkey(lscheme, k, LK), vl = lval(vs, v, LV); size_t w = SIZE_MAX; for( size_t i=0; i < ln; i++ ) if( LE[i].k==k ) { w = i; break; }
	if( set ) { CHECK(harbol_map_key_set(m, LK, kl, LV, vl), "key_set of key %u among %zu failed", k, ln); if( w != SIZE_MAX ) { LE[w].v = v; LE[w].vs = vs; return; } }
	else { bool const r = harbol_map_insert(m, LK, kl, LV, vl); CHECK(r==(w==SIZE_MAX), "insert of key %u among %zu (capacity %zu) returned %d", k, ln, m->cap, r); if( w != SIZE_MAX ) return; }
	LE[ln].k = k; LE[ln].v = v; LE[ln].vs = vs; ln++;
}
static void ldel(size_t i, bool by_key) {
	if( by_key ) { size_t const kl = lkey(lscheme, LE[i].k, LK); CHECK(harbol_map_key_rm(m, LK, kl), "key_rm of key %u among %zu failed", LE[i].k, ln); }
	else CHECK(harbol_map_idx_rm(m, i), "idx_rm(%zu) of %zu failed", i, ln);
	memmove(&LE[i], &LE[i+1], (ln-i-1) * sizeof *LE); ln--;
}
enum { Z_FILL, Z_RM, Z_KRM, Z_SET, Z_ISET, Z_REHASH, Z_DRAIN, Z_WINDOW, Z_REUSE, Z_VAL, Z_NOPS };
static void ladder_run(uint32_t cap, uint32_t n0, uint32_t scheme, uint32_t vs, uint32_t seed, uint32_t op, uint32_t a) {
	uint32_t t[7] = {cap, n0, scheme, vs, seed, op, a}; if( !vp_case(t, 7) ) return;
	vp_note("capacity %u, %u entries, key scheme %u, value scheme %u, seed %u, operation %u(%u)", cap, n0, scheme, vs, seed, op, a);
	g_seed = (int)seed; lscheme = scheme; ln = 0; memset(&mem, 0, sizeof mem); m = &mem; CHECK(harbol_map_init(m, cap), "init(%u) failed", cap);
	for( uint32_t k=0; k < n0; k++ ) lput(k, k, vs, k % 3==2);
	switch( op ) {
	case Z_FILL: labsent(n0); labsent(n0+1); labsent(n0+255); for( uint32_t k=0; k < n0 && k < 3; k++ ) { lput(k, k+9, vs, false); lput(n0-1-k, k, vs, false); } break;
	case Z_RM: ldel(a, false); labsent(a); lcompare(); lput(a, a, vs, false); break;
	case Z_KRM: ldel(a, true); labsent(a); break;
	case Z_SET: for( uint32_t z=0; z < 4; z++ ) { lput(a, a+z+1200, z, true); lput(a, a+z, z, true); size_t r = lval(z, a+z, LV); CHECK(m->datalens[a]==r && !memcmp(harbol_map_idx_get(m, a), LV, r), "value %u of %zu bytes is wrong after key_set", a, r); } break;
	case Z_ISET: for( uint32_t y=0; y < 8; y++ ) { uint32_t const z = y/2; size_t const vl = lval(z, a+z+5 + (y & 1? 0 : 1200), LV); CHECK(harbol_map_idx_set(m, a, LV, vl), "idx_set(%u) of %zu failed", a, ln); CHECK(m->datalens[a]==vl && !memcmp(harbol_map_idx_get(m, a), LV, vl), "value %u of %zu bytes is wrong after idx_set", a, vl); LE[a].v = a+z+5; LE[a].vs = z; } break;
	case Z_REHASH: { bool const ok = harbol_map_rehash(m, a); CHECK(ok || a < ln, "rehash(%u) of %zu entries returned %d", a, ln, ok); if( a >= ln ) CHECK(m->cap >= a, "rehash(%u) left capacity %zu", a, m->cap); } break;
	case Z_DRAIN: while( ln ) { uint32_t const i = a==0? 0 : a==1? (uint32_t)ln-1 : a==2? (uint32_t)ln/2 : (uint32_t)(ln*7/11); uint32_t const k = LE[i].k; ldel(i, a & 1); if( ln < 64 || ln % 16==0 ) { lcompare(); labsent(k); } } lput(3, 4, vs, true); break;
	case Z_WINDOW: for( uint32_t k=n0; k < n0 + a; k++ ) { lput(k, k, vs, false); if( k & 1 ) ldel(0, true); if( ln ) ldel(ln/2, false); if( ln < n0/2 ) lput(k+3000, k, vs, true); if( k % 16==0 ) lcompare(); } break;
	case Z_REUSE: harbol_map_clear(m); CHECK(m->len==0, "cleared map holds entries"); ln = 0; CHECK(harbol_map_init(m, a), "init"); for( uint32_t k=0; k < n0; k++ ) lput(k+1, k, vs, false); break;
	case Z_VAL: { size_t const vl = lval(vs, a, LV); uint8_t *vp = ex((struct blob){(char*)LV, vl}); size_t w = SIZE_MAX; uint8_t *tmp = __real_malloc(70001);
		for( size_t i=0; i < ln && w==SIZE_MAX; i++ ) { size_t const l2 = lval(LE[i].vs, LE[i].v, tmp); if( l2==vl && !memcmp(tmp, LV, vl) ) w = i; }
		__real_free(tmp);
		CHECK(harbol_map_idx_val(m, vp, vl)==w, "idx_val of value %u among %zu is wrong", a, ln); size_t kl = 0; uint8_t *kp = harbol_map_key_val(m, vp, vl, &kl); CHECK((kp != NULL)==(w != SIZE_MAX), "key_val of value %u", a); if( kp ) { size_t const e = lkey(lscheme, LE[w].k, LK); CHECK(kl==e && !memcmp(kp, LK, e), "key_val of value %u among %zu yields a wrong key", a, ln); } __real_free(vp); } break;
	}
	lcompare(); vp_outcome(vp_hash(LE, ln * sizeof *LE, ln)); harbol_map_clear(m); vp_case_done();
}
enum { NLC = 2 * K_NSCHEMES };
static void ladder(int c) {
	uint32_t const scheme = (uint32_t)c / 2, bigones = (uint32_t)c % 2;
	static uint32_t const far[] = {255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 5000};
	uint32_t const dense = scheme==K_LEN || scheme==K_TAIL? 40 : vp_tier? 200 : 80;
	if( bigones ) { for( unsigned q=0; q < sizeof far/sizeof *far; q++ ) { uint32_t const n = far[q]; if( scheme==K_LEN && n > 1100 ) break; if( scheme==K_HASH && n > 520 ) break; if( !vp_tier && n > 2100 ) { if( scheme==K_INT ) ladder_run(4, n, scheme, 0, q, Z_FILL, 0); continue; }
			uint32_t const I_[] = {0, n/2, n-1, 255, 256};
			ladder_run(4, n, scheme, 0, q, Z_FILL, 0); ladder_run(1000, n, scheme, 1, q, Z_FILL, 0); ladder_run(n, n, scheme, 3, 0, Z_FILL, 0);
			for( int a=0; a < 5; a++ ) if( I_[a] < n && (vp_tier || n < 600 || a < 3) ) { ladder_run(16, n, scheme, 0, q, Z_RM, I_[a]); ladder_run(n, n, scheme, 3, q, Z_KRM, I_[a]); ladder_run(8, n, scheme, 0, q, Z_SET, I_[a]); ladder_run(8, n, scheme, 3, q, Z_ISET, I_[a]); ladder_run(8, n, scheme, 1, q, Z_VAL, I_[a]); ladder_run(8, n, scheme, 5, q, Z_VAL, I_[a]); }
			for( int a=0; a < 4; a++ ) if( n <= (vp_tier? 1100u : 300u) ) ladder_run(1, n, scheme, 3, 5, Z_DRAIN, (uint32_t)a);
			uint32_t const S[] = {n-1, n, n+1, 2*n, 4096, 8192}; for( int a=0; a < 6; a++ ) ladder_run(4, n, scheme, 0, q, Z_REHASH, S[a]);
			ladder_run(4, n, scheme, 0, q, Z_REUSE, 8); ladder_run(4, n, scheme, 0, q, Z_WINDOW, n > 600 && !vp_tier? 10 : 50); }
		if( scheme==K_LEN ) { ladder_run(4, 3, scheme, 4, 0, Z_FILL, 0); ladder_run(4, 1100, scheme, 2, 0, Z_FILL, 0); }
		return; }
	for( uint32_t n=1; n <= dense; n++ ) for( uint32_t sd=0; sd < 3; sd++ ) {
		uint32_t const seed = sd==0? n : sd==1? 0x7FFFFFFF - n : n * 2654435u;
		uint32_t const caps[] = {1, 8, n, 64}; uint32_t const cap = caps[(n + sd) % 4];
		ladder_run(cap, n, scheme, sd, seed, Z_FILL, 0);
		for( uint32_t a=0; a < n; a += (n > 40? 7 : n > 16? 3 : 1) ) { ladder_run(cap, n, scheme, sd, seed, Z_RM, a); ladder_run(cap, n, scheme, 3, seed, Z_KRM, a); ladder_run(cap, n, scheme, 0, seed, Z_SET, a); ladder_run(cap, n, scheme, 3, seed, Z_ISET, a); ladder_run(cap, n, scheme, sd, seed, Z_VAL, a); ladder_run(cap, n, scheme, 5, seed, Z_VAL, a); }
		for( uint32_t a=0; a < 4; a++ ) ladder_run(cap, n, scheme, 3, seed, Z_DRAIN, a);
		for( uint32_t a=n > 2? n-2 : 1; a < n+3; a++ ) ladder_run(cap, n, scheme, 0, seed, Z_REHASH, a);
		ladder_run(cap, n, scheme, 0, seed, Z_REHASH, 2*n+1); ladder_run(cap, n, scheme, 3, seed, Z_WINDOW, 40); ladder_run(cap, n, scheme, 3, seed, Z_REUSE, n & 1? 2 : 64);
	}
}
int vp_nconfigs(void) { mk(); return nC + NLC; }
void vp_config_name(int c, char *o, size_t n) { mk(); if( c >= nC ) { snprintf(o, n, "ladder-keys%d%s", (c-nC)/2, (c-nC)%2? "-large" : ""); return; } snprintf(o, n, "cap%zu-seed%d-keys%d-vals%d-preload%d%s", C[c].cap, C[c].seed, C[c].nk, C[c].nv, C[c].preload, C[c].mode==1? "-new" : C[c].mode==2? "-zero-length" : ""); }
int vp_config_shards(int c) { (void)c; return 1; }
void vp_explore(int c) { mk(); if( c >= nC ) { ladder(c-nC); return; } setup(c); vp_bfs(&sys, vp_tier? C[c].dt : C[c].dq, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { mk(); if( c >= nC ) { if( l==7 ) ladder_run(t[0], t[1], t[2], t[3], t[4], t[5], t[6]); return; } setup(c); vp_replay_hist(&sys, t, l); }
