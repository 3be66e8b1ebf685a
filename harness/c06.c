/* C06: variant holds a private copy. All histories of init/set/clear/free over values of all sizes. */
#include "vp.h"
#include "variant/variant.h"
char const *const vp_property = "C06";
/* two variants A (in place) and B (heap). values by size; tags */
static size_t const SZ[] = {1,2,3,4,7,8,9,16,33};
enum { NS = 9 };
static int32_t const TAG[] = {0, 1, -1, INT32_MAX, INT32_MIN};
static int cfg;
struct op { uint8_t k, v, s, t; }; static struct op O[300]; static uint32_t nO;
enum { SET, CLR, FREE, INIT, OWN };
static void mkops(void) {
	nO = 0;
	for( int v=0; v < 2; v++ ) {
		for( int s=0; s < NS; s++ ) { if( cfg && s != 0 && s != 5 && s != 8 ) continue; O[nO++] = (struct op){SET, (uint8_t)v, (uint8_t)s, 0}; }
		for( int s=0; s < 6; s++ ) O[nO++] = (struct op){OWN, (uint8_t)v, (uint8_t)s, 0}; /* its own, or the other's, bytes: whole, beginning, end */
		O[nO++] = (struct op){CLR, (uint8_t)v, 0, 0};
		if( v ) O[nO++] = (struct op){FREE, 1, 0, 0};
		for( int s=0; s < NS; s++ ) { if( s != 0 && s != 5 ) continue; for( int t=0; t < (cfg? 2 : 5); t++ ) O[nO++] = (struct op){INIT, (uint8_t)v, (uint8_t)s, (uint8_t)(cfg? t*2 : t)}; }
	}
}
static void opname(uint32_t i, char *o, size_t n) { struct op p = O[i]; snprintf(o, n, "%c.%s(%zu bytes, tag %d)", "AB"[p.v], (char const*[]){"set","clear","free","init","set to own/other's part"}[p.k], SZ[p.s], TAG[p.t]); }
static struct HarbolVariant A, *B;
static struct { bool has; size_t n; uint8_t b[64]; int32_t tag; bool live; } M[2];
static int ctr;
static void *mkval(size_t n, uint8_t *out) { uint8_t *p = __real_malloc(n); for( size_t i=0; i < n; i++ ) out[i] = p[i] = (uint8_t)(ctr*29 + (int)i*7 + 1); ctr++; return p; }
static void cmp(void) {
	for( int v=0; v < 2; v++ ) {
		struct HarbolVariant *h = v? B : &A;
		CHECK((h != NULL)==M[v].live, "variant %d existence", v);
		if( !h ) continue;
		CHECK(harbol_variant_size(h)==M[v].n, "variant %c has size %zu, should be %zu", "AB"[v], harbol_variant_size(h), M[v].n);
		CHECK(harbol_variant_tag(h)==M[v].tag, "variant %c has tag %d, should be %d", "AB"[v], harbol_variant_tag(h), M[v].tag);
		void *d = harbol_variant_data(h);
		CHECK((d != NULL)==M[v].has, "variant %c data presence", "AB"[v]);
		if( d ) CHECK(!memcmp(d, M[v].b, M[v].n), "variant %c holds other bytes than it was given", "AB"[v]);
	}
}
static void begin(void) { memset(&A, 0, sizeof A); B = NULL; memset(M, 0, sizeof M); M[0].live = true; ctr = 0; }
static int apply(uint32_t o, bool check) {
	(void)check; struct op p = O[o]; struct HarbolVariant *h = p.v? B : &A; uint8_t tmp[64];
	switch( p.k ) {
	case SET: { if( !h ) return 0; size_t n = SZ[p.s]; uint8_t *v = mkval(n, tmp); CHECK(harbol_variant_set(h, v, n), "set failed"); memset(v, 0xDD, n); __real_free(v); M[p.v].has = true; M[p.v].n = n; memcpy(M[p.v].b, tmp, n); } break;
	case OWN: { int const w = p.s >= 3? !p.v : p.v; struct HarbolVariant *o = w? B : &A; if( !h || !o || !M[w].has || M[w].n < 2 ) return 0; size_t const off = p.s % 3==2, n = M[w].n - (p.s % 3 != 0); memcpy(tmp, M[w].b + off, n); CHECK(harbol_variant_set(h, (uint8_t *)harbol_variant_data(o) + off, n), "set failed"); M[p.v].has = true; M[p.v].n = n; memcpy(M[p.v].b, tmp, n); } break;
	case CLR: if( !h ) return 0; harbol_variant_clear(h); M[p.v].has = false; M[p.v].n = 0; M[p.v].tag = 0; break;
	case FREE: if( !h ) return 0; harbol_variant_free(&B); CHECK(B==NULL, "free left the pointer"); harbol_variant_free(&B); memset(&M[1], 0, sizeof M[1]); break;
	case INIT: {
		size_t n = SZ[p.s]; 
		if( p.v ? B != NULL : M[0].has ) return 0;
		uint8_t *v = mkval(n, tmp); bool r;
		if( p.v ) { B = harbol_variant_new(v, n, TAG[p.t]); r = B != NULL; }
		else if( p.t & 1 ) A = harbol_variant_make(v, n, TAG[p.t], &r);
		else r = harbol_variant_init(&A, v, n, TAG[p.t]);
		CHECK(r, "construction failed"); memset(v, 0xDD, n); __real_free(v);
		M[p.v].live = M[p.v].has = true; M[p.v].n = n; memcpy(M[p.v].b, tmp, n); M[p.v].tag = TAG[p.t];
	} break;
	}
	cmp(); return 1;
}
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf,0,cap}; for( int v=0; v < 2; v++ ) { vp_put64(&b, M[v].has); vp_put64(&b, M[v].live); vp_put64(&b, M[v].n); vp_put64(&b, (uint64_t)M[v].tag); } return b.n; }
static void end(void) { harbol_variant_clear(&A); harbol_variant_free(&B); CHECK(!B, "free left the pointer"); harbol_variant_free(&B); }
static struct vp_sys sys = {0, begin, apply, canon, end, opname};

/* ---- ladder: every size to every other; every tag bit; large values ---- */
static void pair(uint32_t n, uint32_t m, uint32_t tagi) {
	uint32_t t[3] = {n, m, tagi}; if( !vp_case(t, 3) ) return; vp_note("%u bytes, then %u, tag class %u", n, m, tagi);
	int32_t const tag = tagi < 32? (int32_t)(1u << tagi) : tagi < 64? (int32_t)((1u << (tagi-32)) - 1) : -(int32_t)(tagi-64);
	uint8_t *p = __real_malloc(n), *q = __real_malloc(m), *cp = __real_malloc(n); for( uint32_t i=0; i < n; i++ ) p[i] = cp[i] = (uint8_t)(i*3 + i/256 + 1); for( uint32_t i=0; i < m; i++ ) q[i] = (uint8_t)(i*5 + i/256 + 2);
	struct HarbolVariant *h = harbol_variant_new(p, n, tag), v = {0}; CHECK(h, "new of %u bytes", n); bool r = harbol_variant_init(&v, q, m, ~tag); CHECK(r, "init of %u bytes", m);
	memset(p, 0xDD, n); CHECK(harbol_variant_size(h)==n && harbol_variant_tag(h)==tag && !memcmp(harbol_variant_data(h), cp, n), "a variant of %u bytes holds something else", n);
	CHECK(harbol_variant_set(h, q, m), "set"); CHECK(harbol_variant_size(h)==m && harbol_variant_tag(h)==tag && !memcmp(harbol_variant_data(h), q, m), "a variant of %u bytes set to %u holds something else", n, m);
	CHECK(harbol_variant_size(&v)==m && harbol_variant_tag(&v)==~tag && !memcmp(harbol_variant_data(&v), q, m), "another variant changed"); CHECK(harbol_variant_data(&v) != harbol_variant_data(h), "two variants share data");
	CHECK(harbol_variant_set(h, cp, n) && harbol_variant_set(&v, cp, n), "set"); CHECK(harbol_variant_size(h)==n && !memcmp(harbol_variant_data(h), cp, n) && !memcmp(harbol_variant_data(&v), cp, n), "a variant set from %u to %u bytes holds something else", m, n);
	harbol_variant_free(&h); harbol_variant_clear(&v); CHECK(!h && !harbol_variant_data(&v) && !harbol_variant_size(&v) && !harbol_variant_tag(&v), "clear left something"); __real_free(p); __real_free(q); __real_free(cp); vp_case_done();
}
static void ladder(void) {
	static uint32_t const far[] = {254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
	uint32_t const N = 140 + 24; for( uint32_t a=0; a < N; a++ ) for( uint32_t b=0; b < N; b++ ) { uint32_t const n = a < 140? a+1 : far[a-140], m = b < 140? b+1 : far[b-140]; pair(n, m, (n + m*7) % 128); }
	for( uint32_t t=0; t < 400; t++ ) pair(8, 3, t);
}
int vp_nconfigs(void) { return 3; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, c==2? "ladder" : c? "few-values-deep" : "all-values"); }
int vp_config_shards(int c) { return c==2? 1 : 8; }
void vp_explore(int c) { if( c==2 ) { ladder(); return; } cfg = c; mkops(); sys.nops = nO; vp_dfs(&sys, c? (vp_tier? 6 : 5) : (vp_tier? 4 : 3)); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c==2 ) { if( l==3 ) pair(t[0], t[1], t[2]); return; } cfg = c; mkops(); sys.nops = nO; vp_replay_hist(&sys, t, l); }
