/* C05: tuple layout. All field-size lists over an alphabet, all orders of writing. */
#include "vp.h"
#include "tuple/tuple.h"
char const *const vp_property = "C05";
struct conf { char const *name; int n; size_t sz[12]; int lq, lt; };
static struct conf const C[] = {
	{"scalars", 4, {1,2,4,8}, 7, 9},
	{"small", 10, {1,2,3,4,5,7,8,9,12,16}, 4, 5},
	{"tiny", 2, {1,8}, 12, 14},
	{"large", 7, {1,8,255,256,32760,65535,70000}, 3, 4},
};
static int cfg;
static bool scalar(size_t s) { return s==1 || s==2 || s==4 || s==8; }
static uint8_t pat(int f, size_t b, int r) { return (uint8_t)(f*37 + (int)(b%251)*3 + r*101 + 1); }

static void one(size_t const *sz, int n, bool packed, int ctor) {
	size_t *ex = __real_malloc((size_t)n * sizeof *ex); memcpy(ex, sz, (size_t)n * sizeof *ex);
	struct HarbolTuple st, *t = &st; memset(&st, 0, sizeof st); bool ok = false;
	if( ctor==0 ) ok = harbol_tuple_init(t, (size_t)n, ex, packed);
	else if( ctor==1 ) st = harbol_tuple_create((size_t)n, ex, packed, &ok);
	else { t = harbol_tuple_new((size_t)n, ex, packed); ok = t != NULL; }
	__real_free(ex);
	{ size_t tot = 0, pad = 0; for( int i=0; i < n; i++ ) { tot += sz[i]; pad += 16; }
	  /* the documented field table stores 16-bit sizes and offsets: larger tuples must be refused, smaller accepted */
	  if( tot > UINT16_MAX ) { CHECK(!ok, "a tuple of %zu bytes was accepted although sizes and offsets are 16 bits", tot); return; }
	  if( !ok && !packed && tot + pad > UINT16_MAX ) return; }
	CHECK(ok, "construction failed");
	CHECK(harbol_tuple_packed(t)==packed, "packed() is %d", harbol_tuple_packed(t));
	CHECK(harbol_tuple_fields(t)==(size_t)n, "%zu fields, should be %d", harbol_tuple_fields(t), n);
	bool sc = true; size_t sum = 0, al = 1, off = 0; static size_t exp[70000];
	for( int i=0; i < n; i++ ) { sc = sc && scalar(sz[i]); sum += sz[i]; }
	if( packed || !sc ) al = 1;
	if( !packed && sc ) for( int i=0; i < n; i++ ) { off = (off + sz[i] - 1) / sz[i] * sz[i]; exp[i] = off; off += sz[i]; if( sz[i] > al ) al = sz[i]; }
	else for( int i=0; i < n; i++ ) { exp[i] = off; off += sz[i]; }
	size_t const L = harbol_tuple_len(t);
	if( packed ) CHECK(L==sum, "packed length %zu, sizes sum to %zu", L, sum);
	else if( sc ) CHECK(L==(off + al - 1)/al*al, "length %zu, the C struct has %zu", L, (off + al - 1)/al*al);
	else CHECK(L >= sum && L <= sum + 16*(size_t)(n+1), "length %zu for %zu bytes of fields", L, sum);
	uint8_t *base = harbol_tuple_get(t, 0); CHECK(base != NULL, "no field 0");
	size_t prev_end = 0; static size_t at[70000];
	for( int i=0; i < n; i++ ) {
		uint8_t *p = harbol_tuple_get(t, (size_t)i); CHECK(p != NULL, "no field %d", i);
		CHECK(harbol_tuple_field_size(t, (size_t)i)==sz[i], "field %d has size %zu, should be %zu", i, harbol_tuple_field_size(t, (size_t)i), sz[i]);
		CHECK(p >= base, "field %d lies before field 0", i);
		at[i] = (size_t)(p - base);
		CHECK(at[i] >= prev_end && at[i] + sz[i] <= L, "field %d at %zu..%zu: overlaps its predecessor (ends %zu) or leaves the storage (%zu)", i, at[i], at[i]+sz[i], prev_end, L);
		if( packed || sc ) CHECK(at[i]==exp[i], "field %d at offset %zu, should be %zu", i, at[i], exp[i]);
		if( !packed && sc ) CHECK((uintptr_t)p % sz[i]==0, "field %d misaligned", i);
		prev_end = at[i] + sz[i];
	}
	size_t const bad[] = { (size_t)n, (size_t)n+1, SIZE_MAX, 256, 65536, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63 };
	for( int b=0; b < 8; b++ ) {
		if( bad[b] < (size_t)n ) continue;
		uint8_t x = 1;
		CHECK(harbol_tuple_get(t, bad[b])==NULL && harbol_tuple_field_size(t, bad[b])==0 && harbol_tuple_set(t, bad[b], &x)==NULL, "index %zu of %d accepted", bad[b], n);
	}
	/* write fields in several orders; compare the whole storage after each write */
	uint8_t *ref = __real_calloc(1, L); bool small = sum <= 4096;
	CHECK(!memcmp(base, ref, L), "storage is not zero initially");
	for( int r=0; r < 2; r++ ) for( int k=0; k < n; k++ ) {
		int f = r? n-1-k : k;
		uint8_t *v = __real_malloc(sz[f]); for( size_t b=0; b < sz[f]; b++ ) v[b] = ref[at[f]+b] = pat(f, b, r);
		CHECK(harbol_tuple_set(t, (size_t)f, v)==base + at[f], "set(%d) returned something else than the field", f);
		__real_free(v);
		if( small || k==n-1 ) {
			for( int j=0; j < n; j++ ) CHECK(!memcmp(harbol_tuple_get(t, (size_t)j), ref+at[j], sz[j]), "after writing field %d, field %d reads differently", f, j);
			CHECK(!memcmp(base, ref, L), "writing field %d changed padding or another field", f);
		}
	}
	uint8_t *s = __real_malloc(L); memset(s, 0xEE, L);
	CHECK(harbol_tuple_to_struct(t, s) && !memcmp(s, ref, L), "to_struct copied something else");
	__real_free(s); __real_free(ref);
	if( ctor < 2 ) {
		harbol_tuple_clear(t);
		uint8_t x = 1;
		CHECK(harbol_tuple_len(t)==0 && harbol_tuple_get(t, 0)==NULL && harbol_tuple_set(t, 0, &x)==NULL && harbol_tuple_field_size(t, 0)==0 && !harbol_tuple_to_struct(t, &x), "cleared tuple still yields fields");
		harbol_tuple_clear(t);
	} else { harbol_tuple_free(&t); CHECK(t==NULL, "free left the pointer"); harbol_tuple_free(&t); }
}
static void word(uint32_t const *w, int len) {
	if( len==0 ) return;
	size_t sz[16]; for( int i=0; i < len; i++ ) sz[i] = C[cfg].sz[w[i]];
	for( int packed=0; packed < 2; packed++ ) one(sz, len, packed, (int)((w[0] + (uint32_t)len + (uint32_t)packed) % 3));
	if( vp_want_sample && len==4 ) vp_sample("sizes %zu,%zu,%zu,%zu", sz[0], sz[1], sz[2], sz[3]);
}

/* ---- ladder: many fields, and one large field at every place ---- */
enum { NC = (int)(sizeof C / sizeof *C), NLAD = 2 };
static void ladder_run(int c, uint32_t n, uint32_t pt, uint32_t x, uint32_t packed) {
	uint32_t t[4] = {n, pt, x, packed}; if( !vp_case(t, 4) ) return; vp_note("%u fields, pattern %u, %u, packed %u", n, pt, x, packed);
	static size_t sz[70000]; static size_t const S4[] = {1,2,4,8}, U[] = {1,2,4,8,3,16,24,64}, M[] = {1,3,8,5,2,16,4,7};
	for( uint32_t i=0; i < n; i++ ) switch( c? 99 : pt ) {
		case 8: sz[i] = i & 1? 8 : 1; break; case 9: sz[i] = i & 1? 1 : 8; break; case 10: sz[i] = S4[i % 4]; break; case 11: sz[i] = S4[3 - i % 4]; break; case 12: sz[i] = i & 1? 2 : 1; break; case 13: sz[i] = i % 3==2? 4 : 1; break; case 14: sz[i] = M[i % 8]; break; case 15: sz[i] = i+1==n? 8 : 1; break; case 16: sz[i] = i? 1 : 8; break; case 17: sz[i] = i % 200 + 1; break;
		case 99: sz[i] = S4[(i*3 + pt) % 4]; break;
		default: sz[i] = U[pt]; }
	if( c && n ) sz[pt % n] = x;
	one(sz, (int)n, packed, (int)(n + pt + packed) % 3); vp_case_done();
}
static void ladder(int c) {
	static uint32_t const far[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 8190, 8191, 8192, 16383, 16384, 32767, 32768, 65534, 65535, 65536};
	if( c==0 ) { for( uint32_t q=0; q < 100 + 27; q++ ) { uint32_t const n = q < 100? q+1 : far[q-100]; for( uint32_t p=0; p < 18; p++ ) for( uint32_t k=0; k < 2; k++ ) ladder_run(c, n, p, 0, k); } return; }
	for( uint32_t n=1; n <= 6; n++ ) for( uint32_t p=0; p < n; p++ ) for( uint32_t k=0; k < 2; k++ ) {
		for( uint32_t x=1; x <= (vp_tier? 1100u : 600u); x++ ) ladder_run(c, n, p, x, k);
		for( uint32_t e=9; e <= 16; e++ ) for( int d=-9; d <= 9; d++ ) ladder_run(c, n, p, (uint32_t)((1 << e) + d), k);
	}
}
int vp_nconfigs(void) { return NC + NLAD; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) { snprintf(o, n, "ladder-%d", c-NC); return; } snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { return c >= NC? 1 : 4; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } cfg = c; vp_words((uint32_t)C[c].n, vp_tier? C[c].lt : C[c].lq, word); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==4 ) ladder_run(c-NC, t[0], t[1], t[2], t[3]); return; } cfg = c; for( size_t i=0; i < l; i++ ) vp_note("size %zu", C[c].sz[t[i]]); if( vp_case(t, l) ) { word(t, (int)l); vp_case_done(); } }
