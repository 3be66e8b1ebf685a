/* C30: copying, buffer, hash, bounds and file-reading helpers against plain loops. */
#define _GNU_SOURCE
#include "vp.h"
#include <unistd.h>
#include <sys/stat.h>
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
char const *const vp_property = "C30";
enum { COPIES, STOPS, SWITCH, BOUNDS, FORMAT, FREES, HASHES, FILES, LISTS, GROW, MULTI, SHIFT, NCFG };
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", (char const *[]){"copies","copy-until","cstr_switch","bounds","formatted","frees","hashes","files","long lists and texts","growing a block","growing several blocks","shifting arrays"}[c]); }
int vp_config_shards(int c) { (void)c; return 1; }
static uint32_t const FAR[] = {127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 131073}; enum { NF = sizeof FAR / 4 };
static uint32_t lad(uint32_t i, uint32_t dense) { return i < dense? i : FAR[i-dense]; }
static uint8_t *fill(uint32_t n, uint32_t k, bool text) { uint8_t *p = __real_malloc(n + 2); p[n+1] = 0; for( uint32_t i=0; i < n; i++ ) { p[i] = (uint8_t)(i*7 + i/256*13 + k*31 + 1); if( text && !p[i] ) p[i] = 0x80; } p[n] = 0; return p; }
/* exact: a block of exactly n bytes */
static uint8_t *exact(uint8_t const *s, size_t n) { uint8_t *p = __real_malloc(n? n : 1); memcpy(p, s, n); return p; }
static void copies(uint32_t n, uint32_t m) { /* text of n characters, copies of m of them */
	uint32_t t[2] = {n, m}; if( !vp_case(t, 2) ) return; vp_note("%u of %u bytes", m, n); uint8_t *src = fill(n, m, true), *s = exact(src, n), *z = exact(src, n+1);
	if( m==n && n ) { uint8_t *c = dup_data(s, n); CHECK(c && c != s && !memcmp(c, s, n), "dup_data of %u bytes", n); c[n-1] ^= 1; CHECK(!memcmp(s, src, n), "dup_data shares its bytes"); free(c); }
	if( m <= n ) {
		char *d = dup_cstr(m, (char const *)z); CHECK(d && (uint8_t *)d != z && !memcmp(d, src, m) && d[m]==0, "dup_cstr of %u of %u characters", m, n); CHECK(!memcmp(z, src, n+1), "dup_cstr changed its source"); free(d);
		uint8_t *o = __real_malloc(n+1); memset(o, 0xA5, n+1); void *e = harbol_mempcpy(o, s, m); CHECK(e==o+m && !memcmp(o, src, m), "harbol_mempcpy of %u bytes", m); for( uint32_t i=m; i <= n; i++ ) CHECK(o[i]==0xA5, "harbol_mempcpy wrote too far"); __real_free(o);
	}
	/* a text of n characters resized to m */
	size_t len = n; uint8_t *r = calloc(n+1, 1); memcpy(r, src, n); uint8_t *q = harbol_resize_string(r, 1, &len, m); CHECK(q && len==m, "resize to %u: length %zu", m, len); for( uint32_t i=0; i <= m; i++ ) if( i < n && i < m ) CHECK(q[i]==src[i], "resize from %u to %u lost a character", n, m); else if( i > n || i==m || i==n ) CHECK(i < m && i >= n? q[i]==0 : i==m? (q[i]=0, true) : true, "resize from %u to %u left garbage at %u", n, m, i); free(q);
	if( n==0 ) { len = 0; q = harbol_resize_string(NULL, 1, &len, m); CHECK(q && len==m, "resize of no text"); for( uint32_t i=0; i <= m; i++ ) CHECK(q[i]==0, "new text isn't empty"); free(q); }
	__real_free(src); __real_free(s); __real_free(z); vp_case_done();
}
static void stops(uint32_t n, uint32_t at, uint32_t cnt) { /* the sought byte at 'at' (== n: nowhere) and everywhere behind; cnt bytes allowed */
	uint32_t t[3] = {n, at, cnt}; if( !vp_case(t, 3) ) return; vp_note("%u bytes, stop at %u, %u allowed", n, at, cnt);
	for( int k=0; k < 3; k++ ) { int const c = (int[]){0, 0xff, 'x'}[k]; uint8_t *s = __real_malloc(cnt? cnt : 1); for( uint32_t i=0; i < cnt; i++ ) s[i] = (uint8_t)(i >= at? (i==at || i % 2? c : 'q') : 'a' + i % 5); uint8_t *o = __real_malloc(n + 2); memset(o, 0x5A, n+2);
		void *e = harbol_memccpy(o, s, k==1? -1 : c, cnt); uint32_t const w = at < cnt? at+1 : cnt; CHECK(e==(at < cnt? o+w : NULL), "harbol_memccpy of %u bytes with the character at %u", cnt, at); CHECK(!memcmp(o, s, w), "harbol_memccpy copied something else"); for( uint32_t i=w; i < n+2; i++ ) CHECK(o[i]==0x5A, "harbol_memccpy wrote too far"); __real_free(o); __real_free(s); }
	vp_case_done();
}
static char const *const SW[] = {"", "a", "ab", "b", "A", "\xff"};
static void cswitch(uint32_t const *w, int len) { /* first: the text, the others: the list */
	if( len < 1 ) return; char const *a[8] = {0}; for( int i=1; i < len; i++ ) a[i-1] = SW[w[i]]; size_t e = SIZE_MAX; for( int i=1; i < len; i++ ) if( w[i]==w[0] ) { e = (size_t)i-1; break; }
	char *s = (char *)exact((uint8_t const *)SW[w[0]], strlen(SW[w[0]])+1); size_t r = len==1? cstr_switch(s, NULL) : len==2? cstr_switch(s, a[0], NULL) : len==3? cstr_switch(s, a[0], a[1], NULL) : len==4? cstr_switch(s, a[0], a[1], a[2], NULL) : len==5? cstr_switch(s, a[0], a[1], a[2], a[3], NULL) : len==6? cstr_switch(s, a[0], a[1], a[2], a[3], a[4], NULL) : cstr_switch(s, a[0], a[1], a[2], a[3], a[4], a[5], NULL);
	__real_free(s); CHECK(r==e, "cstr_switch(\"%s\") among %d is %zd, should be %zd", SW[w[0]], len-1, r, e);
}
static void bounds(void) {
	static uint64_t V[400]; int n = 0; for( int b=0; b < 64; b += (b < 4 || b > 60 || (b > 29 && b < 34))? 1 : 7 ) for( int d=-2; d <= 2; d++ ) V[n++] = ((uint64_t)1 << b) + (uint64_t)(int64_t)d; V[n++] = 12345678901234; for( int d=-5; d > -200000; d *= 3 ) { V[n++] = (uint64_t)(int64_t)d; V[n++] = (uint64_t)(int64_t)d << 30; }
	for( int i=0; i < n; i++ ) for( int j=0; j < n; j++ ) { uint32_t t[2] = {(uint32_t)i, (uint32_t)j}; if( !vp_case(t, 2) ) continue; for( int k=0; k < n; k++ ) { uint64_t v = V[i], mx = V[j], mn = V[k];
		if( mn <= mx ) { CHECK(is_uint_in_bounds(v, mx, mn)==(mn <= v && v <= mx), "is_uint_in_bounds(%lu, %lu, %lu)", v, mx, mn); CHECK(is_uintptr_in_bounds(v, mx, mn)==(mn <= v && v <= mx), "is_uintptr_in_bounds(%lu, %lu, %lu)", v, mx, mn); }
		if( (int64_t)mn <= (int64_t)mx ) CHECK(is_int_in_bounds((ssize_t)v, (ssize_t)mx, (ssize_t)mn)==((int64_t)mn <= (int64_t)v && (int64_t)v <= (int64_t)mx), "is_int_in_bounds(%ld, %ld, %ld)", v, mx, mn); }
		for( int b=0; b < 63; b++ ) CHECK(is_ptr_aligned((void *)V[i], (size_t)1 << b)==(V[i] % ((uint64_t)1 << b)==0), "is_ptr_aligned(%lx, 2^%d)", V[i], b);
		vp_case_done(); vp_add_transitions((uint64_t)n); }
}
static void format(uint32_t n, uint32_t k) {
	uint32_t t[2] = {n, k}; if( !vp_case(t, 2) ) return; uint8_t *s = fill(n, k, true); char *e = NULL, *r = NULL; int el = 0;
	switch( k ) { case 0: r = sprintf_alloc("%s", s); el = asprintf(&e, "%s", s); break; case 1: r = sprintf_alloc("<%s|%d>", s, -(int)n); el = asprintf(&e, "<%s|%d>", s, -(int)n); break; case 2: r = sprintf_alloc("%*d%c", (int)n, 7, 'z'); el = asprintf(&e, "%*d%c", (int)n, 7, 'z'); break;
		case 3: r = sprintf_alloc("%s%s", s, s); el = asprintf(&e, "%s%s", s, s); break; case 4: r = sprintf_alloc("%.*s%%", (int)(n/2), s); el = asprintf(&e, "%.*s%%", (int)(n/2), s); break; case 5: r = sprintf_alloc("%Lf %zu %lx", (long double)n/3, (size_t)n << 40, ~(unsigned long)n); el = asprintf(&e, "%Lf %zu %lx", (long double)n/3, (size_t)n << 40, ~(unsigned long)n); break;
		case 6: r = sprintf_alloc("%d%d%d%d%d%d%d%d%d%d", n,n+1,n+2,n+3,n+4,n+5,n+6,n+7,n+8,n+9); el = asprintf(&e, "%d%d%d%d%d%d%d%d%d%d", n,n+1,n+2,n+3,n+4,n+5,n+6,n+7,n+8,n+9); break; default: r = sprintf_alloc("%.3f %.2f %s %.1f %c", n/7., n/9., s, n/11., '!'); el = asprintf(&e, "%.3f %.2f %s %.1f %c", n/7., n/9., s, n/11., '!'); }
	CHECK(r && (int)strlen(r)==el && !strcmp(r, e), "sprintf_alloc kind %u of %u characters: \"%.50s\", should be \"%.50s\"", k, n, r, e); free(r); __real_free(e); __real_free(s); vp_case_done();
}
static void frees(uint32_t n, uint32_t stop, uint32_t nulls) { /* n blocks, list ends early at 'stop', blocks in 'nulls' absent */
	uint32_t t[3] = {n, stop, nulls}; if( !vp_case(t, 3) ) return; void *p[6], *q[6], **r[6]; for( uint32_t i=0; i < 6; i++ ) { p[i] = i < n && !(nulls >> i & 1)? malloc(5+i) : NULL; q[i] = p[i]; r[i] = i==stop? NULL : &p[i]; }
	long const live = vp_live; harbol_multi_cleanup(n, r[0], r[1], r[2], r[3], r[4], r[5]); long gone = 0; for( uint32_t i=0; i < n; i++ ) if( i < stop ) { CHECK(p[i]==NULL, "buffer %u of %u isn't cleared", i, n); gone += q[i] != NULL; } else CHECK(p[i]==q[i], "buffer %u behind the end of the list was cleared", i); CHECK(live - vp_live==gone, "%ld blocks freed, should be %ld", live - vp_live, gone);
	for( uint32_t i=0; i < n; i++ ) { harbol_cleanup(&p[i]); CHECK(p[i]==NULL, "harbol_cleanup left the pointer"); harbol_cleanup(&p[i]); CHECK(p[i]==NULL, "harbol_cleanup of NULL"); } vp_case_done();
}
static size_t sdbm(uint8_t const *p, size_t n, size_t seed) { size_t h = seed; for( size_t i=0; i < n; i++ ) h = h * 65599u + p[i]; return h; }
static void hashes(uint32_t n, uint32_t k) {
	uint32_t t[2] = {n, k}; if( !vp_case(t, 2) ) return; static size_t const S[] = {0, 1, 65599, SIZE_MAX, 0x8000000000000000u, 123456789}; uint8_t *src = fill(n, k, false), *s = exact(src, n); for( int i=0; i < 6; i++ ) { size_t h = array_hash(s, n, S[i]); CHECK(h==sdbm(src, n, S[i]), "array_hash of %u bytes with seed %zx is %zx", n, S[i], h); vp_outcome(h); }
	for( uint32_t i=0; i < n; i++ ) src[i] = (uint8_t)(1 + (src[i] + i/128) % 127); uint8_t *z = exact(src, n+1); for( int i=0; i < 6; i++ ) CHECK(string_hash((char *)z, S[i])==sdbm(src, n, S[i]), "string_hash of %u characters with seed %zx", n, S[i]);
	/* numbers: their eight bytes, lowest first; equal values hash equal */
	uint64_t v = n < 64? (uint64_t)1 << n : n < 128? ((uint64_t)1 << (n-64)) - 1 : (uint64_t)n * 0x9E3779B97F4A7C15u + k; uint8_t b[8]; for( int i=0; i < 8; i++ ) b[i] = (uint8_t)(v >> 8*i); for( int i=0; i < 6; i++ ) CHECK(int_hash(v, S[i])==sdbm(b, 8, S[i]), "int_hash(%lx) with seed %zx", v, S[i]);
	double d = n < 128? (double)v / 7 : -(double)n / (k+1); memcpy(b, &d, 8); for( int i=0; i < 6; i++ ) CHECK(float_hash(d, S[i])==sdbm(b, 8, S[i]), "float_hash(%g) with seed %zx", d, S[i]);
	for( int i=0; i < 6; i++ ) { CHECK(ptr_hash(s, S[i])==ptr_hash(s, S[i]), "ptr_hash of one pointer differs"); } CHECK(ptr_hash((void *)(v | 1), 0) != ptr_hash((void *)((v | 1) ^ 0x10), 0) && ptr_hash((void *)(v | 1), 0) != ptr_hash((void *)((v | 1) ^ ((uintptr_t)1 << 47)), 0), "ptr_hash ignores a bit of the address");
	__real_free(src); __real_free(s); __real_free(z); vp_case_done();
}
static void files(uint32_t n, uint32_t pos) { /* a file of n bytes read from a stream standing at some place, and by name */
	uint32_t t[2] = {n, pos}; if( !vp_case(t, 2) ) return; vp_note("file of %u bytes, stream at class %u", n, pos); uint8_t *src = fill(n, pos, false); FILE *f = fopen("c30.bin", "wb"); CHECK(f && fwrite(src, 1, n, f)==n && !fclose(f), "cannot write the file");
	f = fopen("c30.bin", pos & 1? "rb" : "r+"); fseek(f, (long[]){0, 1, n/2, n, n+5}[pos], SEEK_SET); if( pos==3 ) { (void)fgetc(f); CHECK(feof(f), "not at the end"); } CHECK(get_file_size(f)==(ssize_t)n, "get_file_size"); CHECK(ftell(f)==0, "get_file_size left the stream at %ld", ftell(f));
	fseek(f, (long[]){0, 1, n/2, n, n+5}[pos], SEEK_SET);
	for( int k=0; k < 3; k++ ) { size_t len = 777; uint8_t *b = k==0? make_buffer_from_file(f, &len) : k==1? make_buffer_from_binary("c30.bin", &len) : (uint8_t *)make_buffer_from_text("c30.bin", &len); if( n==0 ) { CHECK(!b, "an empty file has a content"); continue; } CHECK(b && len==n && !memcmp(b, src, n), "file of %u bytes: %zu read", n, len); CHECK(b[n]==0, "content isn't terminated"); free(b); }
	fclose(f); size_t len; CHECK(!make_buffer_from_binary("no-such-file", &len) && !make_buffer_from_text("no-such-dir/file", &len), "a missing file has a content"); unlink("c30.bin"); __real_free(src); vp_case_done();
}
/* a list of 600 texts of n characters, the sought one at 'at' (600: nowhere), the list ends at 'stop'; the others differ from it in one character */
#define L10(x) G(x), G(x+1), G(x+2), G(x+3), G(x+4), G(x+5), G(x+6), G(x+7), G(x+8), G(x+9)
#define L100(x) L10(x), L10(x+10), L10(x+20), L10(x+30), L10(x+40), L10(x+50), L10(x+60), L10(x+70), L10(x+80), L10(x+90)
static char *LT[600];
#define G(i) LT[i]
static void lists(uint32_t n, uint32_t at, uint32_t stop) {
	uint32_t t[3] = {n, at, stop}; if( !vp_case(t, 3) ) return; vp_note("texts of %u, at %u, list of %u", n, at, stop); char *s = (char *)fill(n, 1, true), *v[3]; for( int k=0; k < 3; k++ ) { v[k] = (char *)exact((uint8_t *)s, n+2); } if( n ) { v[0][n-1] = (char)(s[n-1]=='!'? '?' : '!'); v[1][0] = (char)(s[0]=='!'? '?' : '!'); } else { __real_free(v[0]); __real_free(v[1]); v[0] = (char *)exact((uint8_t *)"a", 2); v[1] = (char *)exact((uint8_t *)" ", 2); } v[2][n] = 'x'; v[2][n+1] = 0; char *same = (char *)exact((uint8_t *)s, n+1);
	for( uint32_t i=0; i < 600; i++ ) LT[i] = i >= stop? NULL : i==at? same : v[i%3]; size_t r = cstr_switch(s, L100(0), L100(100), L100(200), L100(300), L100(400), L100(500), NULL), e = at < stop? at : SIZE_MAX; CHECK(r==e, "cstr_switch of %u characters among %u is %zd, should be %zd", n, stop, r, e);
	for( int k=0; k < 3; k++ ) __real_free(v[k]); __real_free(s); __real_free(same); vp_case_done();
}
/* blocks of n elements of ES[k] bytes made m elements long */
static uint32_t const ES[] = {1, 2, 4, 7, 8, 16, 24, 65, 128, 255, 256, 300}; enum { NES = 12 };
static bool zero(uint8_t const *p, size_t n) { for( size_t i=0; i < n; i++ ) if( p[i] ) return false; return true; }
static void grow(uint32_t n, uint32_t m, uint32_t k) {
	uint32_t t[3] = {n, m, k}; if( !vp_case(t, 3) ) return; size_t const e = ES[k]; vp_note("%u elements of %zu bytes made %u", n, e, m); size_t const keep = (n < m? n : m) * e;
	uint8_t *src = fill(n * (uint32_t)e, k, false), *p = NULL; if( n ) { p = malloc(n*e); memcpy(p, src, n*e); }
	if( n ) { if( e > 1 ) { uint8_t *q = harbol_recalloc(p, SIZE_MAX/e + 2, e, n); CHECK(!q && !memcmp(p, src, n*e), "harbol_recalloc of more elements than there is memory"); } vp_arm(1, 0); uint8_t *q = harbol_recalloc(p, m, e, n); int const f = vp_failed_allocs; vp_disarm(); if( f ) CHECK(!q && !memcmp(p, src, n*e), "a harbol_recalloc without memory gave a block or changed the old one"); else p = q, p = realloc(p, n*e); if( !f ) memcpy(p, src, n*e); }
	uint8_t *q = harbol_recalloc(p, m, e, n); CHECK(q, "harbol_recalloc of %u elements to %u failed", n, m); CHECK(!memcmp(q, src, keep), "harbol_recalloc lost elements"); CHECK(zero(q + keep, m*e - keep), "harbol_recalloc: new elements aren't zero"); free(q); __real_free(src); vp_case_done();
}
/* nb blocks of different element sizes; those in 'nulls' are absent; the fail-th allocation fails (0: none) */
static void multi(uint32_t nb, uint32_t n, uint32_t m, uint32_t nulls, uint32_t fail) {
	uint32_t t[5] = {nb, n, m, nulls, fail}; if( !vp_case(t, 5) ) return; vp_note("%u blocks of %u elements made %u, absent %x, allocation %u fails", nb, n, m, nulls, fail); long const live0 = vp_live;
	size_t z[4]; void *p[4] = {0}; uint8_t *src[4]; for( uint32_t i=0; i < 4; i++ ) { z[i] = ES[(i*5 + n) % NES]; src[i] = fill(n * (uint32_t)z[i], i, false); p[i] = (void *)src[i]; }
	vp_arm(fail, 0); bool r = nb==0? harbol_multi_calloc(n, 0) : nb==1? harbol_multi_calloc(n, 1, &p[0], z[0]) : nb==2? harbol_multi_calloc(n, 2, &p[0], z[0], &p[1], z[1]) : nb==3? harbol_multi_calloc(n, 3, &p[0], z[0], &p[1], z[1], &p[2], z[2]) : harbol_multi_calloc(n, 4, &p[0], z[0], &p[1], z[1], &p[2], z[2], &p[3], z[3]); int f = vp_failed_allocs; vp_disarm();
	CHECK(r==!f, "harbol_multi_calloc returned %d", r); if( f ) CHECK(vp_live==live0, "a failed harbol_multi_calloc keeps memory"); for( uint32_t i=0; i < nb; i++ ) if( f ) CHECK(!p[i], "a failed harbol_multi_calloc leaves buffer %u of %u", i, nb); else { CHECK(p[i] && zero(p[i], n*z[i]), "buffer %u of %u isn't zero", i, nb); free(p[i]); } CHECK(vp_live==live0, "harbol_multi_calloc leaks");
	for( uint32_t i=0; i < 4; i++ ) { p[i] = i < nb && !(nulls >> i & 1)? malloc(n*z[i]) : NULL; if( p[i] ) memcpy(p[i], src[i], n*z[i]); }
	vp_arm(fail, 0); r = nb==1? harbol_multi_recalloc(m, n, 1, &p[0], z[0]) : nb==2? harbol_multi_recalloc(m, n, 2, &p[0], z[0], &p[1], z[1]) : nb==3? harbol_multi_recalloc(m, n, 3, &p[0], z[0], &p[1], z[1], &p[2], z[2]) : nb==4? harbol_multi_recalloc(m, n, 4, &p[0], z[0], &p[1], z[1], &p[2], z[2], &p[3], z[3]) : true; f = vp_failed_allocs; vp_disarm(); CHECK(r==!f, "harbol_multi_recalloc returned %d", r);
	for( uint32_t i=0; i < nb; i++ ) { bool const had = !(nulls >> i & 1); size_t const keep = !had? 0 : (f || n < m? n : m) * z[i], all = (f? n : m) * z[i]; if( f && !had ) { CHECK(!p[i], "a failed harbol_multi_recalloc gave buffer %u", i); continue; } CHECK(p[i], "buffer %u of %u is missing", i, nb); CHECK(!memcmp(p[i], src[i], keep), "harbol_multi_recalloc%s lost elements of buffer %u of %u", f? " without memory" : "", i, nb); CHECK(zero((uint8_t *)p[i] + keep, all - keep), "new elements of buffer %u of %u aren't zero", i, nb); }
	for( uint32_t i=0; i < 4; i++ ) { free(p[i]); __real_free(src[i]); } CHECK(vp_live==live0, "harbol_multi_recalloc leaks"); vp_case_done();
}
/* arrays of n elements (room for n+3), 'amount' taken out at 'at' */
static void shift(uint32_t n, uint32_t at, uint32_t am, uint32_t k) {
	uint32_t t[4] = {n, at, am, k}; if( !vp_case(t, 4) ) return; size_t const amount = am < 20000? am : (size_t[]){SIZE_MAX, SIZE_MAX - at, SIZE_MAX - at + 1, SIZE_MAX/2 + 1, SIZE_MAX/ES[k] + 1, (size_t)1 << 32}[am - 20000]; vp_note("%u elements of %u bytes, %zu taken out at %u", n, ES[k], amount, at);
	bool const ok = at < n; size_t const gone = !ok? 0 : amount==0? 1 : amount < n-at? amount : n-at;
	for( int v=0; v < 4; v++ ) { size_t z[3], len = n; uint8_t *b[3], *src[3]; for( int i=0; i < 3; i++ ) { z[i] = ES[(k + (uint32_t)i) % NES]; src[i] = fill((n+3) * (uint32_t)z[i], (uint32_t)i, false); b[i] = exact(src[i], (n+3) * z[i]); }
		bool r = v==0? array_shift_up(b[0], &len, at, z[0], amount) : v==1? multi_array_shift_up(&len, at, amount, 1, b[0], z[0]) : v==2? multi_array_shift_up(&len, at, amount, 2, b[0], z[0], b[1], z[1]) : multi_array_shift_up(&len, at, amount, 3, b[0], z[0], b[1], z[1], b[2], z[2]);
		CHECK(r==ok && len==n-gone, "shifting %u elements at %u by %zu: %d, length %zu, should be %zu", n, at, amount, r, len, n-gone);
		for( int i=0; i < (v? v : 1); i++ ) { CHECK(!memcmp(b[i], src[i], (ok? at : n)*z[i]), "elements before the place changed"); if( ok ) CHECK(!memcmp(b[i] + at*z[i], src[i] + (at+gone)*z[i], (n-gone-at)*z[i]), "elements behind the place are wrong in buffer %d of %d", i, v); CHECK(zero(b[i] + (n-gone)*z[i], gone*z[i]), "vacated places aren't zero in buffer %d of %d", i, v); CHECK(!memcmp(b[i] + n*z[i], src[i] + n*z[i], 3*z[i]), "written behind the array"); }
		for( int i=0; i < 3; i++ ) { __real_free(b[i]); __real_free(src[i]); } }
	vp_case_done();
}
void vp_explore(int c) {
	uint32_t const dense = vp_tier? 300 : 110; uint32_t const N = dense + NF;
	switch( c ) {
	case COPIES: for( uint32_t i=0; i < N; i++ ) for( uint32_t j=0; j < N; j++ ) { uint32_t const n = lad(i, dense), m = lad(j, dense); if( n + m > 20000 && i != j && i % 3 && j % 3 ) continue; copies(n, m); } break;
	case STOPS: for( uint32_t i=0; i < 60 + NF; i++ ) { uint32_t const n = lad(i, 60); for( uint32_t j=0; j < 60 + NF; j++ ) { uint32_t const at = lad(j, 60); if( at > n ) break; stops(n, at, n); if( n ) stops(n, at, n-1); stops(n, at, at); stops(n, at, at/2); if( at < n ) stops(n, at, at+1); } } break;
	case SWITCH: vp_words(6, vp_tier? 7 : 6, cswitch); break;
	case BOUNDS: bounds(); break;
	case FORMAT: for( uint32_t i=0; i < N; i++ ) for( uint32_t k=0; k < 8; k++ ) format(lad(i, dense), k); break;
	case FREES: for( uint32_t n=0; n <= 6; n++ ) for( uint32_t s=0; s <= 6; s++ ) for( uint32_t m=0; m < (1u << n); m++ ) frees(n, s, m); break;
	case HASHES: for( uint32_t i=1; i < N; i++ ) for( uint32_t k=0; k < 8; k++ ) hashes(lad(i, dense), k); break;
	case LISTS: { static uint32_t const A[] = {0, 1, 2, 9, 99, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 598, 599, 600}; for( uint32_t i=0; i < N; i++ ) for( uint32_t a=0; a < 19; a++ ) for( uint32_t b=0; b < 19; b++ ) if( lad(i, dense) < 3 || ((i+a+b)%7==0) || vp_tier ) lists(lad(i, dense), A[a], A[b]); break; }
	case GROW: for( uint32_t i=0; i < 40 + NF; i++ ) for( uint32_t j=1; j < 40 + NF; j++ ) for( uint32_t k=0; k < NES; k++ ) { uint32_t const n = lad(i, 40), m = lad(j, 40); if( (n > 5000 || m > 5000) && (ES[k] > 16 || (i + j) % 4) ) continue; grow(n, m, k); } break;
	case MULTI: for( uint32_t nb=0; nb <= 4; nb++ ) for( uint32_t n=1; n <= (vp_tier? 24u : 12u); n++ ) for( uint32_t m=1; m <= (vp_tier? 24u : 12u); m++ ) for( uint32_t x=0; x < (1u << nb); x++ ) for( uint32_t f=0; f <= nb+1; f++ ) multi(nb, n, m, x, f); for( uint32_t i=0; i < NF; i++ ) for( uint32_t j=0; j < NF; j++ ) if( FAR[i] < 9000 && FAR[j] < 9000 ) multi(3, FAR[i], FAR[j], 0, 0); break;
	case SHIFT: for( uint32_t n=0; n <= (vp_tier? 40u : 20u); n++ ) for( uint32_t at=0; at <= n+1; at++ ) for( uint32_t k=0; k < NES; k++ ) { for( uint32_t a=0; a <= n+2; a++ ) shift(n, at, a, k); for( uint32_t a=20000; a < 20006; a++ ) shift(n, at, a, k); } for( uint32_t i=0; i < NF; i++ ) if( FAR[i] < 9000 ) for( uint32_t k=0; k < 6; k++ ) for( uint32_t x=0; x < 25; x++ ) { uint32_t const n = FAR[i], y[] = {0, 1, n/2, n-2, n-1}; shift(n, y[x/5], y[x%5], k); } break;
	case FILES: for( uint32_t i=0; i < N; i++ ) for( uint32_t p=0; p < 5; p++ ) files(lad(i, dense), p); break;
	}
}
void vp_replay(int c, uint32_t const *t, size_t n) {
	switch( c ) { case COPIES: copies(t[0], t[1]); break; case STOPS: stops(t[0], t[1], t[2]); break; case SWITCH: if( vp_case(t, n) ) { cswitch(t, (int)n); vp_case_done(); } break; case BOUNDS: bounds(); break; case FORMAT: format(t[0], t[1]); break; case FREES: frees(t[0], t[1], t[2]); break; case HASHES: hashes(t[0], t[1]); break; case FILES: files(t[0], t[1]); break; case LISTS: lists(t[0], t[1], t[2]); break; case GROW: grow(t[0], t[1], t[2]); break; case MULTI: multi(t[0], t[1], t[2], t[3], t[4]); break; case SHIFT: shift(t[0], t[1], t[2], t[3]); break; }
}
