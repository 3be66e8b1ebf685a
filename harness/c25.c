/* C25: integer logarithm / digit-count / alignment helpers over every argument class, against plain loops in 128-bit arithmetic. */
#include "vp.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
char const *const vp_property = "C25";
enum { SMALL, POWERS, BASES, ALIGN, NCFG };
typedef unsigned __int128 U;
static int cfg; static uint64_t nargs;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every small value", "values around powers", "every base", "every alignment"})[c]); }
int vp_config_shards(int c) { return c==SMALL || c==BASES? 8 : 1; }
static size_t flog(size_t x, size_t b) { size_t r = 0; while( x >= b ) { x /= b; r++; } return r; }
static void value(uint64_t x) { nargs++;
	char t[80]; size_t l2 = flog(x, 2), l10 = flog(x, 10);
	CHECK(int_log2(x)==l2, "int_log2(%lu) is %zu, should be %zu", x, int_log2(x), l2); CHECK(int_log10(x)==l10, "int_log10(%lu) is %zu, should be %zu", x, int_log10(x), l10);
	CHECK(base_2_digits(x)==(x? l2+1 : 0) && base_2_num_chars(x)==(x? l2+2 : 1), "base 2 digits of %lu: %zu", x, base_2_digits(x));
	CHECK(base_10_digits(x)==l10+1 && base_10_num_chars_uint(x)==(size_t)snprintf(t, sizeof t, "%lu", x)+1, "base 10 digits of %lu: %zu", x, base_10_digits(x));
	ssize_t s[2] = {(ssize_t)x, (ssize_t)(0-x)}; for( int i=0; i < 2; i++ ) { size_t need = (size_t)snprintf(t, sizeof t, "%ld", s[i]) + 1 + (s[i] >= 0); CHECK(base_10_num_chars_int(s[i])==need, "base_10_num_chars_int(%ld) is %zu, should be %zu", s[i], base_10_num_chars_int(s[i]), need); }
	U p = 1; while( p <= x ) p *= 2; CHECK(next_pow_of_2(x)==(size_t)p, "next_pow_of_2(%lu) is %zu", x, next_pow_of_2(x)); CHECK(bitwise_ceil(x)==(size_t)(p-1), "bitwise_ceil(%lu) is %zu", x, bitwise_ceil(x)); vp_add_transitions(9);
}
static size_t table[MAX_LOG_TABLE_SIZE], *powers; 
static void one_base(uint64_t b) {
	memset(table, 0xEE, sizeof table); powers = NULL; size_t n = make_int_log_tables(b, &table, &powers);
	if( b < 3 ) { CHECK(n==0 && powers==NULL, "tables for base %lu", b); return; }
	size_t want = flog(SIZE_MAX, b)+1; CHECK(n==want, "%zu powers of %lu, should be %zu", n, b, want);
	U p = 1; for( size_t i=0; i < n; i++, p *= b ) CHECK(powers[i]==(size_t)p, "power %zu of %lu is %zu", i, b, powers[i]);
	p = 1; for( size_t i=0; i <= n; i++, p *= b ) for( int d=-2; d <= 2; d++ ) { nargs++; size_t x = (p >> 64? SIZE_MAX-2 : (size_t)p) + (size_t)(ssize_t)d; size_t l = flog(x, b); CHECK(int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers)==l, "int_log(%zu) base %lu is %zu, should be %zu", x, b, int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers), l);
		CHECK(base_N_digits(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers)==l+1 && base_N_num_chars_uint(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers)==l+2, "base %lu digits of %zu", b, x);
		ssize_t s = (ssize_t)x; size_t a = s < 0? 0-x : x; CHECK(base_N_num_chars_int(s, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers)==flog(a, b)+3, "base_N_num_chars_int(%zd) base %lu", s, b); vp_add_transitions(4); }
	for( size_t k=0; k < 64; k++ ) for( int d=-1; d <= 1; d++ ) { nargs++; size_t x = ((size_t)1 << k) + (size_t)(ssize_t)d; size_t l = flog(x, b); CHECK(int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers)==l, "int_log(%zu) base %lu is %zu, should be %zu", x, b, int_log(x, (size_t const (*)[MAX_LOG_TABLE_SIZE])&table, powers), l); }
	free(powers);
}
static void around(uint32_t k, uint32_t m) { U p = 1; uint32_t b = 2+m; for( uint32_t i=0; i < k; i++ ) p *= b; if( p >> 64 ) return; for( int d=-70; d <= 70; d++ ) value((uint64_t)p + (uint64_t)(int64_t)d); }
static void align(uint32_t la, uint32_t hi) {
	size_t a = (size_t)1 << la; for( int d=-300; d <= 2000; d++ ) { if( hi < 2 && d < 0 ) continue; nargs++; size_t x = (hi==0? 0 : hi==1? a : hi==2? a*5 : SIZE_MAX/2/a*a) + (size_t)(ssize_t)d; if( (U)x + a >> 64 ) continue; size_t w = x%a? x + (a - x%a) : x;
		CHECK(harbol_align_size(x, a)==w, "harbol_align_size(%zu, %zu) is %zu", x, a, harbol_align_size(x, a)); CHECK(harbol_pad_size(x, a)==w-x, "harbol_pad_size(%zu, %zu) is %zu", x, a, harbol_pad_size(x, a)); CHECK(is_ptr_aligned((void *)x, a)==(x%a==0), "is_ptr_aligned(%zx, %zu)", x, a); vp_add_transitions(3); }
	for( size_t n=0; n <= 200; n++ ) { size_t w = 0; for( size_t i=0; i < n && i < 8; i++ ) w |= (size_t)0xff << 8*i; CHECK(bytes_bitmask(n)==w, "bytes_bitmask(%zu) is %zx", n, bytes_bitmask(n)); }
}
static void block(uint32_t i) { for( uint64_t x=i*1024ull; x < (i+1)*1024ull; x++ ) value(x); }
static void bases(uint32_t i) { uint64_t b; if( i < 64 ) for( b=i*64ull; b < (i+1)*64ull; b++ ) one_base(b); else { uint32_t k = (i-64)%64; for( int d=-6; d <= 6; d++ ) { b = ((uint64_t)1 << k) + (uint64_t)(int64_t)d; if( i >= 128 ) b = (uint64_t)1 << k | (uint64_t)1 << (k*7%13); if( b < 3 ) continue; one_base(b); if( i >= 128 ) break; } if( i==64 ) { one_base(SIZE_MAX); one_base(SIZE_MAX/2); one_base(SIZE_MAX/3); one_base(0); one_base(1); one_base(2); one_base(4294967295ull); one_base(4294967296ull); one_base(4294967297ull); } } }
static void run(uint32_t const *t) { switch( cfg ) { case SMALL: block(t[0]); break; case POWERS: around(t[0], t[1]); break; case BASES: bases(t[0]); break; default: align(t[0], t[1]); } }
void vp_explore(int c) {
	cfg = c; uint32_t A = c==SMALL? (vp_tier? 65536 : 1024) : c==POWERS? 65 : c==BASES? 192 : 62, B = c==POWERS? 12 : c==ALIGN? 4 : 1; uint64_t idx = 0;
	for( uint32_t a=0; a < A; a++ ) for( uint32_t b=0; b < B; b++ ) { uint32_t t[2] = {a, b}; if( idx++ % (uint64_t)vp_nshards != (uint64_t)vp_shard ) continue; if( vp_case(t, 2) ) { run(t); vp_case_done(); } }
	if( c==BASES && vp_tier ) for( uint32_t i=192; i < 60000; i++ ) { if( i % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; uint32_t t[2] = {i, 1}; if( vp_case(t, 2) ) { one_base(4096ull + i*11ull); one_base(((uint64_t)i << 47) + 1); vp_case_done(); } }
	vp_set_states(nargs);
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( vp_case(t, n) ) { if( c==BASES && t[1] ) { one_base(4096ull + t[0]*11ull); one_base(((uint64_t)t[0] << 47) + 1); } else run(t); vp_case_done(); } }
