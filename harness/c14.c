/* C14: UTF-8. Every code point; all short rune strings over boundary values; all short byte strings. */
#include "vp.h"
#include "lex/lex.h"
char const *const vp_property = "C14";
struct conf { char const *name; int sh; };
static struct conf const C[] = { {"code-points", 4}, {"rune-strings", 4}, {"byte-strings", 8}, {"byte-pairs-triples", 8}, {"all-int32-classes", 1}, {"ladder", 4}, {"special", 2} };
int vp_nconfigs(void) { return (int)(sizeof C / sizeof *C); }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { return C[c].sh; }
static size_t enc(uint32_t r, uint8_t *b) { /* RFC 3629 */
	if( r < 0x80 ) { b[0] = (uint8_t)r; return 1; }
	if( r < 0x800 ) { b[0] = (uint8_t)(0xC0 + r/64); b[1] = (uint8_t)(0x80 + r%64); return 2; }
	if( r < 0x10000 ) { b[0] = (uint8_t)(0xE0 + r/4096); b[1] = (uint8_t)(0x80 + r/64%64); b[2] = (uint8_t)(0x80 + r%64); return 3; }
	b[0] = (uint8_t)(0xF0 + r/262144); b[1] = (uint8_t)(0x80 + r/4096%64); b[2] = (uint8_t)(0x80 + r/64%64); b[3] = (uint8_t)(0x80 + r%64); return 4;
}
static void codepoint(uint32_t r) {
	uint8_t e[4]; size_t n = enc(r, e); int32_t const R = (int32_t)r;
	CHECK(rune_byte_len(R)==n, "U+%04X: byte length %zu, should be %zu", r, rune_byte_len(R), n);
	CHECK(get_utf8_len((char)e[0])==n, "U+%04X: lead byte 0x%02x gives length %zu, should be %zu", r, e[0], get_utf8_len((char)e[0]), n);
	for( size_t bl=0; bl <= n+1; bl++ ) {
		char *b = __real_malloc(bl? bl : 1); memset(b, 0x55, bl? bl : 1); size_t w = write_utf8_cstr(b, bl, R);
		CHECK(w==(bl < n? 0 : n), "U+%04X into %zu bytes: wrote %zu", r, bl, w);
		if( w ) CHECK(!memcmp(b, e, n), "U+%04X: encoded wrongly", r);
		for( size_t i=w; i < bl; i++ ) CHECK(b[i]==0x55, "U+%04X: wrote past the encoding", r);
		__real_free(b);
	}
	struct HarbolString s = {0}; CHECK(write_utf8_str(&s, R), "U+%04X: not encoded", r); CHECK(s.len==n && !memcmp(s.cstr, e, n) && s.cstr[n]==0, "U+%04X: appended wrongly", r);
	for( size_t bl=0; bl <= n+1; bl++ ) {
		size_t an = bl > 1? bl : 1; char *b = __real_malloc(an); memset(b, 'z', an); memcpy(b, e, bl < n? bl? bl : 1 : n);
		int32_t x = 77; size_t g = read_utf8(b, bl, &x); int32_t y = read_utf8_rune(b, bl);
		if( bl < n ) { CHECK(g==0 && x==-1 && y==-1, "U+%04X truncated to %zu bytes: read %zu bytes as %d (%d)", r, bl, g, x, y); }
		else CHECK(g==n && x==R && y==R, "U+%04X: decoded as %d/%d from %zu bytes", r, x, y, g);
		__real_free(b);
	}
	size_t i = 0; CHECK(utf8_to_rune_iter(s.cstr, n, &i)==R && i==n, "U+%04X: iteration", r); CHECK(utf8_to_rune_iter(s.cstr, n, &i)==-1 && i==n, "U+%04X: iteration does not end", r);
	CHECK(get_str_rune_len(s.cstr)==1, "U+%04X: counted as %zu runes", r, get_str_rune_len(s.cstr));
	harbol_string_clear(&s);
	int32_t l[2] = {R, 0}; s = rune_to_utf8_str(l); CHECK(s.len==n && !memcmp(s.cstr, e, n) && s.cstr[n]==0, "U+%04X: a list of it is encoded wrongly", r);
	size_t rl = 9; int32_t *d = utf8_str_to_rune(&s, &rl); CHECK(d && rl==1 && d[0]==R && d[1]==0, "U+%04X: a string of it is decoded wrongly", r); free(d); CHECK(find_rune_in_runes(l, R)==0 && !has_rune_in_runes(l, R^1) && !has_rune_in_runes(l, R^0x100000), "U+%04X: finding it", r); harbol_string_clear(&s);
}
static uint32_t const BR[] = {0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, /* byte-order marks, separators, controls, the ends of the two, three and four byte blocks */
	0xfeff, 0xfffe, 0xfffd, 0xbfff, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x200b, 0x200d, 0x2028, 0x2029, 0x2060, 0x3000, 0xfdd0, 0xfff9, 0x1fffe, 0x1ffff, 0x1f600, 0xe0001, 0xf0000, 0xfffff, 0x100000, 1, 2, 4, 7, 8, 9, 10, 11, 12, 13, 0x1a, 0x1b, 0x20, 0x2f, 0x3f, 0x40, 0x5c, 0x7e};
enum { NBR = sizeof BR / sizeof *BR };
static int cfg;
static void runes(uint32_t const *w, int len) {
	int32_t *r = __real_malloc(((size_t)len+1)*4); uint8_t *e = __real_malloc((size_t)len*4+1); size_t n = 0; for( int i=0; i < len; i++ ) { r[i] = (int32_t)BR[w[i]]; n += enc(BR[w[i]], e+n); } r[len] = 0; e[n] = 0;
	struct HarbolString s = rune_to_utf8_str(r); CHECK(s.len==n && (n==0 || !memcmp(s.cstr, e, n+1)), "encoding %d runes gives %zu bytes, should be %zu", len, s.len, n);
	size_t cl = 77; char *c = rune_to_utf8_cstr(r, &cl); CHECK(cl==n && (n==0 || !memcmp(c, e, n+1)), "cstr encoding differs"); free(c);
	char *x = __real_malloc(n+1); memcpy(x, e, n+1);
	CHECK(get_str_rune_len(x)==(size_t)len, "%zu runes counted, should be %d", get_str_rune_len(x), len);
	for( int k=0; k < 2; k++ ) {
		if( k && n==0 ) continue;
		size_t rl = 99; int32_t *d = k? utf8_str_to_rune(&s, &rl) : utf8_cstr_to_rune(x, n, &rl); CHECK(d && rl==(size_t)len, "decoded %zu runes, should be %d", rl, len);
		for( int i=0; i <= len; i++ ) CHECK(d[i]==r[i], "rune %d decoded as U+%04X, should be U+%04X", i, (unsigned)d[i], (unsigned)r[i]);
		free(d);
	}
	size_t i = 0; for( int k=0; k < len; k++ ) { int32_t g = utf8_to_rune_iter(x, n, &i); CHECK(g==r[k], "iteration yields U+%04X, should be U+%04X", (unsigned)g, (unsigned)r[k]); } CHECK(i==n && utf8_to_rune_iter(x, n, &i)==-1, "iteration does not end at the end");
	for( size_t k=0; k < (cfg==6? NBR : 10); k++ ) { size_t p = SIZE_MAX; for( int j=len-1; j >= 0; j-- ) if( w[j]==k ) p = (size_t)j; CHECK(find_rune_in_runes(r, (int32_t)BR[k])==p && has_rune_in_runes(r, (int32_t)BR[k])==(p != SIZE_MAX), "finding a rune"); }
	if( len <= 3 || len > 20 ) { FILE *f = fopen("u8", "w+"); CHECK(f, "file"); fwrite(x, 1, n, f); fflush(f); size_t rl = 99; int32_t *d = runes_from_stream(f, &rl); if( n==0 ) CHECK(d==NULL && rl==0, "runes from an empty stream"); else { CHECK(d && rl==(size_t)len, "stream: %zu runes, should be %d", rl, len); CHECK(!memcmp(d, r, ((size_t)len+1)*4), "stream decoded differently"); free(d); } fclose(f);
		size_t tl = 99; char *t = make_buffer_from_text("u8", &tl); if( n==0 ) CHECK(t==NULL, "text of an empty file"); else { CHECK(t && tl==n && !memcmp(t, x, n), "text file read differently"); CHECK(t[n]==0, "text file not terminated"); CHECK(get_str_rune_len(t)==(size_t)len, "text file"); free(t); } }
	harbol_string_clear(&s); __real_free(x); __real_free(r); __real_free(e);
	if( vp_want_sample && len > 2 ) vp_sample("U+%04X U+%04X U+%04X ...", BR[w[0]], BR[w[1]], BR[w[2]]);
}
/* arbitrary bytes: everything ends and stays inside (AddressSanitizer on exact buffers) */
static void bytes(uint8_t const *b, size_t n) {
	char *x = __real_malloc(n+1); memcpy(x, b, n); x[n] = 0; char *y = __real_malloc(n? n : 1); memcpy(y, b, n? n : 1);
	size_t cnt = get_str_rune_len(x); CHECK(cnt <= n && (n==0 || cnt > 0), "%zu runes in %zu bytes", cnt, n);
	size_t rl = 99; int32_t *d = utf8_cstr_to_rune(x, n, &rl); CHECK(d && rl==cnt, "%zu runes decoded, %zu counted", rl, cnt); for( size_t i=0; i <= rl; i++ ) (void)*(int32_t volatile *)&d[i]; CHECK(d[rl]==0, "runes not terminated"); free(d);
	if( n ) { struct HarbolString s = {0}; harbol_string_copy_cstr(&s, x); d = utf8_str_to_rune(&s, &rl); CHECK(d && rl==cnt, "string decoded differently"); free(d); harbol_string_clear(&s); }
	size_t i = 0, steps = 0; while( i < n ) { size_t o = i; int32_t r = utf8_to_rune_iter(y, n, &i); CHECK(i <= n, "iteration moved to %zu of %zu", i, n); CHECK(i > o || r==-1, "iteration neither advances nor ends"); if( i==o ) break; CHECK(++steps <= n, "iteration does not end"); }
	for( size_t k=0; k < n; k++ ) for( size_t l=1; l <= n-k; l++ ) { /* every slice, in a buffer of its own */
		char *z = __real_malloc(l); memcpy(z, b+k, l); int32_t r; size_t g = read_utf8(z, l, &r); CHECK(g <= l, "read %zu of %zu bytes", g, l); CHECK(g > 0 || r==-1, "nothing read but rune is %d", r); int32_t q = read_utf8_rune(z, l); CHECK(g==0? q==-1 : q==r, "read_utf8 %d and read_utf8_rune %d differ", r, q); size_t ln = get_utf8_len(z[0]); CHECK(ln >= 1 && ln <= 8, "length %zu", ln); __real_free(z);
	}
	__real_free(x); __real_free(y);
}
static uint8_t const BB[] = {0x41, 0x80, 0xBF, 0xC0, 0xDF, 0xE0, 0xEF, 0xF0, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF};
static void bword(uint32_t const *w, int len) { uint8_t b[16]; for( int i=0; i < len; i++ ) b[i] = BB[w[i]]; bytes(b, (size_t)len); }
static void pword(uint32_t const *w, int len) { uint8_t b[16]; for( int i=0; i < len; i++ ) b[i] = (uint8_t)(w[i]+1); bytes(b, (size_t)len); }
static int32_t const BI[] = {-1, -2, INT32_MIN, 0x110000, 0x1fffff, 0x200000, INT32_MAX, 0xd800, 0xdfff, -0x80};
static void iword(uint32_t const *w, int len) { if( len != 1 ) return; int32_t r = BI[w[0]]; for( size_t bl=0; bl < 5; bl++ ) { char *b = __real_malloc(bl? bl : 1); CHECK(write_utf8_cstr(b, bl, r) <= bl, "wrote too much"); __real_free(b); } struct HarbolString s = {0}; bool ok = write_utf8_str(&s, r); CHECK(s.len <= 4 && (ok || s.len==0), "refused but wrote"); if( r > 0x10ffff ) CHECK(!ok && rune_byte_len(r)==0, "U+%X beyond Unicode was encoded", (unsigned)r); harbol_string_clear(&s); }
static void cword(uint32_t const *w, int len) { /* 256 code points per case */
	if( len != 1 ) return; for( uint32_t k=0; k < 256; k++ ) { uint32_t r = w[0]*256 + k; if( r==0 || (r >= 0xd800 && r <= 0xdfff) ) continue; codepoint(r); vp_add_transitions(1); } if( vp_want_sample ) vp_sample("U+%04X..U+%04X", w[0]*256, w[0]*256+255);
}
static void ladder1(uint32_t n, uint32_t pat) { uint32_t *w = __real_malloc(((size_t)n+1)*4); for( uint32_t i=0; i < n; i++ ) w[i] = pat < 10? pat : pat==10? i % 10 : pat==11? (i==n-1? 9 : 0) : pat==12? (i==0? 9 : 3) : (i*i/3) % 10; runes(w, (int)n); __real_free(w); }
static uint32_t const LN[] = {6,7,8,9,10,12,15,16,17,20,21,22,24,25,31,32,33,42,43,48,63,64,65,85,86,100,127,128,129,170,171,200,254,255,256,257,300,341,342,500,511,512,513,1000,1023,1024,1025,1365,1366,2000,4095,4096,4097,5000,10000,16384,21845,32768,65535,65536,65537,70000};
static void go(int c, uint32_t const *t, int l) { switch( c ) { case 0: cword(t, l); break; case 1: runes(t, l); break; case 2: bword(t, l); break; case 3: pword(t, l); break; case 4: iword(t, l); break; case 5: ladder1(t[0], t[1]); break; case 6: runes(t, l); break; } }
static void fn(uint32_t const *w, int l) { go(cfg, w, l); }
void vp_explore(int c) { cfg = c; switch( c ) { case 0: vp_words(0x1100, 1, fn); break; case 1: vp_words(10, vp_tier? 6 : 5, fn); break; case 2: vp_words(13, vp_tier? 6 : 5, fn); break; case 3: vp_words(255, vp_tier? 3 : 2, fn); break; case 4: vp_words(10, 1, fn); break; case 6: vp_words(NBR, 2, fn); break; case 5: { int x = 0; for( unsigned i=0; i < sizeof LN/sizeof *LN; i++ ) for( uint32_t p=0; p < 14; p++ ) { if( LN[i] > 6000 && !vp_tier && (p + i) % 4 ) continue; uint32_t t[2] = {LN[i], p}; if( x++ % vp_nshards==vp_shard && vp_case(t, 2) ) { ladder1(t[0], t[1]); vp_case_done(); } } break; } } }
void vp_replay(int c, uint32_t const *t, size_t l) { cfg = c; if( vp_case(t, l) ) { go(c, t, (int)l); vp_case_done(); } }
