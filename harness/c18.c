/* C18: every small configuration held in memory is written to text and to files (new, overwritten, appended) and parsed back: same keys, order, types, values. */
#define _GNU_SOURCE
#include "vp.h"
char const *const vp_property = "C18";
void *__real_malloc(size_t); void __real_free(void *);
#include "cfgref.h"
#include "cfgbig.h"
enum { STRS, KEYS, ITEMS, INTS, FLOATS, COLOURS, LADDER, NULS, FAR, NCFG };
static int cfg;
static uint8_t const CH[] = {'a', '"', '\\', '\n', '\'', '7', '\t', '\r', 0x01, 0x7f, 0xff, 0xc3, '<', '}', '%', '#'};
static char const *const ITEM[] = {"'a' 1 ", "'b' true ", "'c' null ", "'d' 'x' ", "'e' '' ", "'f' 1.5 ", "'g' -0.000001 ", "'h' c[1 2 3 255] ", "'i' v[1.5 -2 .25 1e6] ", "'j' {} ", "'k' { ", "} ", "'l' -9223372036854775807 ", "'m.n' false ", "'o p' '\\\"\\n' ", "'\\\\q\\'\\\"' 123456789.125 ", "'r' { 's' {'t' null} } ", "'<enum>' iota "};
#define NI (sizeof ITEM / sizeof *ITEM)
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every string", "every key", "every sequence of entries and sections", "integers around every power of two and ten", "floating-point values and vectors", "colours", "ladder", "strings and keys with NUL and digits after escapes", "written texts beyond 16 bits"})[c]); }
int vp_config_shards(int c) { return c==INTS || c==COLOURS? 1 : 8; }
/* exact dump of a section; floats as printed when prec is set */
static struct HarbolVariant *var(struct HarbolMap const *m, size_t i) { return (struct HarbolVariant *)m->datum[i]; }
static void dump(struct HarbolMap const *m, bool prec, char *o, size_t *n, size_t cap) {
#define PUT(...) do { int r_ = snprintf(o+*n, cap-*n, __VA_ARGS__); *n += (size_t)r_; if( *n+700 >= cap ) { fprintf(stdout, "dump overflow\n"); abort(); } } while( 0 )
#define RAW(p,l) do { for( size_t x_=0; x_ < (l); x_++ ) PUT("%02x", ((uint8_t const *)(p))[x_]); } while( 0 )
	PUT("{"); for( size_t i=0; i < m->len; i++ ) {
		RAW(m->keys[i], m->keylens[i]); struct HarbolVariant *v = var(m, i); PUT("=%d:", v->tag);
		switch( v->tag ) {
		case HarbolCfgType_Map: dump(*(struct HarbolMap **)v->data, prec, o, n, cap); break;
		case HarbolCfgType_String: { struct HarbolString *s = *(struct HarbolString **)v->data; PUT("%zu ", s->len); RAW(s->cstr, s->len); break; }
		case HarbolCfgType_Float: { long double f; memcpy(&f, v->data, sizeof f); if( prec ) PUT("%Lf", f); else PUT("%La", f); break; }
		case HarbolCfgType_Vec4D: { float f[4]; memcpy(f, v->data, sizeof f); for( int k=0; k < 4; k++ ) if( prec ) PUT("%f ", f[k]); else PUT("%a ", f[k]); break; }
		case HarbolCfgType_Null: break;
		default: RAW(v->data, v->size);
		} PUT(";"); }
	PUT("}");
}
enum { CAP = 8000000 };
static char D0[CAP], D1[CAP], D2[CAP], D3[CAP];
static void same(struct HarbolMap *m2, char const *how, char const *text) { CHECK(msg_bytes==0, "%s: the written text is rejected: %s -- %s", how, msg_text, text); CHECK(m2 != NULL, "%s: cannot be parsed back", how); size_t n = 0; dump(m2, true, D2, &n, CAP); D2[n] = 0; CHECK(!strcmp(D1, D2), "%s: written %s, comes back as %s, should be %s", how, text, D2, D1); }
static size_t files;
static void trip(struct HarbolMap *m) {
	CHECK(m != NULL && msg_bytes==0, "set-up failed: %s", msg_text);
	size_t n = 0; dump(m, false, D0, &n, CAP); D0[n] = 0; n = 0; dump(m, true, D1, &n, CAP); D1[n] = 0;
	struct HarbolString t = harbol_cfg_to_str(m); size_t tl = t.cstr? strlen(t.cstr) : 0; CHECK(tl==t.len, "written text has length %zu but reports %zu", tl, t.len); CHECK(t.cstr || m->len==0, "nothing was written");
	char *copy = __real_malloc(tl+1); memcpy(copy, t.cstr? t.cstr : "", tl+1); msg_begin(); struct HarbolMap *m2 = harbol_cfg_parse_cstr(copy); msg_end(); same(m2, "to_str", qt(copy, tl)); harbol_cfg_free(&m2);
	if( files++ % (cfg==ITEMS || cfg==KEYS? 1 : 4)==0 ) {
		put_file("out", "'old' 1 'stale' { ' ' ' ' }\n"); bool r = harbol_cfg_build_file(m, "out", true); CHECK(r, "build_file reports failure");
		if( m->len ) { msg_begin(); m2 = harbol_cfg_parse_file("out"); msg_end(); same(m2, "build_file", qt(copy, tl)); harbol_cfg_free(&m2); } else { FILE *f = fopen("out", "r"); CHECK(fgetc(f)==EOF, "old contents kept"); fclose(f); }
		bool has_s = false; for( size_t i=0; i < m->len; i++ ) if( !strcmp((char *)m->keys[i], "0s") ) has_s = true;
		if( !has_s ) { put_file("out", "'0s': 5\n"); r = harbol_cfg_build_file(m, "out", false); CHECK(r, "build_file reports failure"); msg_begin(); m2 = harbol_cfg_parse_file("out"); msg_end(); CHECK(m2 && msg_bytes==0 && m2->len==m->len+1, "appended file: %zu entries, should be %zu", m2? m2->len : 0, m->len+1); intmax_t *i = harbol_cfg_get_int(m2, "0s"); CHECK(i && *i==5, "appended file lost its old contents"); n = 0; dump(m2, true, D2, &n, CAP); D2[n] = 0; size_t w = strlen(D1); CHECK(n > w && !strcmp(D2+n-w+1, D1+1), "appended file: %s, should end in %s", D2, D1); harbol_cfg_free(&m2); }
		remove("out2"); r = harbol_cfg_build_file(m, "out2", files & 4); CHECK(r, "build_file reports failure"); if( m->len ) { msg_begin(); m2 = harbol_cfg_parse_file("out2"); msg_end(); same(m2, "build_file", qt(copy, tl)); harbol_cfg_free(&m2); }
	}
	n = 0; dump(m, false, D3, &n, CAP); D3[n] = 0; CHECK(!strcmp(D0, D3), "writing modified the configuration: %s, was %s", D3, D0);
	if( vp_want_sample ) vp_sample("%s", qt(copy, tl)); __real_free(copy); harbol_string_clear(&t); harbol_cfg_free(&m); vp_add_transitions(2);
}
static struct HarbolMap *parse(char const *q) { msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(q); msg_end(); return m; }
static uint8_t const CN[] = {0, '0', '7', 'a', 1, '"', '\\', 0x1f, 0x80};
static void nuls(uint32_t const *w, int len) { char q[400], x[100]; int k = 0; for( int i=0; i < len; i++ ) k += CN[w[i]] >= 0x80? sprintf(x+k, "%c", CN[w[i]]) : sprintf(x+k, "\\%03o", CN[w[i]]); x[k] = 0; snprintf(q, sizeof q, "'k' '%s' 'a%s' 1 's' {'%c%s' '%s' 'b' true}", x, x, 'c', x, x); struct HarbolMap *m = parse(q); CHECK(m && m->len==3, "set-up"); struct HarbolString *s = harbol_cfg_get_str(m, "k"); CHECK(s && s->len==(size_t)len, "the string '%s' has length %zu", x, s? s->len : 0); for( int i=0; i < len; i++ ) CHECK((uint8_t)s->cstr[i]==CN[w[i]], "byte %d of '%s'", i, x); CHECK(m->keylens[1]==(size_t)len+2, "key 'a%s'", x); trip(m); }
static void word(uint32_t const *w, int len) {
	if( cfg==NULS ) { nuls(w, len); return; }
	char q[900] = "", t[20]; struct HarbolMap *m;
	if( cfg==ITEMS ) { int open = 0; for( int i=0; i < len; i++ ) { if( w[i]==10 ) open++; if( w[i]==11 ) open--; if( open < 0 ) return; } for( int i=0; i < len; i++ ) strcat(q, ITEM[w[i]]); while( open-- > 0 ) strcat(q, "}");
		bool e, wn; ref_parse(q, NULL, &e, &wn); if( e ) return; trip(parse(q)); return; }
	for( int i=0; i < len; i++ ) t[i] = (char)CH[w[i]]; t[len] = 0;
	if( cfg==STRS ) { m = parse("'k' 'x' 'l' 1"); bool r = harbol_cfg_set_cstr(m, "k", t, false); CHECK(r, "set_cstr failed"); struct HarbolString *s = harbol_cfg_get_str(m, "k"); CHECK(s && s->len==(size_t)len && (len==0 || !strcmp(s->cstr, t)), "set_cstr did not set '%s'", qt(t, (size_t)len)); trip(m); }
	else { if( !len ) return; char k[60] = ""; for( int i=0; i < len; i++ ) { char o[8]; uint8_t c = (uint8_t)t[i]; if( c >= 0x80 || c=='a' || c=='7' ) { o[0] = (char)c; o[1] = 0; } else snprintf(o, sizeof o, "\\%03o", c); strcat(k, o); } snprintf(q, sizeof q, "'%s' 1 'x' {'%s' {'%s':'b'}}", k, k, k); m = parse(q); CHECK(m && m->len==2 && m->keylens[0]==(size_t)len+1 && !memcmp(m->keys[0], t, (size_t)len), "key '%s' was not parsed", q); trip(m); }
}
static void an_int(uint32_t k, uint32_t j, uint32_t neg) { uint64_t u = k < 64? 1ull << k : 1; for( uint32_t i=64; i < k; i++ ) u *= 10; u += j; u -= 2; intmax_t v = (intmax_t)(neg? 0-u : u); struct HarbolMap *m = parse("'k' 1 's' {'k' 2}"); bool r = harbol_cfg_set_int(m, "k", v, false) && harbol_cfg_set_int(m, "s.k", ~v, false); CHECK(r, "set_int"); trip(m); }
static void a_float(int e, uint32_t num, uint32_t neg) { long double f = num; for( int i=0; i < e; i++ ) f *= 10; for( int i=0; i > e; i-- ) f /= 10; if( neg ) f = -f; struct HarbolMap *m = parse("'k' 1. 's' {'k' v[] 'l' 1}"); struct HarbolVec4D v = {(float)f, (float)(f/3), (float)num, (float)-f}; bool r = harbol_cfg_set_float(m, "k", f/3, false) && harbol_cfg_set_vec4D(m, "s.k", v, false) && harbol_cfg_set_float(m, "s.l", f, true); CHECK(r, "set_float"); trip(m); }
static void a_colour(uint32_t const *t) { static uint8_t const B[] = {0, 1, 9, 127, 128, 255}; union HarbolColor c = {.array = {B[t[0]], B[t[1]], B[t[2]], B[t[3]]}}; struct HarbolMap *m = parse("'k' c[] "); bool r = harbol_cfg_set_color(m, "k", c, false); CHECK(r, "set_color"); trip(m); }

static void lrun(uint32_t kind, uint32_t n) { uint32_t t[2] = {kind, n}; if( !vp_case(t, 2) ) return; vp_note("%s, %u", big_name[kind], n); if( big_doc(kind, n) ) { files = 0; trip(parse(big_b)); } vp_case_done(); }
static void ladder(void) { uint64_t x = 0; for( uint32_t k=0; k < BIG_KINDS; k++ ) for( uint32_t i=0; i < BIG_NSZ; i++ ) { uint32_t n = BIG_SZ[i]; if( big_costly(k, n) && !vp_tier ) continue; if( k==BIG_DEEP && n > 40 && !vp_tier ) continue; if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(k, n); } }
/* far: sections whose written text is longer than 65,536 characters */
static void frun(uint32_t kind, uint32_t n) {
	uint32_t t[2] = {kind, n}; if( !vp_case(t, 2) ) return; vp_note("text of about %u characters, kind %u", n, kind); big_doc(BIG_ENTRIES, 0); bp("'first' 1 ");
	switch( kind ) {
	case 0: bp("'s' {"); for( uint32_t i=0; big_n < n; i++ ) { bf("'%u' ", i); bf("%u ", i); } bp("}"); break;
	case 1: for( uint32_t i=0; big_n < n; i++ ) { bf("'s%u' {", i); for( uint32_t k=0; k < 400; k++ ) bf("'key number %u' null ", k); bp("}"); } break;
	case 2: bp("'s' {'t' {'k' '"); while( big_n < n ) bp("some words, "); bp("'} 'u' 2 }"); break;
	case 3: bp("'s' {'"); while( big_n < n ) bp("key "); bp("' {'x' 1} 'y' 2}"); break;
	case 4: bp("'s' {'k' '"); while( big_n < n ) bp("\\001\\n\\x7f3\\\""); bp("' 'v' v[1 2 3 4]}"); break;
	case 5: bp("'s' {"); for( uint32_t i=0; big_n < n; i++ ) { bf("'v%u' v[1 2 3 4] ", i); bf("'c%u' c[255 255 0 1] ", i); bf("'f%u' -1.5 ", i); } bp("}"); break;
	}
	bp("'last' true"); files = 0; trip(parse(big_b)); vp_case_done();
}
static void far_(void) { uint64_t x = 0; static uint32_t const L[] = {66000, 140000, 33000, 65536, 300000}; for( uint32_t i=0; i < (vp_tier? 5u : 2u); i++ ) for( uint32_t k=0; k < 6; k++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) frun(k, L[i]); }
void vp_explore(int c) {
	cfg = c; uint64_t idx = 0; switch( c ) {
	case LADDER: ladder(); break; case FAR: far_(); break;
	case STRS: case KEYS: vp_words(16, (c==STRS? 4 : 3) + vp_tier, word); break; case ITEMS: vp_words(NI, vp_tier? 5 : 4, word); break;
	case INTS: for( uint32_t k=0; k < 83; k++ ) for( uint32_t j=0; j < 5; j++ ) for( uint32_t g=0; g < 2; g++ ) { uint32_t t[3] = {k, j, g}; if( vp_case(t, 3) ) { an_int(k, j, g); vp_case_done(); } } break;
	case FLOATS: for( uint32_t e=0; e < 40; e++ ) for( uint32_t num=0; num < (vp_tier? 3000u : 300u); num++ ) for( uint32_t g=0; g < 2; g++ ) { uint32_t t[3] = {e, num, g}; if( idx++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(t, 3) ) { a_float((int)e-12, num, g); vp_case_done(); } } break;
	case NULS: vp_words(sizeof CN, 5 + vp_tier, word); break; case COLOURS: for( uint32_t i=0; i < 1296; i++ ) { uint32_t t[4] = {i%6, i/6%6, i/36%6, i/216}; if( vp_case(t, 4) ) { a_colour(t); vp_case_done(); } } break;
	}
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c==FAR ) { if( n==2 ) frun(t[0], t[1]); return; } if( c==LADDER ) { if( n==2 ) lrun(t[0], t[1]); return; } if( vp_case(t, n) ) { switch( c ) { case INTS: an_int(t[0], t[1], t[2]); break; case FLOATS: a_float((int)t[0]-12, t[1], t[2]); break; case COLOURS: a_colour(t); break; default: word(t, (int)n); } vp_case_done(); } }
