/* C17: every bounded document built from the configuration grammar: the parsed tree is exactly the written one (keys, order, types, values). */
#define _GNU_SOURCE
#include "vp.h"
char const *const vp_property = "C17";
void *__real_malloc(size_t); void __real_free(void *);
#include "cfgref.h"
#include "cfgbig.h"
enum { PAIRS, ITEMS, NUMDEC, NUMHEX, NUMBIN, NUMSUF, STRS, STRU, KEYS, MATH, MATHSTR, INCL, LADDER, LFILES, LIMITS, FAR, NCFG };
static int cfg;
static char const *const VAL[] = {"1", "-7", "+3", "0", "017", "-010", "0x1F", "-0xff", "0b101", "-0b11", "1'000'000", "0b1'0", "9223372036854775807", "-9223372036854775808", "0x7fffffffffffffff", "12ull", "1.5", "-.25", "+2.", "1e3", "1.5e-3", "0x1.8p3", "0x1p-2", "2.5f", "1'0.2'5", "true", "false", "null", "iota", "IOTA", "<FILE>", "<file>", "''", "\"\"", "'it\"s'", "\"it's\"", "'a\\nb\\t\\\\\\''", "'\\x41\\101\\u00e9\\U0001F600'", "'{ } [ ] : , # // /* <x>'",
	"c[]", "c[1]", "c[1,2]", "c[ 0xff 010 0b11 , 255 ]", "c[1 2 3 4 5 6]", "c [1:2,,3]", "v[]", "v[1]", "v[-1.5, 2 , .5e1, 0x10]", "v[010 0b11 1'0]", "v[1,2,3,4,5]", "v/*x*/[ #y\n1 ]", "{}", "{ }", "{'p':1}", "{'p':{'q':iota,'r':iota},'s':iota}", "{'p' 'q' 'r' 's'}", "{ 'p' : 1 , 'q' : 2 , }", "'<math 2^10>'", "'n=<math (1+2)*iota>!'", "'<math 1/3><math 2>'"};
#define NV (sizeof VAL / sizeof *VAL)
static char const *const SEP[] = {"", ":", " : ", "/* ' */", "# \"\n", ",", "// x \\\n y\n", "\n\t"};
static char const *const ITEM[] = {"'a' 1 ", "'b': true, ", "'c' null ", "\"d\" 'x' ", "'a' iota ", "'e': iota, ", "'f' iota,", "'g': IOTA ", "'h' IOTA\n", "'k<enum>' 1 ", "'<enum>' iota ", "'<ENUM>' 2 ", "'m<ENUM>' <enum>", "'s' { ", "'t': {", "} ", "},", "'v' v[1 2] ", "'<enum>-<ENUM>-<enum>' IOTA ", "'<math IOTA+1>' '' ", "'q' '<math iota*10+enum>' ", "/* ' */", "'i' <FILE> ", "'<math 2*ENUM>z' 1.5 "};
#define NI (sizeof ITEM / sizeof *ITEM)
static char const *const A[] = {[NUMDEC] = "019.'e-+u", [NUMHEX] = "0x1fFp.'-", [NUMBIN] = "0b12'B.-", [NUMSUF] = "1.ulLUfF0", [STRS] = "a\\'\"n01\n<", [STRU] = "\\xXuU1fa0", [KEYS] = "ab\\.'<", };
static char const *const MT[] = {"1", "2.5", "+", "-", "*", "/", "^", "(", ")", "iota", "IOTA", "enum", "ENUM", " ", "sqrt", "pi", ">"};
static char const *const MS[] = {"<math 1>", "<math ", ">", "x", "<", "1+2", "<mat", "math", "<enum>", "\\\"", "<math 10^30>"};
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every pair of values with every separator", "every sequence of entries and sections", "decimal numbers", "hexadecimal numbers", "binary and octal numbers", "number suffixes", "string contents", "numeric escapes in strings", "keys", "inline math expressions", "inline math around text", "files and includes", "ladder", "ladder of files", "integers around every power of two in every base", "counters and texts beyond 16 bits"})[c]); }
int vp_config_shards(int c) { (void)c; return 8; }
static void put_files(void) { static bool done; if( done ) return; done = true; put_file("one", "'k' iota 'l' IOTA 'm' { 'n' <FILE> }"); put_file("two", "\t'<include>'\t'one'\r\n'<enum>' '\t'\r'<ENUM>x' iota"); put_file("three", "'<include>' 'two' 'w' {'<include>' 'one' '<INCLUDE>': 'two'} 'q' <FILE>"); }
static char const *const INC[] = {"'<include>' 'one' ", "'<INCLUDE>': \"two\", ", "'<include>' 'three'", "'a' iota ", "'b' IOTA ", "'s' {", "}", "'<enum>' 1 ", "'c<ENUM>' <FILE> ", "\t'd'\t'\t'\r\n", "/*\r*/ #\r 'e' 1\r"};
#define NINC (sizeof INC / sizeof *INC)
static void word(uint32_t const *w, int len) {
	char t[400], q[900]; size_t k = 0; t[0] = 0;
	switch( cfg ) {
	case ITEMS: for( int i=0; i < len; i++ ) strcat(t, ITEM[w[i]]); doc(t, NULL); return;
	case MATH: for( int i=0; i < len; i++ ) strcat(t, MT[w[i]]); snprintf(q, sizeof q, "'u' iota 'v' IOTA 'n<enum>' 1 'o' iota '<math %s>' '[<math%s>]'", t, t); doc(q, NULL); return;
	case MATHSTR: for( int i=0; i < len; i++ ) strcat(t, MS[w[i]]); snprintf(q, sizeof q, "'%s' 1 'v' '%s'", t, t); doc(q, NULL); return;
	case INCL: put_files(); for( int i=0; i < len; i++ ) strcat(t, INC[w[i]]); put_file("main", t); doc(NULL, "main"); doc(t, NULL); return;
	}
	for( int i=0; i < len; i++ ) t[k++] = A[cfg][w[i]]; t[k] = 0;
	if( cfg==STRS || cfg==STRU ) { snprintf(q, sizeof q, "'k':'%s'", t); doc(q, NULL); snprintf(q, sizeof q, "'k' \"%s\" 'l' 1", t); doc(q, NULL); }
	else if( cfg==KEYS ) { snprintf(q, sizeof q, "'%s':1 \"%s\" 2 'b' 3", t, t); doc(q, NULL); snprintf(q, sizeof q, "'a' 1 's' {'%s':1}", t); doc(q, NULL); }
	else { static char const *const F[] = {"'k' %s", "'k' %s 'l' true", "'k' c[%s 7]", "'k' v[0,%s]"}; for( int f=0; f < 4; f++ ) { snprintf(q, sizeof q, F[f], t); doc(q, NULL); } }
}
static void pair(uint32_t const *e) { char q[600]; snprintf(q, sizeof q, "'k'%s%s%s\"l\"%s%s", SEP[e[2]], VAL[e[0]], SEP[e[3]], SEP[e[2]], VAL[e[1]]); doc(q, NULL); if( e[4] ) { snprintf(q, sizeof q, "'o'{'k'%s%s%s'l' iota%s}'m' iota", SEP[e[2]], VAL[e[0]], SEP[e[3]], SEP[e[3]]); doc(q, NULL); snprintf(q, sizeof q, "%s'k'%s%s%s", SEP[e[3]], SEP[e[2]], VAL[e[0]], SEP[e[3]]); doc(q, NULL); CHECK(doc_ok || e[2]==5, "'%s' should be well-formed", q); } }
static void nested(uint32_t n, uint32_t kind) { char q[8000] = ""; for( uint32_t i=0; i < n; i++ ) strcat(q, kind? "'s':{'i':iota,'e<enum>' IOTA " : "'s'{"); strcat(q, "'v' 1"); for( uint32_t i=0; i < n; i++ ) strcat(q, kind? "},'j' iota 'f<enum>' iota" : "}"); doc(q, NULL); CHECK(doc_ok, "nested document should be well-formed"); }

static void lrun(uint32_t kind, uint32_t n) {
	uint32_t t[2] = {kind, n}; if( !vp_case(t, 2) ) return; vp_note("%s, %u", big_name[kind], n);
	if( big_doc(kind, n) ) { if( cfg==LADDER ) doc(big_b, NULL); else { put_file("big", big_b); doc(NULL, "big"); doc("'<include>' 'big' 'after' iota 's' {'<include>' 'big'}", NULL); } CHECK(doc_ok, "the document should be well-formed"); } vp_case_done();
}
/* file names and numbers of included files */
static void lname(uint32_t kind, uint32_t n) {
	uint32_t t[3] = {kind, n, 0}; if( !vp_case(t, 3) ) return; vp_note("%s %u", kind? "included files:" : "file name of length", n);
	if( kind==0 ) { char f[260]; for( uint32_t i=0; i < n; i++ ) f[i] = (char)('a' + i % 26); f[n] = 0; put_file(f, "'x' <file> 'y' iota"); doc(NULL, f); char q[600]; snprintf(q, sizeof q, "'a' 1 '<include>' '%s' 'b' 2", f); doc(q, NULL); remove(f); }
	else { big_doc(BIG_ENTRIES, 0); for( uint32_t i=0; i < n; i++ ) { char f[20]; snprintf(f, sizeof f, "inc%u", i); char b[80]; snprintf(b, sizeof b, "'x%u' iota 'y' IOTA 'z<ENUM>' <FILE>", i); put_file(f, b); bf("'<include>' 'inc%u' ", i); if( i % 3==0 ) bf("'n%u' IOTA ", i); }
		doc(big_b, NULL); if( n <= 60 ) { for( uint32_t i=0; i < n; i++ ) { char f[20], b[80]; snprintf(f, sizeof f, "inc%u", i); snprintf(b, sizeof b, "'i' iota '<include>' 'inc%u' 'g' IOTA 'e<ENUM>' 1", i+1); put_file(f, i+1==n? "'last' IOTA" : b); } if( n ) doc(NULL, "inc0"); } }
	vp_case_done();
}
/* an integer in every spelling: value 2^k - 1 + d, sign, base, zeros before, separators, suffix */
static void limit(uint32_t const *t) {
	uint64_t v = (t[0] < 64? 1ull << t[0] : 0) + t[1] - 1; bool neg = t[2]==1; if( v > (uint64_t)INT64_MAX + neg ) return; static char const *const SG[] = {"", "-", "+"}; static uint32_t const Z[] = {0, 1, 2, 7, 30, 64, 70}; static char const *const SF[] = {"", "u", "LL", "ull"};
	char d[80]; int n = 0; unsigned base = (unsigned[]){10, 16, 8, 2, 16}[t[3]]; uint64_t x = v; do { d[n++] = (t[3]==4? "0123456789abcdef" : "0123456789ABCDEF")[x % base]; x /= base; } while( x ); if( base==10 && t[4] ) return;
	char q[2000], s[400]; int k = sprintf(s, "%s%s", SG[t[2]], (char const *[]){"", "0x", "0", "0b", "0X"}[t[3]]); if( t[3]==3 && t[6] & 1 ) s[k-1] = 'B'; for( uint32_t i=0; i < Z[t[4]]; i++ ) { s[k++] = '0'; if( t[5]==2 ) s[k++] = '\''; } for( int i=n; i--; ) { s[k++] = d[i]; if( i && (t[5]==2 || (t[5]==1 && i%3==0)) ) s[k++] = '\''; } strcpy(s+k, SF[t[6]]);
	snprintf(q, sizeof q, "'k' %s 'l' %s,'m' v[%s %s]", s, s, s, s); doc(q, NULL); CHECK(doc_ok || (base==8 && v==0), "'%s' should be well-formed", q);
}
static void limits(void) { uint64_t x = 0; uint32_t t[7]; for( t[0]=0; t[0] <= 63; t[0]++ ) for( t[1]=0; t[1] < 3; t[1]++ ) for( t[2]=0; t[2] < 3; t[2]++ ) for( t[3]=0; t[3] < 5; t[3]++ ) for( t[4]=0; t[4] < 7; t[4]++ ) for( t[5]=0; t[5] < 3; t[5]++ ) for( t[6]=0; t[6] < 4; t[6]++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(t, 7) ) { limit(t); vp_case_done(); } }
static void ladder(void) {
	uint64_t x = 0; for( uint32_t k=0; k < BIG_KINDS; k++ ) for( uint32_t i=0; i < BIG_NSZ; i++ ) { uint32_t n = BIG_SZ[i]; if( big_costly(k, n) && !vp_tier ) continue; if( cfg==LFILES && n > 700 && (i + k) % 4 ) continue; if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(k, n); }
	if( cfg==LFILES ) { for( uint32_t n=1; n <= 255; n++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lname(0, n); for( uint32_t n=0; n <= 120; n += n < 20? 1 : 9 ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lname(1, n); }
}
/* far: documents of tens of thousands of entries, the i-th of which says what it is */
static char const *const FN[] = {"local iota", "global iota", "local enum", "global enum", "all counters in a section", "counters in math", "strings", "sections", "floats, colours and vectors", "iota after other entries", "both counters in turn", "global counters through many sections"};
enum { NFN = sizeof FN / sizeof *FN };
static struct HarbolVariant *fv(struct HarbolMap const *m, size_t i, char const *key, int tag) { CHECK(i < m->len, "entry %zu of %zu", i, m->len); size_t kl = strlen(key) + 1; CHECK(m->keylens[i]==kl && !memcmp(m->keys[i], key, kl), "entry %zu is '%s', should be '%s'", i, qt(m->keys[i], m->keylens[i]-1), key); struct HarbolVariant *v = (void *)m->datum[i]; CHECK(v && v->tag==tag && v->data, "entry %zu '%s' has type %d, should be %d", i, key, v? (int)v->tag : -1, tag); CHECK(harbol_map_key_get(m, key, kl)==(void *)v, "entry '%s' is not found by its key", key); return v; }
static void fint(struct HarbolMap const *m, size_t i, char const *key, int64_t want) { struct HarbolVariant *v = fv(m, i, key, HarbolCfgType_Int); intmax_t x; memcpy(&x, v->data, sizeof x); CHECK(x==want, "'%s' (entry %zu) is %jd, should be %lld", key, i, x, (long long)want); }
static void fstr(struct HarbolMap const *m, size_t i, char const *key, char const *want) { struct HarbolString *s = *(struct HarbolString **)fv(m, i, key, HarbolCfgType_String)->data; CHECK(s && s->len==strlen(want) && (!s->len || !strcmp(s->cstr, want)), "'%s' (entry %zu) is '%s', should be '%s'", key, i, s && s->cstr? s->cstr : "", want); }
static struct HarbolMap *fsec(struct HarbolMap const *m, size_t i, char const *key) { return *(struct HarbolMap **)fv(m, i, key, HarbolCfgType_Map)->data; }
static void frun(uint32_t kind, uint32_t n) {
	uint32_t t[2] = {kind, n}; if( !vp_case(t, 2) ) return; vp_note("%s, %u times", kind < NFN? FN[kind] : big_name[kind-NFN], n);
	if( kind >= NFN ) { if( big_doc(kind-NFN, n) ) { doc(big_b, NULL); CHECK(doc_ok, "the document should be well-formed"); } vp_case_done(); return; }
	big_doc(BIG_ENTRIES, 0); char k[80], v[80];
	if( kind==4 ) bp("'b' iota 'B' IOTA 's' {"); for( uint32_t i=0; i < n; i++ ) switch( kind ) {
		case 0: bf("'a%u' iota ", i); break; case 1: bf("'a%u':IOTA,", i); break; case 2: bp("'a<enum>' null "); break; case 3: bp("'<ENUM>z' 1 "); break;
		case 4: bf("'i%u' iota '<ENUM>-<enum>' IOTA ", i); break; case 5: bf("'k%u:<math iota>' iota ", i); bf("'K%u' '<math IOTA * 2>' ", i); bf("'J%u' IOTA ", i); break; case 6: bf("'%u' ", i); bf("\"text of %u\"", i); break;
		case 7: bf("'s%u'{'i' iota 'j' IOTA '<enum>' iota ", i); bf("'n<ENUM>' '%u'}", i); break; case 8: bf("'f%u' ", i); bf("%u.25 ", i); bf("'c%u' ", i); bf("c[%u 1 2 3] ", i % 256); bf("'v%u' ", i); bf("v[%u 0 1] ", i); break;
		case 9: bf("'x%u' true 'y<enum>' iota ", i); break; case 10: bf("'l%u' iota ", i); bf("'g%u' IOTA ", i); break;
		case 11: if( i % 500==0 ) bf("} 's%u' {" + (i==0)*2, i); bf("'%u' IOTA '<ENUM>e' <file> ", i); break; }
	if( kind==11 ) bp("} 'end' IOTA 'm' '<math iota + 2*IOTA + 3*enum + 4*ENUM>'"); if( kind==4 ) bp("} 'a' iota 'A' IOTA '<enum>' 1 '<ENUM>' 2"); if( kind < 4 ) bp("'last' iota 'Last' IOTA '<enum>!' 1 '<ENUM>?' 1 'm' '<math iota + 2*IOTA + 3*enum + 4*ENUM>'");
	size_t len = strlen(big_b); char *x = __real_malloc(len+1); memcpy(x, big_b, len+1); msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(x); msg_end(); CHECK(m && msg_bytes==0, "a well-formed document is reported: %.200s", msg_text);
	CHECK(m->len==(kind==4? 7 : kind < 4? n+5 : kind==5 || kind==8? n*3 : kind==9 || kind==10? n*2 : kind==11? (n+499)/500 + 2 : n), "%zu entries", m->len); struct HarbolMap *s = kind==4? fsec(m, 2, "s") : NULL; if( s ) CHECK(s->len==n*2, "%zu entries in the section", s->len);
#define K(...) (snprintf(k, sizeof k, __VA_ARGS__), k)
#define V(...) (snprintf(v, sizeof v, __VA_ARGS__), v)
	for( uint32_t i=0; i < n; i++ ) switch( kind ) {
		case 0: fint(m, i, K("a%u", i), i); break; case 1: fint(m, i, K("a%u", i), i); break; case 2: fv(m, i, K("a%u", i), HarbolCfgType_Null); break; case 3: fint(m, i, K("%uz", i), 1); break;
		case 4: fint(s, i*2, K("i%u", i), i); fint(s, i*2+1, K("%u-%u", i, i), i+1); break; case 5: fint(m, i*3, K("k%u:%f", i, (double)i), i); fstr(m, i*3+1, K("K%u", i), V("%f", 2.0*i)); fint(m, i*3+2, K("J%u", i), i); break;
		case 6: fstr(m, i, K("%u", i), V("text of %u", i)); break; case 7: { struct HarbolMap *q = fsec(m, i, K("s%u", i)); CHECK(q->len==4, "%zu entries", q->len); fint(q, 0, "i", 0); fint(q, 1, "j", i); fint(q, 2, "0", 1); fstr(q, 3, K("n%u", i), V("%u", i)); break; }
		case 8: { long double f; memcpy(&f, fv(m, i*3, K("f%u", i), HarbolCfgType_Float)->data, sizeof f); CHECK(f==i+.25L, "'%s' is %Lf", k, f); uint8_t *c = (void *)fv(m, i*3+1, K("c%u", i), HarbolCfgType_Color)->data; CHECK(c[0]==i%256 && c[1]==1 && c[2]==2 && c[3]==3, "'%s'", k); float w[4]; memcpy(w, fv(m, i*3+2, K("v%u", i), HarbolCfgType_Vec4D)->data, sizeof w); CHECK(w[0]==i && w[1]==0 && w[2]==1 && w[3]==0, "'%s'", k); break; }
		case 9: CHECK(*(bool *)fv(m, i*2, K("x%u", i), HarbolCfgType_Bool)->data, "'%s'", k); fint(m, i*2+1, K("y%u", i), i); break; case 10: fint(m, i*2, K("l%u", i), i); fint(m, i*2+1, K("g%u", i), i); break; }
	if( kind==11 ) { for( uint32_t i=0; i < n; i++ ) { if( i % 500==0 ) { s = fsec(m, i/500, K("s%u", i)); CHECK(s->len==2*(n - i < 500? n - i : 500), "%zu entries", s->len); } fint(s, i%500*2, K("%u", i), i); fstr(s, i%500*2+1, K("%ue", i), "C-string-cfg"); } fint(m, (n+499)/500, "end", n); fstr(m, (n+499)/500 + 1, "m", V("%f", 2.0*(n+1) + 4.0*n)); }
	if( kind==4 ) { fint(m, 0, "b", 0); fint(m, 1, "B", 0); fint(m, 3, "a", 1); fint(m, 4, "A", n+1); fint(m, 5, "0", 1); fint(m, 6, K("%u", n), 2); }
	if( kind < 4 ) { fint(m, n, "last", kind==0? n : 0); fint(m, n+1, "Last", kind==1? n : 0); fint(m, n+2, K("%u!", kind==2? n : 0), 1); fint(m, n+3, K("%u?", kind==3? n : 0), 1); fstr(m, n+4, "m", V("%f", 10.0 + (double)(kind+1)*n)); }
	harbol_cfg_free(&m); CHECK(!strcmp(x, big_b), "the text was modified"); __real_free(x); vp_add_transitions(n); vp_case_done();
}
static void far_(void) { uint64_t x = 0; static uint32_t const L[NFN][4] = {{33000, 70001, 65537, 32767}, {10000, 33000, 70001}, {33000, 70001}, {10000, 33000, 70001}, {5000, 33000}, {3500, 40000}, {10000, 70001}, {10000, 70001}, {3500, 33000}, {5000, 40000}, {5000, 40000}, {70001, 140000, 32769, 65536}}, LS[] = {70001, 32768, 65535, 65536}; static uint32_t const BK[] = {BIG_KEY, BIG_STR, BIG_QUOTES, BIG_WS, BIG_HASH, BIG_SLASH, BIG_STAR};
	for( uint32_t i=0; i < (vp_tier? 4u : 2u); i++ ) { for( uint32_t k=0; k < NFN; k++ ) if( (i==0 || vp_tier) && L[k][i] && x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) frun(k, L[k][i]); for( uint32_t k=0; k < 7; k++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) frun(NFN+BK[k], LS[i ? i + k%3*!vp_tier : 0]); } }
void vp_explore(int c) {
	cfg = c; switch( c ) {
	case FAR: far_(); break;
	case LADDER: case LFILES: ladder(); break; case LIMITS: limits(); break;
	case PAIRS: { uint64_t idx = 0; uint32_t e[5]; for( e[0]=0; e[0] < NV; e[0]++ ) for( e[1]=0; e[1] < NV; e[1]++ ) for( e[2]=0; e[2] < 8; e[2]++ ) for( e[3]=0; e[3] < 8; e[3]++ ) { e[4] = e[1]==0; if( idx++ % (uint64_t)vp_nshards == (uint64_t)vp_shard && vp_case(e, 5) ) { pair(e); vp_case_done(); } }
		if( vp_shard==0 ) for( uint32_t n=1; n <= 60; n++ ) for( uint32_t k=0; k < 2; k++ ) { uint32_t t[2] = {n, k}; if( vp_case(t, 2) ) { nested(n, k); vp_case_done(); } } break; }
	case ITEMS: vp_words(NI, vp_tier? 5 : 4, word); break; case MATH: vp_words(17, vp_tier? 5 : 4, word); break; case MATHSTR: vp_words(11, vp_tier? 6 : 5, word); break; case INCL: vp_words(NINC, vp_tier? 5 : 4, word); break;
	default: vp_words((uint32_t)strlen(A[c]), c==KEYS? 6+vp_tier : 5+vp_tier, word);
	}
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c==LIMITS ) { if( n==7 && vp_case(t, n) ) { limit(t); vp_case_done(); } return; } if( c==FAR ) { if( n==2 ) frun(t[0], t[1]); return; } if( c >= LADDER ) { if( n==2 ) lrun(t[0], t[1]); else if( n==3 ) lname(t[0], t[1]); return; } if( vp_case(t, n) ) { if( c==PAIRS && n==2 ) nested(t[0], t[1]); else if( c==PAIRS ) pair(t); else word(t, (int)n); vp_case_done(); } }
