/* C20: the configuration parser against an independent parser on every bounded text, valid or not: same entries up to the malformed construct, a report exactly
   when something is malformed, no access outside the text (exact-size copy, AddressSanitizer), no hang, everything freed. */
#define _GNU_SOURCE
#include "vp.h"
char const *const vp_property = "C20";
void *__real_malloc(size_t); void __real_free(void *);
#include "cfgref.h"
#include "cfgbig.h"
enum { TOKENS, CORE, BYTES, BYTES2, MUTATE, FILES, GRAPH, DEEP, LADDER, EACH, LINES, NCFG };
static int cfg;
static char const *const TOK[] = {"'a'", "'b'", "{", "}", "true", "1", "c", "v", "[", "]", "\"", "'", ":", ",", "null", "iota", "-", ".5", "<file>", "'<enum>'", "'<math 1>'", "'<math 1'", "'<include>'", "/*", "*/", "#", "\n", "\\", "''", "fals", "0x", "0b1'"};
static char const *const CT[] = {"'a'", "'b'", "{", "}", " 1", "v", "[", "]", "''", "'<include>'", "'<math 2>'", "iota"};
static char const CH[] = "'\"\\{}[]:,cvtn1-.0x<#/* \n\xff";
static char const CH2[] = "'a\\x0{}";
static char const *const DOCS[] = {
	"'a':1,'b':2", "'a':{'b':{'c':null}}'d':true", "\"k\\n\": \"v\\t\\x41\"", "'c' c[1, 2, 3, 4] 'v' v[.5 -1 2e3 0x1p4]", "'x' iota 'y' IOTA 'z' <FILE>", "'<enum>' 'q' 'E<ENUM>' '<math 1+2*iota>'",
	"'<include>' 'nope' 'a' 0b101", "/* c */ 'a' // d\n 'b', 'x' # e \\\n f\n 1", "'a' -0x7f 'b' +017 'c' 1'000", "'a' {} 'b' { } 'c' {'d' 1,}", "'n<math 2^3>m' \"a<math (1)>b\"", "'a' '\\u00e9\\101\\0' 'b' \"\"" };
static char const INS[] = "'\"\\{}[]:,cvtn1-.0x<#/* \n>m";
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every token sequence", "longer sequences of core tokens", "every string of special characters", "longer strings of quotes, escapes and braces", "every edit of well-formed documents", "every small file", "every graph of including files", "deep nesting", "ladder", "every byte value and special sequences at every place of well-formed documents", "malformed entries on every line of files"})[c]); }
int vp_config_shards(int c) { return c==DEEP? 1 : 8; }
static void word(uint32_t const *w, int len) {
	char t[400]; size_t k = 0; for( int i=0; i < len; i++ ) { if( cfg==TOKENS || cfg==CORE ) { char const *x = (cfg==TOKENS? TOK : CT)[w[i]]; size_t l = strlen(x); memcpy(t+k, x, l); k += l; } else t[k++] = (cfg==BYTES2? CH2 : CH)[w[i]]; } t[k] = 0; doc(t, NULL);
}
static void file(uint32_t const *w, int len) { want_rep = true; static char const F[] = "'a1\t\r\n {}:#"; char t[20]; for( int i=0; i < len; i++ ) t[i] = F[w[i]]; t[len] = 0; put_file("f", t); doc(NULL, "f"); want_rep = false; }
static void edit(char *t, uint32_t kind, uint32_t pos, uint32_t ch) {
	size_t n = strlen(t); if( pos > n ) pos = (uint32_t)n;
	if( kind==0 ) { if( pos < n ) t[pos] = INS[ch]; } else if( kind==1 ) { memmove(t+pos+1, t+pos, n-pos+1); t[pos] = INS[ch]; } else if( kind==2 ) { if( pos < n ) memmove(t+pos, t+pos+1, n-pos); } else t[pos] = 0;
}
static void mutate(uint32_t const *e, size_t n) { char t[300]; strcpy(t, DOCS[e[0]]); for( size_t i=1; i+2 < n; i += 3 ) edit(t, e[i], e[i+1], e[i+2]); doc(t, NULL); }
#define ND (sizeof DOCS / sizeof *DOCS)
static void mutations(void) {
	uint64_t idx = 0; for( uint32_t d=0; d < ND; d++ ) { uint32_t L = (uint32_t)strlen(DOCS[d]), K = (uint32_t)sizeof INS - 1;
		uint32_t e[7] = {d}; if( vp_shard==0 && vp_case(e, 1) ) { mutate(e, 1); CHECK(doc_ok, "document %u should be well-formed", d); vp_case_done(); }
		for( e[1]=0; e[1] < 4; e[1]++ ) for( e[2]=0; e[2] <= L; e[2]++ ) for( e[3]=0; e[3] < (e[1] < 2? K : 1); e[3]++ ) {
			if( idx++ % (uint64_t)vp_nshards != (uint64_t)vp_shard ) continue;
			if( vp_case(e, 4) ) { mutate(e, 4); vp_case_done(); }
			/* pairs: truncated or shortened further; thorough: every second edit */
			for( e[4] = vp_tier? 0 : 2; e[4] < 4; e[4]++ ) for( e[5]=0; e[5] <= L; e[5]++ ) for( e[6]=0; e[6] < (e[4] < 2? K : 1); e[6]++ ) if( vp_case(e, 7) ) { mutate(e, 7); vp_case_done(); }
		} }
}
/* three files, each one up to two items: an entry, includes of any of the three, of one that is missing, of an empty one, a malformed entry, an include in a section */
static char const *const IT[] = {"", "'k' iota ", "'<include>' 'f0' ", "'<include>': 'f1', ", "'<include>' \"f2\"\n", "'<INCLUDE>' 'no' ", "'<include>' 'empty' ", "'x' ", "'s' {'<include>' 'f1'} ", "'<include>' '' ", "'<enum>' '<math IOTA+ENUM>' ", "'<include>' './f0' ", "'d' {'<include>' '.' 'e' <file> } "};
enum { NIT = 13 };
static void graph(uint32_t const *e) { char t[200]; for( int i=0; i < 3; i++ ) { char n[3] = {'f', (char)('0'+i), 0}; snprintf(t, sizeof t, "%s%s", IT[e[2*i]], IT[e[2*i+1]]); put_file(n, t); } put_file("empty", ""); want_rep = true; doc(NULL, "f0"); want_rep = false; char q[100]; snprintf(q, sizeof q, "%s", IT[e[0]]); doc(q, NULL); }
static void graphs(void) {
	uint64_t idx = 0; uint32_t e[6]; for( e[0]=0; e[0] < NIT; e[0]++ ) for( e[1]=0; e[1] < NIT; e[1]++ ) for( e[2]=0; e[2] < (vp_tier? NIT : 9); e[2]++ ) for( e[3]=0; e[3] < (vp_tier? NIT : 5); e[3]++ ) for( e[4]=0; e[4] < (vp_tier? 6 : 4); e[4]++ ) for( e[5]=0; e[5] < (vp_tier? 5 : 1); e[5]++ ) {
		if( idx++ % (uint64_t)vp_nshards != (uint64_t)vp_shard ) continue; if( vp_case(e, 6) ) { graph(e); vp_case_done(); } }
}
static void deep(uint32_t n, uint32_t closed) {
	char *t = __real_malloc((size_t)n*5 + 20), *q = t; for( uint32_t i=0; i < n; i++ ) q += sprintf(q, "'a'{"); if( closed==1 ) for( uint32_t i=0; i < n; i++ ) *q++ = '}'; if( closed==2 ) q += sprintf(q, "'b' 1"); *q = 0;
	if( n <= 100 ) { doc(t, NULL); CHECK(doc_ok==(closed==1 || n==0), "nesting"); }
	else { msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(t); msg_end(); CHECK(m != NULL, "no configuration"); if( closed != 1 ) CHECK(msg_bytes > 0, "%u open sections and nothing was reported", n);
		struct HarbolMap *at = m; uint32_t d = 0; while( at->len==1 ) { struct HarbolVariant *v = harbol_map_key_get(at, "a", 2); if( !v && d==n && closed==2 ) break; CHECK(v && v->tag==HarbolCfgType_Map, "level %u is not a section", d); at = *(struct HarbolMap **)v->data; d++; }
		CHECK(n > 400 || d==n, "%u levels refused", n); CHECK(at->len==(closed==2 && d==n) && (d==n || msg_bytes), "%u of %u levels parsed and nothing was reported", d, n); harbol_cfg_free(&m); }
	__real_free(t);
}

/* chains of f files, each opening d sections around the next include */
static void chain(uint32_t f, uint32_t d) {
	char *t = __real_malloc((size_t)d*6 + 60), nm[20]; for( uint32_t i=0; i < f; i++ ) { char *q = t; for( uint32_t k=0; k < d; k++ ) q = stpcpy(q, "'a'{"); q += i+1 < f? sprintf(q, "'<include>' 'ch%u' 'b' %u", i+1, i) : sprintf(q, "'b' %u", i); for( uint32_t k=0; k < d; k++ ) *q++ = '}'; *q = 0; snprintf(nm, sizeof nm, "ch%u", i); put_file(nm, t); }
	msg_begin(); struct HarbolMap *m = harbol_cfg_parse_file("ch0"); msg_end(); CHECK(m != NULL, "no configuration"); struct HarbolMap *at = m; uint32_t n = 0, x = 0;
	for( ;; ) { struct HarbolVariant *v = harbol_map_key_get(at, "a", 2); if( !v ) { snprintf(nm, sizeof nm, "ch%u", x+1); v = harbol_map_key_get(at, nm, strlen(nm)+1); if( !v ) break; x++; } CHECK(v->tag==HarbolCfgType_Map, "level %u is not a section", n); at = *(struct HarbolMap **)v->data; n++; }
	bool all = x+1==f && n==f*d + f-1 && harbol_cfg_get_int(at, "b"); CHECK(all || msg_bytes > 0, "%u of %u files, %u levels, and nothing was reported", x+1, f, n); if( (uint64_t)f*(d+1) <= 400 ) CHECK(all && msg_bytes==0, "%u files of %u levels refused: %s", f, d, msg_text);
	harbol_cfg_free(&m); for( uint32_t i=0; i < f; i++ ) { snprintf(nm, sizeof nm, "ch%u", i); remove(nm); } __real_free(t); vp_add_transitions(f);
}
/* ---- ladder: long texts, cut off or followed by something malformed ---- */
static char const *const TAIL[] = {"'x'", "'x' 1x", "'x' 'open", "'x' '\\", "'s' {", "}", "'c' c[1", "'x' 0x", "'x' '<math 1", "'x' '<math 1+>'", "'x' tru", "'<include>' ", "/* open", "# end", "{", "'' 1", "x", "'a' 5", "'x' '\\x'", "'s' {'t' 1 'u'", "'v' v[1 2 z]", "\xff"};
enum { NT = sizeof TAIL / sizeof *TAIL };
static void lrun(uint32_t kind, uint32_t n, uint32_t v) {
	uint32_t t[3] = {kind, n, v}; if( !vp_case(t, 3) ) return; vp_note("%s %u, %s", big_name[kind], n, v < NT? TAIL[v] : "cut off");
	if( big_doc(kind, n) ) {
		if( v < NT ) { bp(" "); bp(TAIL[v]); if( v & 1 ) bp(" 'after' 1"); }
		else { uint32_t c = v - NT; size_t at = c < 8? big_n - (c+1 < big_n? c+1 : big_n) : big_n * (c-7) / 9; big_b[at] = 0; big_n = at; }
		if( v % 5==4 ) { put_file("lf", big_b); want_rep = true; doc(NULL, "lf"); want_rep = false; } else doc(big_b, NULL); }
	vp_case_done();
}
static void ladder(void) { uint64_t x = 0; for( uint32_t k=0; k < BIG_KINDS; k++ ) for( uint32_t i=0; i < BIG_NSZ; i++ ) for( uint32_t v=0; v < NT + 16; v++ ) { uint32_t n = BIG_SZ[i]; if( big_costly(k, n) ) continue; if( n > 20 && !vp_tier && (i + k + v) % (n > 900? 9u : 3u) ) continue; if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(k, n, v); } }
/* every byte value, and sequences with a meaning elsewhere, inserted or put in place of a byte */
static char const *const SEQ[] = {"\xef\xbb\xbf", "\xef\xbb", "\xfe\xff", "\xff\xfe", "\xc2\xa0", "\xe2\x80\xa8", "\xc2\x85", "\xc0\x80", "\r\n", "\n\r", "\\\n", "\\\r\n", "??/", "//", "/*", "*/", "<!--", "--", ";;", "<enum>", "<math 1>", "<file>", "<include>", "%s", "%n", "%", "\xf0\x9f\x98\x80", "0x", "1'", "''", "\"\"", "true", "null", "c[", "v[", "{}", "'a'1", "'z'{}"};
enum { NSEQ = sizeof SEQ / sizeof *SEQ };
static void each(uint32_t d, uint32_t pos, uint32_t what, uint32_t kind) {
	char t[400]; uint32_t L = (uint32_t)strlen(DOCS[d]); if( pos > L || (kind && pos==L) ) return; memcpy(t, DOCS[d], pos); size_t n = pos; if( what < 255 ) t[n++] = (char)(what+1); else { strcpy(t+n, SEQ[what-255]); n += strlen(SEQ[what-255]); } strcpy(t+n, DOCS[d] + pos + kind);
	doc(t, NULL); if( what >= 255 || (what + pos) % 4==0 ) { put_file("f", t); want_rep = true; doc(NULL, "f"); want_rep = false; }
}
static void eachs(void) { uint64_t x = 0; uint32_t e[4]; for( e[0]=0; e[0] < ND; e[0]++ ) for( e[1]=0; e[1] <= strlen(DOCS[e[0]]); e[1]++ ) for( e[2]=0; e[2] < 255 + NSEQ; e[2]++ ) for( e[3]=0; e[3] < 2; e[3]++ ) if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(e, 4) ) { each(e[0], e[1], e[2], e[3]); vp_case_done(); } }
/* files of up to four items, each one of them on lines of its own, ending in something malformed */
static char const *const LI[] = {"'k%u' 1\n", "# c\n", "'s%u' {\n", "}", "\n", "// c \\\n more\n", "/* a\n\n*/", "'m%u' 'x\ny'", "'k%u':\n 5,", "\r\n\t", "'v%u' v[1\n,\n2]", "#\r", "'t%u' \"\\\n\"", "'<include>' 'lines1'\n", "'<math 1\n+%u>' c[]"};
static char const *const LE[] = {"'x'", "x", "'x' 'open", "'x' 0xg", "\"\" 1", "'k0' 1 'k0' 1", "'x' c[1\n 2", "'x'\n\n[1]", "'x' c\n(", "'x' '<math>'", "'x' nul", "'x' {'y' 1\n", "'<include>' 1", "'x' <\n", "'<include>' 'lines'\n"};
enum { NLI = sizeof LI / sizeof *LI, NLE = sizeof LE / sizeof *LE };
static void lines(uint32_t const *e, size_t n) {
	char t[600] = ""; int open = 0; size_t k = 0; for( size_t i=1; i < n; i++ ) { if( e[i]==2 ) open++; if( e[i]==3 && open-- <= 0 ) return; k += (size_t)sprintf(t+k, LI[e[i]], (unsigned)i); } strcpy(t+k, LE[e[0]]);
	put_file("lines1", "'ok' 1\n#\n 'w' '\n'"); put_file("lines", t); want_rep = true; doc(NULL, "lines"); put_file("lines0", "\n\n'a' iota # c\n'<include>'\n'lines'"); doc(NULL, "lines0"); want_rep = false;
}
static void liness(void) { uint64_t x = 0; uint32_t e[6]; uint32_t max = 4 + vp_tier; for( e[0]=0; e[0] < NLE; e[0]++ ) for( uint32_t n=0; n <= max; n++ ) { memset(e+1, 0, sizeof e - sizeof *e); for( ;; ) { if( (n < 4 || vp_tier || (e[1] + e[2] + e[3] + e[4] + e[0]) % 3==0) && x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(e, n+1) ) { lines(e, n+1); vp_case_done(); } int i = (int)n; while( i > 0 && ++e[i]==NLI ) e[i--] = 0; if( i <= 0 ) break; } } }
void vp_explore(int c) {
	cfg = c; if( c==EACH ) { eachs(); return; } if( c==LINES ) { liness(); return; } switch( c ) {
	case LADDER: ladder(); break;
	case TOKENS: vp_words(32, vp_tier? 5 : 4, word); break; case CORE: vp_words(12, vp_tier? 7 : 6, word); break; case BYTES: vp_words(sizeof CH - 1, vp_tier? 6 : 5, word); break; case BYTES2: vp_words(sizeof CH2 - 1, vp_tier? 9 : 8, word); break;
	case MUTATE: mutations(); break; case FILES: vp_words(11, vp_tier? 6 : 5, file); break; case GRAPH: graphs(); break;
	case DEEP: { static uint32_t const N[] = {1, 2, 10, 100, 399, 400, 510, 511, 512, 513, 514, 600, 1000, 1024, 5000, 100000, 1000000}; for( uint32_t i=0; i < 17; i++ ) for( uint32_t k=0; k < 3; k++ ) { uint32_t t[2] = {N[i], k}; if( vp_case(t, 2) ) { deep(N[i], k); vp_case_done(); } }
		static uint32_t const CF[] = {1, 2, 3, 5, 20, 60, 300}, CD[] = {0, 1, 2, 5, 50, 100, 199, 300, 390}; for( uint32_t i=0; i < 7; i++ ) for( uint32_t k=0; k < 9; k++ ) { uint32_t t[3] = {CF[i], CD[k], 0}; if( vp_case(t, 3) ) { chain(CF[i], CD[k]); vp_case_done(); } } }
	}
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c==LADDER ) { if( n==3 ) lrun(t[0], t[1], t[2]); return; } if( vp_case(t, n) ) { switch( c ) { case EACH: each(t[0], t[1], t[2], t[3]); break; case LINES: lines(t, n); break; case MUTATE: mutate(t, n); break; case FILES: file(t, (int)n); break; case GRAPH: graph(t); break; case DEEP: if( n==3 ) chain(t[0], t[1]); else deep(t[0], t[1]); break; default: word(t, (int)n); } vp_case_done(); } }
