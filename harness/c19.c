/* C19: every small section tree, every path string, every getter; every short history of setters (incl. values aliasing the tree); whole tree compared after each. */
#define _GNU_SOURCE
#include "vp.h"
char const *const vp_property = "C19";
void *__real_malloc(size_t); void __real_free(void *);
#include "cfgref.h"
#include "cfgbig.h"
enum { GET, GETLONG, SET, SET3, LADDER, NCFG };
static int cfg;
static char const *const ITEM[] = {"'a' 1 ", "'b' 'x+1' ", "'a' { ", "'b' { ", "} ", "'c' null ", "'a.b' 2.5 ", "'c' v[1] ", "'a\\\\b' true ", "'.' c[1 2] ", "'b' '2*y(3-x)' ", "'a.' { "};
static char const PC[] = "ab.\\c";
#define NI (sizeof ITEM / sizeof *ITEM)
static char const *const SDOC[] = {"'a' 1 'b' 'x' 'c' null", "'a' {'a' 1 'b' {'b' 'y' 'c' c[1] } 'c' v[1]} 'b' 2.5 'c' true", "'a' '' 'b' {} 'a.b' 'long text, long text, long text' 'c' { 'a' null }", "'a' {'a' {'a' {'a' 'z' }}} 'b' '1' 'c' {'c' 'q'}"};
#define NSD (sizeof SDOC / sizeof *SDOC)
static char const *const SPATH[] = {"a", "b", "c", "a.a", "a.b", "a\\.b", "a.b.b", "a.a.a.a", "c.a", "b.x", "", "d"};
enum { NSP = 12, NSET = 14 };
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"every tree with every path", "larger trees with fixed paths", "every history of two setters", "every history of three setters on one tree", "ladder"})[c]); }
int vp_config_shards(int c) { (void)c; return 8; }
/* the entry a path names, and the real variant in the same place */
static struct rn *find(struct rn *l, struct HarbolMap *m, char const *p, struct HarbolVariant **v) {
	for( ;; ) { static char k[140000]; size_t n = 0; while( *p && *p != '.' ) { if( *p=='\\' && p[1]=='.' ) p++; k[n++] = *p++; }
		struct rn *e = l; size_t i = 0; for( ; e && (e->kl != n || memcmp(e->key, k, n)); e = e->next ) i++;
		if( !e || n==0 ) return NULL; *v = (struct HarbolVariant *)m->datum[i]; if( !*p ) return e; if( e->type != HarbolCfgType_Map ) return NULL; l = e->kid; m = *(struct HarbolMap **)(*v)->data; p++; }
}
/* the caller's own variables: x is 40 more than the length of the data, y a function; the data arrive unchanged */
static void *cv_data; static size_t cv_len, cv_calls; static bool cv_bad;
static LD cv_twice(LD v) { return 2*v; }
static void cv(char const name[restrict static 1], size_t const len, LD *restrict value, HarbolMathFunc **restrict fn, void *data, size_t dl, bool *restrict is_func) { cv_calls++; if( data != cv_data || dl != cv_len || len != strlen(name) ) cv_bad = true; if( !strcmp(name, "x") ) *value = 40 + (LD)dl; else if( !strcmp(name, "y") ) { *fn = cv_twice; *is_func = true; } }
static int cv_ref(char const *n, LD *v, LD (**fn)(LD), void *ctx) { (void)ctx; if( !strcmp(n, "x") ) { *v = 40 + (LD)cv_len; return 1; } if( !strcmp(n, "y") ) { *fn = cv_twice; return 2; } return 0; }
static void gets_all(struct rn *l, struct HarbolMap *m, char const *path0) {
	size_t n = strlen(path0); char *path = __real_malloc(n+1); memcpy(path, path0, n+1);
	struct HarbolVariant *v = NULL; struct rn *e = find(l, m, path, &v); void *d = e? v->data : NULL; int t = e? e->type : HarbolCfgType_Invalid;
#define G(call,ty,exp) do { void const *g_ = call; void const *x_ = t==ty? (void const *)(exp) : NULL; CHECK(g_==x_, #call " of '%s': %s", path, g_==NULL? "absent, but it is there" : x_==NULL? "found something that is not there" : "found another entry"); } while( 0 )
	G(harbol_cfg_get_section(m, path), HarbolCfgType_Map, *(void **)d); G(harbol_cfg_get_str(m, path), HarbolCfgType_String, *(void **)d); G(harbol_cfg_get_float(m, path), HarbolCfgType_Float, d); G(harbol_cfg_get_int(m, path), HarbolCfgType_Int, d); G(harbol_cfg_get_bool(m, path), HarbolCfgType_Bool, d); G(harbol_cfg_get_color(m, path), HarbolCfgType_Color, d); G(harbol_cfg_get_vec4D(m, path), HarbolCfgType_Vec4D, d);
	size_t len = 777; char *c = harbol_cfg_get_cstr(m, path, &len); if( t==HarbolCfgType_String ) { struct HarbolString *s = *(struct HarbolString **)d; CHECK(c==s->cstr && len==e->sl, "get_cstr of '%s': length %zu", path, len); CHECK(!c || !memcmp(c, e->str, e->sl+1), "get_cstr of '%s'", path); } else CHECK(c==NULL, "get_cstr of '%s' found something that is not there", path);
	CHECK((int)harbol_cfg_get_type(m, path)==t, "get_type of '%s': %d, should be %d", path, harbol_cfg_get_type(m, path), t);
	if( t==HarbolCfgType_String || n < 3 ) { LD w, x = harbol_cfg_calc_math(m, path, NULL, NULL, 0); static char b[140000]; bool ok = t==HarbolCfgType_String; if( ok ) { memcpy(b, e->str, e->sl); b[e->sl] = 0; ok = rmath(b, rm_default, NULL, &w); } if( ok ) CHECK(x==w || fabsl(x-w) < 1e-15L*fabsl(w), "calc_math of '%s': %Lg, should be %Lg", path, x, w); else CHECK(isnan(x), "calc_math of '%s' is %Lg, there is no value", path, x);
		static int dd; for( int i=0; i < 3; i++ ) { cv_data = i? &dd : NULL; cv_len = i==1? 0 : i==2? (size_t)0x100000123 : sizeof dd; cv_calls = 0; cv_bad = false; x = harbol_cfg_calc_math(m, path, cv, cv_data, cv_len); ok = t==HarbolCfgType_String && rmath(b, cv_ref, NULL, &w); CHECK(!cv_bad, "calc_math of '%s': the variable function got other data", path); if( ok ) CHECK(x==w || fabsl(x-w) < 1e-15L*fabsl(w), "calc_math of '%s' with own variables: %Lg, should be %Lg", path, x, w); else CHECK(isnan(x), "calc_math of '%s' with own variables is %Lg, there is no value", path, x); } }
	__real_free(path); vp_add_transitions(9);
}
static void prune(char *q, uint32_t const *w, int len) { int o = 0; for( int i=0; i < len; i++ ) strcat(q, ITEM[w[i]]); (void)o; }
static bool tree_ok(uint32_t const *w, int len, int *open) { *open = 0; for( int i=0; i < len; i++ ) { size_t n = strlen(ITEM[w[i]]); if( ITEM[w[i]][n-2]=='{' ) ++*open; if( w[i]==4 && --*open < 0 ) return false; } return true; }
static void tree(uint32_t const *w, int len) {
	char q[400] = ""; int open; bool e, wn; if( !tree_ok(w, len, &open) ) return; prune(q, w, len); while( open-- ) strcat(q, "}"); struct rn *l = ref_parse(q, NULL, &e, &wn); if( e ) return;
	msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(q); msg_end(); tree_cmp(l, m, q);
	if( cfg==GET ) { char p[16]; int max = 4 + vp_tier; uint32_t x[8]; for( int n=0; n <= max; n++ ) { memset(x, 0, sizeof x); for( ;; ) { for( int i=0; i < n; i++ ) p[i] = PC[x[i]]; p[n] = 0; gets_all(l, m, p); int i = n-1; while( i >= 0 && ++x[i]==5 ) x[i--] = 0; if( i < 0 ) break; } } }
	else { static char const *const P[] = {"a", "b", "c", "a.a", "a.b", "a.c", "b.a", "b.b", "a\\.b", "a.a\\.b", "a.a.a", "a.b.a", "a.b.b", "b.a.b", "a.a.a.a", "a\\b", "\\.", "a.\\.", "a\\.", "a\\..a", "a\\..a\\.b", "a\\..b", "a.a.", ".a", "a..a", "a\\..", "a.b.c", "b.c", "x", "a.x.b", "a.a\\b"}; for( size_t i=0; i < sizeof P / sizeof *P; i++ ) gets_all(l, m, P[i]); }
	tree_cmp(l, m, q); harbol_cfg_free(&m); if( vp_want_sample ) vp_sample("%s", q);
}
/* setter op: path*NSET*2 + kind*2 + convert */
static void become(struct rn *e, int type) { struct rn *nx = e->next; uint8_t *k = e->key; size_t kl = e->kl; memset(e, 0, sizeof *e); e->key = k; e->kl = kl; e->next = nx; e->type = type; }
static uint32_t slen; /* length of the text set by kind NSET */
static void setp(struct rn *l, struct HarbolMap *m, char const *path, uint32_t kind, bool conv, char const *doc_) {
	uint32_t op = conv; struct HarbolVariant *v = NULL; struct rn *e = find(l, m, path, &v); bool r, alias = false; int t; char const *txt = NULL; struct HarbolString hs = {0}; static char tb[140000];
	static char const *const T[] = {"new", "", "a much longer piece of text than before"}; LD f = -12.25L; intmax_t in = -77; union HarbolColor col = {.array = {9, 8, 7, 6}}; struct HarbolVec4D vec = {1.5f, -2, 3, 4};
	switch( kind ) {
	case 0: case 1: case 2: { size_t n = strlen(T[kind])+1; char *c = __real_malloc(n); memcpy(c, T[kind], n); r = harbol_cfg_set_cstr(m, path, c, conv); memset(c, 'Z', n-1); __real_free(c); txt = T[kind]; t = HarbolCfgType_String; break; }
	case 3: r = harbol_cfg_set_str(m, path, hs, conv); txt = ""; t = HarbolCfgType_String; break;
	case 4: case 5: { size_t n = 0; char *c = harbol_cfg_get_cstr(m, kind==4? path : "b", &n); if( !c ) { c = (char *)""; n = 0; } size_t off = n > 1 && kind==4; memmove(tb, c+off, strlen(c+off)+1); r = harbol_cfg_set_cstr(m, path, c+off, conv); txt = tb; t = HarbolCfgType_String; alias = true; break; }
	case 6: { struct HarbolString *s = harbol_cfg_get_str(m, "b"); if( s ) hs = *s; snprintf(tb, sizeof tb, "%s", hs.cstr? hs.cstr : ""); r = harbol_cfg_set_str(m, path, hs, conv); txt = tb; t = HarbolCfgType_String; break; }
	case 7: r = harbol_cfg_set_float(m, path, f, conv); t = HarbolCfgType_Float; break;
	case 8: r = harbol_cfg_set_int(m, path, in, conv); t = HarbolCfgType_Int; break;
	case 9: r = harbol_cfg_set_bool(m, path, conv, conv); t = HarbolCfgType_Bool; break;
	case 10: r = harbol_cfg_set_color(m, path, col, conv); t = HarbolCfgType_Color; break;
	case 11: r = harbol_cfg_set_vec4D(m, path, vec, conv); t = HarbolCfgType_Vec4D; break;
	case 12: r = harbol_cfg_set_to_null(m, path); t = HarbolCfgType_Null; conv = true; break;
	case NSET: { char *c = __real_malloc(slen+1); for( uint32_t i=0; i < slen; i++ ) c[i] = (char)('a' + (i + i/26)%26); c[slen] = 0; memcpy(tb, c, slen+1); r = harbol_cfg_set_cstr(m, path, c, conv); memset(c, 'Z', slen); __real_free(c); txt = tb; t = HarbolCfgType_String; break; }
	default: { struct HarbolString s = {0}; harbol_string_copy_cstr(&s, "by value"); r = harbol_cfg_set_str(m, path, s, conv); harbol_string_clear(&s); txt = "by value"; t = HarbolCfgType_String; }
	}
	bool want = e && (e->type==t || conv); (void)alias;
	CHECK(r==want, "%s: setter %u of '%s' (convert %d) returns %d", doc_, kind, path, conv, r);
	if( want ) { become(e, t); if( txt ) { e->str = rn_keep(txt, e->sl = strlen(txt)); } e->f = f; e->i = in; e->b = op & 1; memcpy(e->col, col.array, 4); e->v[0] = 1.5f; e->v[1] = -2; e->v[2] = 3; e->v[3] = 4; }
	char what[300]; snprintf(what, sizeof what, "%s, after setter %u of '%s' (convert %u)", doc_, kind, path, op & 1); tree_cmp(l, m, what); gets_all(l, m, path); vp_add_transitions(1);
}
static void setter(struct rn *l, struct HarbolMap *m, uint32_t op, char const *doc_) { setp(l, m, SPATH[op/(2*NSET) % NSP], op/2 % NSET, op & 1, doc_); }
static void history(uint32_t const *t, size_t n) { bool e, w; char const *d = SDOC[t[0]]; struct rn *l = ref_parse(d, NULL, &e, &w); msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(d); msg_end(); CHECK(!e && m, "set-up"); for( size_t i=1; i < n; i++ ) setter(l, m, t[i], d); harbol_cfg_free(&m); }
static void histories(void) {
	uint64_t idx = 0; uint32_t t[4], N = NSP*NSET*2;
	if( cfg==SET ) { for( t[0]=0; t[0] < NSD; t[0]++ ) for( t[1]=0; t[1] < N; t[1]++ ) for( t[2]=0; t[2] < N; t[2]++ ) if( idx++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(t, 3) ) { history(t, 3); vp_case_done(); } }
	else { /* three setters, on paths of the second tree */ uint32_t P[] = {0, 1, 4, 6}, K[] = {0, 1, 4, 5, 7, 8, 12}; uint32_t M = (uint32_t)(4*7*2); for( t[0]=1; t[0] < (vp_tier? NSD : 2); t[0]++ ) for( uint32_t a=0; a < M; a++ ) for( uint32_t b=0; b < M; b++ ) for( uint32_t c=0; c < M; c++ ) { uint32_t x[3] = {a, b, c}; for( int i=0; i < 3; i++ ) t[1+i] = (P[x[i]/14]*NSET + K[x[i]/2%7])*2 + (x[i] & 1); if( idx++ % (uint64_t)vp_nshards==(uint64_t)vp_shard && vp_case(t, 4) ) { history(t, 4); vp_case_done(); } } }
}

/* ---- ladder: long keys, long paths, many entries, long texts ---- */
static void lset(struct rn *l, struct HarbolMap *m, char const *path, uint32_t seed, char const *what) { static uint32_t const K[] = {0, 7, 8, 2, 9, 12, 10, 1, 11, 13, 4, 3}; for( uint32_t i=0; i < 4; i++ ) setp(l, m, path, K[(seed + i*5) % 12], (seed + i) & 1, what); }
enum { L_DEPTH, L_KEY, L_DOTS, L_ENTRIES, L_TEXT, L_MISSING, L_LONGPATH, L_STRKEYS, L_KINDS };
static char const *const ln[] = {"depth", "key length", "dots in a key", "entries", "text length", "missing key", "path of long keys", "string entries"};
static void lcase(uint32_t kind, uint32_t n, uint32_t v) {
	static char P[140000]; P[0] = 0; big_doc(BIG_ENTRIES, 0); size_t o = 0; uint32_t stop = 0;
	switch( kind ) {
	case L_DEPTH: if( n > 100 ) return; bp("'a' 1 "); br("'s'{'b' 'x' ", n); bp("'v' 'end'"); br("}", n); for( uint32_t i=0; i < n; i++ ) o += (size_t)sprintf(P+o, "s."); strcpy(P+o, "v"); break;
	case L_KEY: if( n==0 ) return; bp("'k' 1 's' {'"); for( uint32_t i=0; i < n; i++ ) { char c = (char)('a' + i*7 % 26); bf("%c", (uint32_t)c); } bp("' 'val' 'z' 2}"); o += (size_t)sprintf(P, "s."); for( uint32_t i=0; i < n; i++ ) P[o++] = (char)('a' + i*7 % 26); P[o] = 0; break;
	case L_DOTS: if( n > 20000 ) return; bp("'k' 1 's' {'"); for( uint32_t i=0; i < n; i++ ) bp(i % (v+2)==v? "." : i % 11==3? "\\\\" : "q"); bp("w' 'val' 'z' 2}"); o += (size_t)sprintf(P, "s."); for( uint32_t i=0; i < n; i++ ) o += (size_t)sprintf(P+o, "%s", i % (v+2)==v? "\\." : i % 11==3? "\\" : "q"); strcpy(P+o, "w"); /* a backslash just before a dot in the key reads as an escape */ for( uint32_t i=0; i+1 < n; i++ ) if( i % (v+2) != v && i % 11==3 && (i+1) % (v+2)==v ) stop = 1; if( stop ) return; break;
	case L_ENTRIES: if( n > (vp_tier? 2100u : 520u) ) return; bp("'s' {"); for( uint32_t i=0; i < n; i++ ) { bf("'k%u' ", i); bf("%u ", i); } bp("} 't' {}"); snprintf(P, 40, "s.k%u", n? v==0? 0 : v==1? n-1 : n/2 : 0); break;
	case L_STRKEYS: if( n > (vp_tier? 2100u : 520u) ) return; bp("'s' {'t' {"); for( uint32_t i=0; i < n; i++ ) { bf("'%u' ", i*i); bf("'text %u' ", i); } bp("}}"); snprintf(P, 40, "s.t.%u", n? v==0? 0 : v==1? (n-1)*(n-1) : (n/2)*(n/2) : 0); break;
	case L_TEXT: bp("'a' 'short' 'b' 'text' 's' {'x' '"); br("y", n); bp("' 'y' 1}"); strcpy(P, "s.x"); break;
	case L_MISSING: bp("'a' {'b' 1} 'ab' 2"); o += (size_t)sprintf(P, v? "a." : "a"); for( uint32_t i=0; i < n; i++ ) P[o++] = 'b'; P[o] = 0; break;
	case L_LONGPATH: { uint32_t d = 2 + v*7, k = n; if( k*d > 60000 || k==0 ) return; for( uint32_t i=0; i < d; i++ ) { bp("'"); for( uint32_t j=0; j < k; j++ ) { char c = (char)('a' + (i + j*3) % 26); bf("%c", (uint32_t)c); P[o++] = c; } P[o++] = '.'; bp("' {"); } bp("'v' 1 'w' 'x'"); br("}", d); P[o++] = 'v'; P[o] = 0; } break;
	}
	bool e, w; struct rn *l = ref_parse(big_b, NULL, &e, &w); msg_begin(); struct HarbolMap *m = harbol_cfg_parse_cstr(big_b); msg_end(); CHECK(!e && m, "set-up"); tree_cmp(l, m, ln[kind]);
	gets_all(l, m, P); if( kind==L_DEPTH || kind==L_LONGPATH ) { char *q = P; while( (q = strchr(q, '.')) ) { *q = 0; gets_all(l, m, P); *q++ = '.'; gets_all(l, m, q); } strcat(P, "."); gets_all(l, m, P); strcat(P, "x"); gets_all(l, m, P); P[strlen(P)-2] = 0; }
	if( kind==L_ENTRIES ) for( uint32_t i=0; i <= n; i++ ) { char p[30]; snprintf(p, sizeof p, "s.k%u", i); gets_all(l, m, p); }
	lset(l, m, P, v*3 + n, ln[kind]); if( kind==L_TEXT ) { static uint32_t const S[] = {0, 1, 5, 24, 100, 255, 256, 1000}; for( int i=0; i < 8; i++ ) { slen = S[i]; setp(l, m, "s.x", NSET, false, ln[kind]); slen = n; setp(l, m, v? "s.x" : "s.y", NSET, true, ln[kind]); setp(l, m, "b", 4, false, ln[kind]); } setp(l, m, "s.y", 5, true, ln[kind]); }
	harbol_cfg_free(&m);
}
static void lrun(uint32_t kind, uint32_t n, uint32_t v) { uint32_t t[3] = {kind, n, v}; if( !vp_case(t, 3) ) return; vp_note("%s %u, variant %u", ln[kind], n, v); lcase(kind, n, v); vp_case_done(); }
static void ladder(void) { uint64_t x = 0; for( uint32_t k=0; k < L_KINDS; k++ ) for( uint32_t i=0; i < BIG_NSZ + 6; i++ ) for( uint32_t v=0; v < 3; v++ ) { uint32_t n = i < BIG_NSZ? BIG_SZ[i] : (uint32_t[]){64999, 61000, 65535, 65536, 65537, 69900}[i-BIG_NSZ]; if( n > 6000 && v && !vp_tier ) continue; if( x++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) lrun(k, n, v); } }
void vp_explore(int c) { cfg = c; if( c==LADDER ) { ladder(); return; } if( c==GET ) vp_words(NI, vp_tier? 4 : 3, tree); else if( c==GETLONG ) vp_words(NI, vp_tier? 6 : 5, tree); else histories(); }
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c==LADDER ) { if( n==3 ) lrun(t[0], t[1], t[2]); return; } if( vp_case(t, n) ) { if( c==GET || c==GETLONG ) tree(t, (int)n); else history(t, n); vp_case_done(); } }
