/* Reference parser of the configuration language: text -> expected tree (and whether the text is well-formed), and its comparison with the real one. */
#pragma once
#include "lex/lex.h"
#include "cfg/cfg.h"
#include "lexref.h"
#include "mathref.h"
struct rn { uint8_t *key; size_t kl; int type; LD f; int64_t i; bool b, any; uint8_t col[4]; float v[4]; uint8_t *str; size_t sl; struct rn *kid, *next; };
enum { RN_MAX = 70000, RN_MEM = 8000000 };
static struct rn rn_pool[RN_MAX]; static size_t rn_n; static uint8_t rn_mem[RN_MEM]; static size_t rn_off;
/* a copy that lives as long as the reference tree, terminated */
static uint8_t *rn_keep(void const *b, size_t n) { if( rn_off + n + 1 > RN_MEM ) { fprintf(stdout, "reference pool exhausted\n"); abort(); } uint8_t *p = rn_mem + rn_off; if( n ) memcpy(p, b, n); p[n] = 0; rn_off += n + 1; return p; }
struct rs { char const *p, *fname; int64_t *li, *le, gi, ge; bool err, warn; struct rs *up; char const *base, *kv; };
/* the first report: in which file, and from which to which line it may point */
static struct { bool set, any; char const *file; uint32_t lo, hi; } rep;
static uint32_t r_line(struct rs const *s, char const *at) { uint32_t n = 1; for( char const *q = s->base; q < at; q++ ) if( *q=='\n' ) n++; return n; }
static void r_report(struct rs const *s, char const *upto) { if( rep.set ) return; rep.set = true; rep.any = false; rep.file = s->fname; rep.lo = r_line(s, s->kv); rep.hi = r_line(s, upto); }
static struct rn *rn_new(void) { if( rn_n >= RN_MAX ) { fprintf(stdout, "reference pool exhausted\n"); abort(); } struct rn *n = &rn_pool[rn_n++]; memset(n, 0, sizeof *n); return n; }
static bool r_err(struct rs *s) { r_report(s, s->p); s->err = true; return false; }
static bool r_ws(struct rs *s) { /* white space, comments, colons, commas */
	for( ;; ) { char const *p = s->p;
		if( *p && strchr(" \t\r\v\f\n:,", *p) ) s->p++;
		else if( *p=='#' || (*p=='/' && p[1]=='/') ) { while( *p && *p != '\n' ) { if( *p=='\\' ) { while( *p && *p != '\n' ) p++; if( *p ) p++; } else p++; } s->p = p; }
		else if( *p=='/' && p[1]=='*' ) { p += 2; while( *p && strncmp(p, "*/", 2) ) p++; if( *p ) p += 2; s->p = p; }
		else return *p != 0; }
}
static bool r_quote(int c) { return c=='"' || c=='\''; }
static bool r_string(struct rs *s, struct out *o) { size_t n; int r = rstr(s->p, false, o, &n); if( r ) { r_report(s, s->p + strlen(s->p)); return r_err(s); } s->p += n; return true; }
static int r_vars(char const *n, LD *v, LD (**fn)(LD), void *ctx) {
	struct rs *s = ctx; if( !strcmp(n, "IOTA") ) { *v = s->gi; return 1; } if( !strcmp(n, "iota") ) { *v = *s->li; return 1; } if( !strcmp(n, "ENUM") ) { *v = s->ge; return 1; } if( !strcmp(n, "enum") ) { *v = *s->le; return 1; } return rm_default(n, v, fn, NULL);
}
static bool r_has(uint8_t const *b, size_t n, char const *w, size_t *at) { size_t l = strlen(w); n = strnlen((char const *)b, n); for( size_t i=0; i+l <= n; i++ ) if( !memcmp(b+i, w, l) ) { *at = i; return true; } return false; }
static void r_subst(struct out *o, size_t at, size_t len, char const *with) { size_t w = strlen(with); memmove(o->b+at+w, o->b+at+len, o->n-at-len); memcpy(o->b+at, with, w); o->n = o->n - len + w; }
/* the first <math ...> becomes its value; false: malformed */
static bool r_math(struct rs *s, struct out *o) {
	size_t at; if( !r_has(o->b, o->n, "<math", &at) ) return true;
	size_t e = at+5, lim = strnlen((char const *)o->b, o->n); while( e < lim && o->b[e] != '>' ) e++; if( e==lim ) return r_err(s);
	static char x[LEX_MAX]; memcpy(x, o->b+at+5, e-at-5); x[e-at-5] = 0; LD v; if( !rmath(x, r_vars, s, &v) || isnan(v) ) return r_err(s);
	char t[5000]; snprintf(t, sizeof t, "%Lf", v); r_subst(o, at, e+1-at, t); return true;
}
/* number at s->p: 0 malformed, 1 int, 2 float */
static int r_number(struct rs *s, int64_t *iv, LD *fv, bool *range) {
	char const *b = s->p; bool neg = false; if( *b=='-' || *b=='+' ) neg = *b++=='-'; *range = true;
	if( !dec(*b) && *b != '.' ) { r_err(s); return 0; }
	size_t n; bool flt; if( !ref(CNUM, b, &n, &flt) ) { r_err(s); return 0; }
	static char t[LEX_MAX+1]; size_t k = 0; for( size_t i=0; i < n; i++ ) if( b[i] != '\'' ) t[k++] = b[i]; t[k] = 0;
	s->p = b + n;
	bool hx = t[0]=='0' && (t[1]|32)=='x';
	if( flt ) { while( k && (strchr("lL", t[k-1]) || (strchr("fF", t[k-1]))) ) t[--k] = 0; *fv = strtold(t, NULL); if( neg ) *fv = -*fv; return 2; }
	while( k && strchr("uUlL", t[k-1]) ) t[--k] = 0;
	uint64_t v = 0; unsigned base = hx? 16 : t[0]=='0' && (t[1]|32)=='b'? 2 : t[0]=='0' && k > 1? 8 : 10; size_t i = base==16 || base==2? 2 : 0;
	for( ; i < k; i++ ) { unsigned d = (unsigned)hv(t[i]); if( d >= base ) *range = false; /* 00.9: octal spelling with decimal digits */ if( v > (UINT64_MAX-d)/base ) *range = false; v = v*base + d; }
	if( v > (uint64_t)INT64_MAX + neg ) *range = false;
	*iv = neg? (int64_t)(0-v) : (int64_t)v; *fv = neg? -(LD)v : (LD)v; return 1;
}
static struct rn *r_text(char const *text, char const *fname, struct rs *up, bool *err, bool *warn);
/* contents of a file with line ends unified and tabs as four blanks; NULL: cannot be read or empty */
static char *r_slurp(char const *path) {
	FILE *f = fopen(path, "r"); if( !f ) return NULL; static char in[LEX_MAX]; size_t n = fread(in, 1, LEX_MAX-1, f); fclose(f); if( n==0 ) return NULL; in[n] = 0; n = strlen(in);
	static char buf[64][LEX_MAX*4]; static int k; char *b = buf[k++ & 63]; size_t m = 0;
	for( size_t i=0; i < n; i++ ) if( in[i]=='\t' ) m += (size_t)sprintf(b+m, "    "); else if( in[i]=='\r' ) { b[m++] = '\n'; if( in[i+1]=='\n' ) i++; } else b[m++] = in[i];
	b[m] = 0; return b;
}
static bool r_dup(struct rn const *l, uint8_t const *k, size_t n) { for( ; l; l = l->next ) if( l->kl==n && !memcmp(l->key, k, n) ) return true; return false; }
static bool r_section(struct rs *s, struct rn **list); static bool r_keyval(struct rs *s, struct rn **list);
static bool r_keyval1(struct rs *s, struct rn **list) {
	struct rn **tail = list; while( *tail ) tail = &(*tail)->next;
	if( !r_ws(s) ) return false;
	s->kv = s->p; if( !r_quote(*s->p) ) return r_err(s);
	OUT(k); if( !r_string(s, &k) ) return false;
	if( k.n==0 || k.b[0]==0 ) return r_err(s);
	if( r_dup(*list, k.b, k.n) ) return r_err(s);
	r_ws(s);
	if( k.n==9 && (!memcmp(k.b, "<include>", 9) || !memcmp(k.b, "<INCLUDE>", 9)) ) {
		OUT(p); if( !r_quote(*s->p) ) return r_err(s); if( !r_string(s, &p) ) return false;
		char *path = (char *)rn_keep(p.b, p.n);
		if( r_dup(*list, p.b, p.n) ) return r_err(s);
		bool circ = s->fname && !strcmp(s->fname, path); for( struct rs *u=s->up; u; u=u->up ) if( u->fname && !strcmp(u->fname, path) ) circ = true;
		char *t = circ || !*path? NULL : r_slurp(path);
		if( !t && !rep.set ) { r_report(s, s->p); rep.any = !circ && *path; }
		if( !t ) s->warn = true; else { struct rn *n = rn_new(); n->type = HarbolCfgType_Map; n->key = (uint8_t *)path; n->kl = p.n; bool e = false, w = false; n->kid = r_text(t, path, s, &e, &w); if( e || w ) s->warn = true; *tail = n; }
		r_ws(s); return true;
	}
	char num[32]; size_t at; bool any = false;
	snprintf(num, sizeof num, "%lld", (long long)*s->le); while( r_has(k.b, k.n, "<enum>", &at) ) { r_subst(&k, at, 6, num); any = true; } if( any ) ++*s->le;
	any = false; snprintf(num, sizeof num, "%lld", (long long)s->ge); while( r_has(k.b, k.n, "<ENUM>", &at) ) { r_subst(&k, at, 6, num); any = true; } if( any ) ++s->ge;
	if( !r_math(s, &k) ) return false;
	if( r_dup(*list, k.b, k.n) ) return r_err(s);
	struct rn *n = rn_new(); n->key = rn_keep(k.b, n->kl = k.n); bool rg;
	switch( *s->p ) {
	case '{': { int64_t *oi = s->li, *oe = s->le, zi = 0, ze = 0; s->li = &zi; s->le = &ze; n->type = HarbolCfgType_Map; bool r = r_section(s, &n->kid); s->li = oi; s->le = oe; *tail = n; if( !r ) return false; break; }
	case '"': case '\'': { OUT(o); if( !r_string(s, &o) || !r_math(s, &o) ) return false; n->type = HarbolCfgType_String; n->str = rn_keep(o.b, n->sl = o.n); break; }
	case 'c': case 'v': {
		int t = *s->p++; n->type = t=='c'? HarbolCfgType_Color : HarbolCfgType_Vec4D; r_ws(s); if( *s->p != '[' ) return r_err(s); s->p++; r_ws(s);
		for( int i=0; *s->p && *s->p != ']'; i++ ) { int64_t iv = 0; LD fv = 0; int q = r_number(s, &iv, &fv, &rg); if( !q ) return false; if( i < 4 ) { if( t=='c' ) { n->col[i] = (uint8_t)iv; if( q==2 || iv < 0 || iv > 255 || !rg ) n->any = true; } else { n->v[i] = (float)fv; if( !rg ) n->any = true; } } r_ws(s); }
		if( !*s->p ) return r_err(s); s->p++; break; }
	case 't': if( strncmp(s->p, "true", 4) ) return r_err(s); s->p += 4; n->type = HarbolCfgType_Bool; n->b = true; break;
	case 'f': if( strncmp(s->p, "false", 5) ) return r_err(s); s->p += 5; n->type = HarbolCfgType_Bool; break;
	case 'n': if( strncmp(s->p, "null", 4) ) return r_err(s); s->p += 4; n->type = HarbolCfgType_Null; break;
	case 'I': if( strncmp(s->p, "IOTA", 4) ) return r_err(s); s->p += 4; n->type = HarbolCfgType_Int; n->i = s->gi++; break;
	case 'i': if( strncmp(s->p, "iota", 4) ) return r_err(s); s->p += 4; n->type = HarbolCfgType_Int; n->i = (*s->li)++; break;
	case '<': if( strncmp(s->p, "<file>", 6) && strncmp(s->p, "<FILE>", 6) ) return r_err(s); s->p += 6; n->type = HarbolCfgType_String; { char const *f = s->fname? s->fname : "C-string-cfg"; n->str = rn_keep(f, n->sl = strlen(f)); } break;
	default:
		if( dec(*s->p) || *s->p=='.' || *s->p=='-' || *s->p=='+' ) { int q = r_number(s, &n->i, &n->f, &rg); if( !q ) return false; n->type = q==2? HarbolCfgType_Float : HarbolCfgType_Int; n->any = !rg; break; }
		return r_err(s);
	}
	*tail = n; r_ws(s); return true;
}
static bool r_keyval(struct rs *s, struct rn **list) { int top = out_top; bool r = r_keyval1(s, list); out_top = top; return r; }
static bool r_section(struct rs *s, struct rn **list) { char const *kv = s->kv; s->p++; r_ws(s); while( *s->p && *s->p != '}' ) if( !r_keyval(s, list) ) return false; s->kv = kv; if( !*s->p ) return r_err(s); s->p++; return true; }
static struct rn *r_text(char const *text, char const *fname, struct rs *up, bool *err, bool *warn) {
	int64_t li = 0, le = 0; struct rs s = {.p = text, .fname = fname, .li = &li, .le = &le, .up = up, .base = text, .kv = text}; struct rn *l = NULL;
	while( r_keyval(&s, &l) ); *err = s.err; *warn = s.warn; return l;
}
static struct rn *ref_parse(char const *text, char const *fname, bool *err, bool *warn) { rn_n = rn_off = 0; out_top = 0; rep.set = false; return r_text(text, fname, NULL, err, warn); }

static char const *qt(void const *s, size_t n) { static char b[4][700]; static int k; char *o = b[k++ & 3]; size_t m = 0; uint8_t const *p = s; for( size_t i=0; i < n && m < 600; i++ ) { if( p[i]=='\n' ) m += (size_t)sprintf(o+m, "\\n"); else if( p[i] < 32 || p[i] >= 127 ) m += (size_t)sprintf(o+m, "\\%03o", p[i]); else o[m++] = (char)p[i]; } o[m] = 0; return o; }
/* does the real section hold exactly the expected entries? */
static void tree_cmp(struct rn const *l, struct HarbolMap const *m, char const *what) {
	size_t i = 0; CHECK(m != NULL, "%s: no section", what);
	for( ; l; l = l->next, i++ ) {
		CHECK(i < m->len, "%s: entry '%s' is missing", what, qt(l->key, l->kl));
		CHECK(m->keylens[i]==l->kl+1 && !memcmp(m->keys[i], l->key, l->kl) && m->keys[i][l->kl]==0, "%s: entry %zu is '%s', should be '%s'", what, i, qt(m->keys[i], m->keylens[i]-1), qt(l->key, l->kl));
		struct HarbolVariant const *v = (void const *)m->datum[i]; CHECK(m->datalens[i]==sizeof *v && v, "%s: entry '%s' has no value", what, qt(l->key, l->kl));
		char const *kk = (char const *)l->key; CHECK(harbol_map_key_get(m, kk, l->kl+1)==(void *)v, "%s: entry '%s' is not found by its key", what, kk);
		CHECK(v->tag==l->type, "%s: entry '%s' has type %d, should be %d", what, kk, v->tag, l->type);
		CHECK(v->data != NULL, "%s: entry '%s' has no data", what, kk);
		if( l->any ) continue;
		switch( l->type ) {
		case HarbolCfgType_Map: tree_cmp(l->kid, *(struct HarbolMap **)v->data, what); break;
		case HarbolCfgType_String: { struct HarbolString const *s = *(struct HarbolString **)v->data; CHECK(s && s->len==l->sl && (l->sl==0 || !memcmp(s->cstr, l->str, l->sl)) && (!s->cstr || s->cstr[s->len]==0), "%s: '%s' is the string '%s', should be '%s'", what, kk, s? qt(s->cstr, s->len) : "-", qt(l->str, l->sl)); break; }
		case HarbolCfgType_Float: { LD f; memcpy(&f, v->data, sizeof f); CHECK(f==l->f || (f != f && l->f != l->f), "%s: '%s' is %.20Lg, should be %.20Lg", what, kk, f, l->f); break; }
		case HarbolCfgType_Int: { intmax_t x; memcpy(&x, v->data, sizeof x); CHECK(x==l->i, "%s: '%s' is %jd, should be %jd", what, kk, x, (intmax_t)l->i); break; }
		case HarbolCfgType_Bool: CHECK(*(bool *)v->data==l->b, "%s: '%s' is %s", what, kk, l->b? "false" : "true"); break;
		case HarbolCfgType_Color: CHECK(!memcmp(v->data, l->col, 4), "%s: '%s' is c[%u %u %u %u], should be c[%u %u %u %u]", what, kk, ((uint8_t *)v->data)[0], ((uint8_t *)v->data)[1], ((uint8_t *)v->data)[2], ((uint8_t *)v->data)[3], l->col[0], l->col[1], l->col[2], l->col[3]); break;
		case HarbolCfgType_Vec4D: { float x[4]; memcpy(x, v->data, sizeof x); for( int c=0; c < 4; c++ ) CHECK(x[c]==l->v[c], "%s: component %d of '%s' is %.9g, should be %.9g", what, c, kk, x[c], l->v[c]); break; }
		}
	}
	CHECK(i==m->len, "%s: %zu entries too many, the first '%s'", what, m->len - i, qt(m->keys[i], m->keylens[i]-1));
}
/* messages: whatever reaches stderr while the library runs */
static size_t msg_bytes; static char msg_text[512]; static FILE *msg_file, *msg_saved;
static ssize_t msg_write(void *c, char const *b, size_t n) { (void)c; if( msg_bytes < sizeof msg_text - 1 ) { size_t k = sizeof msg_text - 1 - msg_bytes; if( k > n ) k = n; memcpy(msg_text+msg_bytes, b, k); msg_text[msg_bytes+k] = 0; } msg_bytes += n; return (ssize_t)n; }
static void msg_begin(void) { if( !msg_file ) { vp_disarm(); static char buf[8192]; msg_file = fopencookie(NULL, "w", (cookie_io_functions_t){.write = msg_write}); setvbuf(msg_file, buf, _IOFBF, sizeof buf); } msg_bytes = 0; msg_text[0] = 0; msg_saved = stderr; stderr = msg_file; }
static void msg_end(void) { fflush(msg_file); stderr = msg_saved; }

/* parse the text (or the file of that name) both ways and compare; the result must also be writable and freeable */
static bool doc_ok; static bool want_rep; /* reports are checked for file and line */
static void doc(char const *text, char const *fname) {
	size_t n = text? strlen(text) : 0; char *s = NULL; bool err, warn; struct rn *want = NULL; bool none = false;
	if( fname ) { char *t = r_slurp(fname); if( t ) want = ref_parse(t, fname, &err, &warn); else { none = err = warn = true; rep.set = false; } }
	else { s = __real_malloc(n+1); memcpy(s, text, n+1); want = ref_parse(s, NULL, &err, &warn); }
	msg_begin(); struct HarbolMap *m = fname? harbol_cfg_parse_file(fname) : harbol_cfg_parse_cstr(s); msg_end(); char const *what = fname? fname : qt(text, n); doc_ok = !err;
	if( none ) CHECK(m==NULL, "%s: a file that cannot be read gave a configuration", what); else { CHECK(m != NULL, "%s: no configuration", what); tree_cmp(want, m, what); }
	if( (err || warn) && want_rep && rep.set && !rep.any && rep.file ) { size_t fl = strlen(rep.file); char *e; CHECK(msg_text[0]=='(' && !strncmp(msg_text+1, rep.file, fl) && msg_text[1+fl]==':', "%s: the report does not name the file '%s': %s", what, rep.file, msg_text); unsigned long ln = strtoul(msg_text+fl+2, &e, 10); CHECK(*e==')' && ln >= rep.lo && ln <= rep.hi, "%s: the malformed entry is on line %u%s but the report says: %s", what, rep.lo, rep.lo==rep.hi? "" : " or later", msg_text); }
	if( err || warn ) CHECK(msg_bytes > 0, "%s: malformed but nothing was reported", what); else CHECK(msg_bytes==0, "%s: well-formed but reported: %s", what, msg_text);
	if( m ) { struct HarbolString o = harbol_cfg_to_str(m); CHECK(o.cstr==NULL || strlen(o.cstr)==o.len, "%s: written text is not terminated", what); harbol_string_clear(&o); harbol_cfg_free(&m); harbol_cfg_free(&m); CHECK(m==NULL, "free did not clear the pointer"); }
	if( s ) { CHECK(!memcmp(s, text, n+1), "%s: text was modified", what); __real_free(s); }
	vp_add_transitions(1); if( vp_want_sample ) vp_sample("%s -> %s", what, err? "rejected" : "parsed");
}
static void put_file(char const *name, char const *text) { FILE *f = fopen(name, "w"); fputs(text, f); fclose(f); }
