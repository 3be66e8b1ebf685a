/* C07: string editing. All texts up to a length over a small alphabet (fixpoint), every edit from each. */
#include "vp.h"
#include <malloc.h>
#include <wchar.h>
#include <stdio.h>
#include "str/str.h"
char const *const vp_property = "C07";
struct conf { char const *name, *abc; int maxq, maxt; int slackq, slackt; };
static struct conf const C[] = { {"letters-case-space", "ab B", 4, 5, 0, 0}, {"two-letters-long", "ab", 6, 8, 0, 0}, {"capacity-slack", "a ", 4, 6, 3, 6}, {"high-bytes", "a\x80\xff\t", 3, 5, 0, 0} };
static int cfg, MAXL;
static struct HarbolString S, T[4]; /* T: other strings: unassigned, empty, one char, two chars */
static struct HarbolString *H;      /* a heap string, for construction */
enum { CAP = 64 };
struct txt { bool has; size_t n; char b[CAP]; };
static struct txt M;
static char AB[8]; static int nab;
enum { CLEAR, ADDC, ADDREP, ADDCSTR, ADDSTR, CPYCSTR, CPYSTR, FMT, REPC, REPS, RANGE, UPPER, LOWER, REV, RMC, TRIM, FILEOP, NEW };
struct op { uint8_t k, a, b, c; }; static struct op O[1500]; static uint32_t nO;
static char W[12][8]; static int nW; /* argument words */
static size_t const AMT[] = {0, 1, 2, 3, SIZE_MAX, SIZE_MAX-1, SIZE_MAX-2, SIZE_MAX/2, 12345 /* SIZE_MAX-len */, 12346 /* SIZE_MAX-len-1 */};
static void w_(char const *s) { snprintf(W[nW++], 8, "%s", s); }
static void mkops(void) {
	nO = nW = 0; nab = (int)strlen(C[cfg].abc); memcpy(AB, C[cfg].abc, (size_t)nab+1);
	char a = AB[0], b = AB[1], c = nab > 2? AB[2] : AB[0];
	char t[8]; w_("");
	snprintf(t, 8, "%c", a); w_(t); snprintf(t, 8, "%c", b); w_(t); snprintf(t, 8, "%c%c", a, a); w_(t); snprintf(t, 8, "%c%c", a, b); w_(t); snprintf(t, 8, "%c%c%c", a, c, a); w_(t); snprintf(t, 8, "%c%c%c%c", a, b, a, b); w_(t);
	if( nab > 3 ) { snprintf(t, 8, "%c%c", AB[3], b); w_(t); }
#define ADD(...) O[nO++] = (struct op){__VA_ARGS__}
	ADD(CLEAR,0,0,0);
	for( int i=0; i < nab; i++ ) { ADD(ADDC,(uint8_t)i,0,0); ADD(RMC,(uint8_t)i,0,0); }
	ADD(RMC,99,0,0); ADD(RMC,100,0,0);
	for( int i=0; i < 10; i++ ) ADD(ADDREP,0,(uint8_t)i,0); ADD(ADDREP,1,2,0);
	for( int i=0; i <= nW; i++ ) { ADD(ADDCSTR,(uint8_t)i,0,0); ADD(CPYCSTR,(uint8_t)i,0,0); }
	for( int i=0; i < 5; i++ ) { ADD(ADDSTR,(uint8_t)i,0,0); ADD(CPYSTR,(uint8_t)i,0,0); }
	for( int i=0; i < 7; i++ ) { ADD(FMT,0,(uint8_t)i,0); ADD(FMT,1,(uint8_t)i,0); }
	for( int i=0; i <= nab; i++ ) for( int j=0; j <= nab; j++ ) ADD(REPC,(uint8_t)i,(uint8_t)j,0);
	for( int i=0; i < nW; i++ ) for( int j=0; j < 6 && j < nW; j++ ) for( int k=0; k < 5; k++ ) ADD(REPS,(uint8_t)i,(uint8_t)j,(uint8_t)k);
	for( int i=0; i < 10; i++ ) for( int j=0; j < 10; j++ ) for( int k=0; k < 5; k += 2 ) ADD(RANGE,(uint8_t)i,(uint8_t)j,(uint8_t)k);
	ADD(UPPER,0,0,0); ADD(LOWER,0,0,0); ADD(REV,0,0,0); ADD(TRIM,0,0,0);
	for( int i=0; i < 4; i++ ) { ADD(FILEOP,(uint8_t)i,0,0); ADD(FILEOP,(uint8_t)i,1,0); }
	for( int i=0; i <= nW; i++ ) ADD(NEW,(uint8_t)i,0,0);
}
static char const *kn[] = {"clear","add_char","add_char_rep","add_cstr","add_str","copy_cstr","copy_str","format","replace_char","replace_cstr","replace_range","upper","lower","reverse","rm_char","trim_spaces","read_file","new"};
static char const *wn(int i) { return i < nW? W[i] : "NULL"; }
static size_t idx(int i) { size_t const v[] = {0,1,2,M.n-1,M.n,M.n+1,SIZE_MAX,3,((size_t)1<<32)+1,65536}; return v[i]; }
static void opname(uint32_t o, char *b, size_t n) {
	struct op p = O[o];
	switch( p.k ) {
	case ADDCSTR: case CPYCSTR: case NEW: snprintf(b, n, "%s(\"%s\")", kn[p.k], wn(p.a)); break;
	case REPS: snprintf(b, n, "replace_cstr(\"%s\",\"%s\",%zu)", W[p.a], W[p.b], (size_t)(p.c==4? SIZE_MAX : p.c)); break;
	case RANGE: snprintf(b, n, "replace_range(%s,%s,\"%s\")", (char const*[]){"0","1","2","len-1","len","len+1","MAX","3","2^32+1","2^16"}[p.a], (char const*[]){"0","1","2","len-1","len","len+1","MAX","3","2^32+1","2^16"}[p.b], W[p.c]); break;
	default: snprintf(b, n, "%s(%d,%d,%d)", kn[p.k], p.a, p.b, p.c);
	}
}
static void same(struct HarbolString const *s, struct txt const *m, char const *who) {
	CHECK(harbol_string_len(s)==m->n, "%s: length is %zu, should be %zu (text \"%s\", should be \"%s\")", who, harbol_string_len(s), m->n, s->cstr? s->cstr : "(none)", m->b);
	char const *c = harbol_string_cstr(s); CHECK(c==harbol_string_mut_cstr(s), "cstr differs from mut_cstr");
	if( m->n ) CHECK(c != NULL, "%s: text vanished, should be \"%s\"", who, m->b);
	if( c ) { CHECK(c[m->n]==0, "%s: not terminated after %zu characters", who, m->n); CHECK(!memcmp(c, m->b, m->n+1), "%s: text is \"%s\", should be \"%s\"", who, c, m->b); }
}
static char *ex(char const *s) { size_t n = strlen(s) + 1; char *p = __real_malloc(n); memcpy(p, s, n); return p; }
static struct txt TM[4];
static void begin(void) {
	memset(&S, 0, sizeof S); memset(&M, 0, sizeof M); memset(T, 0, sizeof T); memset(TM, 0, sizeof TM); bool r = true;
	T[1].cstr = calloc(1, 1); /* an emptied string */
	for( int i=2; i < 4; i++ ) { T[i] = harbol_string_make(W[i==2? 2 : 4], &r); CHECK(r, "make failed"); TM[i].n = strlen(W[i==2? 2 : 4]); strcpy(TM[i].b, W[i==2? 2 : 4]); }
}
static bool put(struct txt *d, char const *pre, size_t np, char const *mid, size_t nm, char const *post, size_t nq) {
	if( np+nm+nq > (size_t)MAXL ) return false;
	struct txt r = {true, np+nm+nq, {0}}; memcpy(r.b, pre, np); memcpy(r.b+np, mid, nm); memcpy(r.b+np+nm, post, nq); *d = r; return true;
}
static int up1(int c) { return c >= 'a' && c <= 'z'? c-32 : c; } static int lo1(int c) { return c >= 'A' && c <= 'Z'? c+32 : c; }
static int apply(uint32_t o, bool check) {
	(void)check; struct op const p = O[o]; struct txt N = M;
	switch( p.k ) {
	case CLEAR: harbol_string_clear(&S); memset(&N, 0, sizeof N); break;
	case ADDC: if( !put(&N, M.b, M.n, &AB[p.a], 1, "", 0) ) return 0; CHECK(harbol_string_add_char(&S, AB[p.a]), "add_char failed"); break;
	case ADDREP: {
		size_t a = AMT[p.b]; if( a==12345 ) a = SIZE_MAX - M.n; else if( a==12346 ) a = SIZE_MAX - M.n - 1;
		char t[8]; memset(t, AB[p.a], 8); bool big = a > 8;
		if( !big && !put(&N, M.b, M.n, t, a, "", 0) ) return 0;
		bool r = harbol_string_add_char_rep(&S, AB[p.a], a); CHECK(r==!big, "add_char_rep(%zu) returned %d", a, r);
	} break;
	case ADDCSTR: {
		if( p.a==nW ) { CHECK(!harbol_string_add_cstr(&S, NULL), "add_cstr(NULL) succeeded"); break; }
		if( !put(&N, M.b, M.n, W[p.a], strlen(W[p.a]), "", 0) ) return 0;
		char *e = ex(W[p.a]); bool r = harbol_string_add_cstr(&S, e); __real_free(e); CHECK(r || W[p.a][0]==0, "add_cstr failed");
	} break;
	case ADDSTR: {
		struct txt const *t = p.a==4? &M : &TM[p.a]; struct HarbolString *q = p.a==4? &S : &T[p.a];
		if( !put(&N, M.b, M.n, t->b, t->n, "", 0) ) return 0;
		bool r = harbol_string_add_str(&S, q); CHECK(r || t->n==0, "add_str failed");
	} break;
	case CPYCSTR: {
		if( p.a==nW ) { CHECK(!harbol_string_copy_cstr(&S, NULL), "copy_cstr(NULL) succeeded"); break; }
		if( !put(&N, W[p.a], strlen(W[p.a]), "", 0, "", 0) ) return 0;
		char *e = ex(W[p.a]); bool r = harbol_string_copy_cstr(&S, e); __real_free(e); CHECK(r || W[p.a][0]==0, "copy_cstr failed"); if( !r ) N = M;
	} break;
	case CPYSTR: {
		struct txt const *t = p.a==4? &M : &TM[p.a]; struct HarbolString *q = p.a==4? &S : &T[p.a];
		if( !put(&N, t->b, t->n, "", 0, "", 0) ) return 0;
		bool r = harbol_string_copy_str(&S, q); CHECK(r || t->n==0, "copy_str failed"); if( !r ) N = M;
	} break;
	case FMT: {
		bool clr = p.a; char const *pre = clr? "" : M.b; size_t np = clr? 0 : M.n; char t[32] = "";
		char a = AB[0], b = AB[1];
		switch( p.b ) { case 0: break; case 1: case 3: snprintf(t, 32, "%c", a); break; case 2: snprintf(t, 32, "%c%c%c", a, b, a); break; case 4: snprintf(t, 32, "%c%c", a, a); break; case 5: snprintf(t, 32, "%c%c%c%c", b, a, a, b); break; }
		if( p.b != 6 && !put(&N, pre, np, t, strlen(t), "", 0) ) return 0;
		int r;
		if( p.b==0 ) r = harbol_string_format(&S, clr, "%s", ""); else if( p.b==3 ) r = harbol_string_format(&S, clr, "%c", a); else if( p.b==6 ) r = harbol_string_format(&S, clr, "%lc", (wint_t)0x12345); else r = harbol_string_format(&S, clr, "%.*s", (int)strlen(t), t);
		if( p.b==6 ) CHECK(r < 0, "format reported success for something that cannot be formatted"); else CHECK(r==(int)strlen(t), "format returned %d, should be %zu", r, strlen(t));
	} break;
	case REPC: {
		char x = p.a < nab? AB[p.a] : 0, y = p.b < nab? AB[p.b] : 0; bool hit = false;
		if( x && y ) for( size_t i=0; i < M.n; i++ ) if( M.b[i]==x ) { N.b[i] = y; hit = true; }
		bool r = harbol_string_replace_char(&S, x, y); CHECK(r==hit, "replace_char returned %d, should be %d", r, hit);
	} break;
	case REPS: {
		char const *from = W[p.a], *to = W[p.b]; size_t fl = strlen(from), tl = strlen(to), am = p.c==4? SIZE_MAX : p.c, done = 0, k = 0; struct txt R; memset(&R, 0, sizeof R); R.has = true;
		for( size_t i=0; i < M.n; ) { if( R.n + tl + 1 >= CAP ) return 0; if( fl && done < am && i + fl <= M.n && !memcmp(M.b+i, from, fl) ) { memcpy(R.b+R.n, to, tl); R.n += tl; i += fl; done++; } else R.b[R.n++] = M.b[i++]; (void)k; }
		if( R.n > (size_t)MAXL ) return 0;
		char *f = ex(from), *t = ex(to); bool r = harbol_string_replace_cstr(&S, f, t, am); __real_free(f); __real_free(t);
		if( done ) { N = R; CHECK(r, "replace_cstr failed"); } else CHECK(am==0 || !r, "replace_cstr reported a replacement although \"%s\" does not occur", from);
	} break;
	case RANGE: {
		size_t l = idx(p.a), u = idx(p.b); if( (p.a==3 || p.b==3) && M.n==0 ) return 0;
		char const *w = W[p.c]; size_t wl = strlen(w); bool ok = l < M.n; size_t uu = u >= M.n? M.n-1 : u; if( ok && uu < l ) ok = false;
		if( ok && !put(&N, M.b, l, w, wl, M.b+uu+1, M.n-uu-1) ) return 0;
		char *e = ex(w); bool r = harbol_string_replace_range(&S, l, u, e); __real_free(e);
		CHECK(r==ok, "replace_range(%zu,%zu) of a text of %zu returned %d", l, u, M.n, r);
	} break;
	case UPPER: case LOWER: { bool hit = false; for( size_t i=0; i < M.n; i++ ) { int x = p.k==UPPER? up1((unsigned char)M.b[i]) : lo1((unsigned char)M.b[i]); if( (char)x != M.b[i] ) { hit = true; N.b[i] = (char)x; } }
		bool r = p.k==UPPER? harbol_string_upper(&S) : harbol_string_lower(&S); CHECK(r==hit, "case change returned %d, should be %d", r, hit); } break;
	case REV: for( size_t i=0; i < M.n; i++ ) N.b[i] = M.b[M.n-1-i]; CHECK(harbol_string_reverse(&S)==(M.n > 1), "reverse of %zu characters returned otherwise", (size_t)M.n); break;
	case RMC: case TRIM: {
		char c = p.a==99? 0 : p.a==100? 'z' : AB[p.a]; size_t j = 0;
		for( size_t i=0; i < M.n; i++ ) { bool rm = p.k==TRIM? (M.b[i]==' ' || (M.b[i] >= 9 && M.b[i] <= 13)) : M.b[i]==c; if( !rm ) N.b[j++] = M.b[i]; }
		memset(N.b+j, 0, CAP-j); N.n = j; size_t r = p.k==TRIM? harbol_string_trim_spaces(&S) : harbol_string_rm_char(&S, c);
		CHECK(r==M.n-j, "%s removed %zu characters, should be %zu", kn[p.k], r, M.n-j);
	} break;
	case FILEOP: {
		char const *names[] = {"f_two", "f_four", "f_empty", "f_missing"}; char const *ct[] = {W[4], W[6], "", ""}; bool ok = p.a < 2;
		if( ok && !put(&N, ct[p.a], strlen(ct[p.a]), "", 0, "", 0) ) return 0;
		bool r;
		if( p.b==0 ) r = harbol_string_read_file(&S, names[p.a]);
		else { FILE *f = fopen(names[p.a], "r"); if( !f ) return 0; r = harbol_string_read_from_file(&S, f); fclose(f); }
		CHECK(r==ok || (p.a==2 && r), "read_file(%s) returned %d", names[p.a], r); if( p.a==2 && r ) { memset(&N, 0, sizeof N); }
	} break;
	case NEW: {
		char *e = p.a==nW? NULL : ex(W[p.a]); struct txt x; memset(&x, 0, sizeof x); if( e ) { x.n = strlen(e); strcpy(x.b, e); }
		H = harbol_string_new(e); CHECK(H != NULL, "new failed"); struct HarbolString J; bool r; J = harbol_string_make(e, &r); CHECK(r || x.n==0, "make failed");
		if( e ) memset(e, 'x', x.n); if( e ) __real_free(e);
		same(H, &x, "new string"); same(&J, &x, "made string"); harbol_string_clear(&J); same(&J, &(struct txt){0}, "cleared string");
		harbol_string_free(&H); CHECK(H==NULL, "free left the pointer"); harbol_string_free(&H);
	} break;
	}
	M = N; same(&S, &M, kn[p.k]);
	for( int i=0; i < 4; i++ ) same(&T[i], &TM[i], "another string");
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf,0,cap}; vp_put64(&b, S.cstr != NULL); vp_put64(&b, S.len); if( S.cstr ) vp_put(&b, S.cstr, S.len+1);
	int sl = vp_tier? C[cfg].slackt : C[cfg].slackq;
	if( sl && S.cstr ) { size_t u = malloc_usable_size(S.cstr), x = u - S.len - 1; if( x > (size_t)sl ) x = (size_t)sl; vp_put64(&b, x); for( size_t i=0; i < x; i++ ) vp_put64(&b, S.cstr[S.len+1+i] != 0); }
	return b.n;
}
static void end(void) { harbol_string_clear(&S); CHECK(S.cstr==NULL && S.len==0, "clear left something"); { struct HarbolString *z = NULL; harbol_string_free(&z); CHECK(!z, "freeing NULL"); } for( int i=0; i < 4; i++ ) harbol_string_clear(&T[i]); }
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) {
	cfg = c; mkops(); sys.nops = nO; MAXL = vp_tier? C[c].maxt : C[c].maxq;
	char const *n[] = {"f_two","f_four","f_empty"}; char const *t[] = {W[4], W[6], ""};
	for( int i=0; i < 3; i++ ) { FILE *f = fopen(n[i], "w"); if( f ) { fputs(t[i], f); fclose(f); } }
}

/* ---- ladder: every edit on texts of many lengths ---- */
enum { NC = (int)(sizeof C / sizeof *C), LCAP = 900000 };
static char LM[LCAP], LN[LCAP], LW[80000], LX[80000]; static size_t ln, lq;
static char ltx(uint32_t kind, size_t i) { switch( kind ) { case 0: return (char)('a' + i % 7); case 1: return "ab"[i & 1]; case 2: return 'a'; case 3: return " aB\tcD \xe9z"[i % 9]; case 5: return i==1 || i==65539 || i==65999? 'Q' : "abc"[i % 3]; case 6: return i==lq? 'Q' : "abc"[i % 3]; case 100 ... 355: return i % 3? "Az\xe1 "[i % 4] : (char)(kind-100); default: return (char)(1 + (i*37 + i/255) % 255); } }
static void lsame(struct HarbolString *s, char const *who) {
	CHECK(harbol_string_len(s)==ln, "%s: length is %zu, should be %zu", who, harbol_string_len(s), ln); char const *c = harbol_string_cstr(s);
	if( ln || c ) { CHECK(c && c[ln]==0, "%s: not terminated after %zu characters", who, ln); for( size_t i=0; i < ln; i++ ) CHECK(c[i]==LM[i], "%s: character %zu of %zu is %d, should be %d", who, i, ln, c[i], LM[i]); }
}
static void lrep(char const *from, char const *to, size_t am) {
	size_t const fl = strlen(from), tl = strlen(to); size_t o = 0, done = 0; for( size_t i=0; i < ln; ) { if( done < am && i + fl <= ln && !memcmp(LM+i, from, fl) ) { memcpy(LN+o, to, tl); o += tl; i += fl; done++; } else LN[o++] = LM[i++]; }
	if( done ) { memcpy(LM, LN, o); ln = o; } bool const r = harbol_string_replace_cstr(&S, from, to, am); CHECK(!done==!r, "replace_cstr of %zu occurrences returned %d", done, r);
}
enum { X_ADDC, X_ADDREP, X_ADDCSTR, X_ADDSTR, X_SELF, X_COPY, X_COPYSTR, X_FMT, X_REPC, X_REPS, X_RANGE, X_CASE, X_REV, X_RM, X_TRIM, X_FILE, X_GROW, X_NEW, X_NOPS, X_AMT, X_EQ };
static void ladder_run(uint32_t n, uint32_t kind, uint32_t op, uint32_t a, uint32_t b) {
	uint32_t t[5] = {n, kind, op, a, b}; if( !vp_case(t, 5) ) return; vp_note("text of %u characters (kind %u), operation %u(%u, %u)", n, kind, op, a, b);
	memset(&S, 0, sizeof S); ln = n; lq = n > 9? n - 9 : 0; for( size_t i=0; i < n; i++ ) LM[i] = ltx(kind, i); LM[n] = 0;
	{ char *e = ex(LM); if( n ) { if( n & 1 ) CHECK(harbol_string_init(&S, e), "init with %u characters", n); else CHECK(harbol_string_copy_cstr(&S, e), "copy_cstr of %u characters", n); } memset(e, 'x', n); __real_free(e); }
	lsame(&S, "a new string");
	for( size_t i=0; i < a && i < sizeof LW - 1; i++ ) LW[i] = kind >= 100 && i % 2==0? (char)(kind-100) : (char)('p' + i % 9); LW[a < sizeof LW? a : 0] = 0;
	struct HarbolString Q = {0};
	switch( op ) {
	case X_ADDC: for( uint32_t i=0; i < a; i++ ) { char const c = (char)('0' + i % 60); CHECK(harbol_string_add_char(&S, c), "add_char"); LM[ln++] = c; if( i % 64==0 ) lsame(&S, "add_char"); } break;
	case X_ADDREP: CHECK(harbol_string_add_char_rep(&S, '#', a), "add_char_rep(%u)", a); memset(LM+ln, '#', a); ln += a; CHECK(harbol_string_add_char(&S, '!'), "add_char"); LM[ln++] = '!'; break;
	case X_ADDCSTR: { char *e = ex(LW); CHECK(harbol_string_add_cstr(&S, e) || !a, "add_cstr of %u", a); CHECK(harbol_string_add_cstr(&S, e) || !a, "add_cstr of %u", a); __real_free(e); for( int k=0; k < 2; k++ ) { memcpy(LM+ln, LW, a); ln += a; } } break;
	case X_ADDSTR: CHECK(harbol_string_copy_cstr(&Q, LW) || !a, "copy_cstr"); CHECK(harbol_string_add_str(&S, &Q) || !a, "add_str of %u", a); memcpy(LM+ln, LW, a); ln += a; break;
	case X_SELF: CHECK(harbol_string_add_str(&S, &S) || !n, "add_str of the string itself"); memcpy(LM+ln, LM, ln); ln *= 2; break;
	case X_COPY: if( !a ) break; { char *e = ex(LW); CHECK(harbol_string_copy_cstr(&S, e), "copy_cstr of %u over %u", a, n); __real_free(e); memcpy(LM, LW, a); ln = a; } break;
	case X_COPYSTR: if( !a ) break; CHECK(harbol_string_copy_cstr(&Q, LW) && harbol_string_copy_str(&S, &Q), "copy_str of %u over %u", a, n); memcpy(LM, LW, a); ln = a; break;
	case X_FMT: { int r = harbol_string_format(&S, b & 1, "<%s|%d>", LW, (int)n); char *m = LM + (b & 1? 0 : ln); int const e = sprintf(m, "<%s|%d>", LW, (int)n); ln = (b & 1? 0 : ln) + (size_t)e; CHECK(r==e, "format of %d characters returned %d", e, r); } break;
	case X_REPC: { char const x = ltx(kind, b), y = '~'; bool hit = false; for( size_t i=0; i < ln; i++ ) if( LM[i]==x ) { LM[i] = y; hit = true; } bool const r = harbol_string_replace_char(&S, x, y); CHECK(r==hit, "replace_char returned %d", r); } break;
	case X_REPS: { size_t const w = b % 8 + 1; if( w > n ) break; memcpy(LX, LM + (kind==6 && lq + w <= n? lq : kind==5 && n > w? 1 : (n - w)/2), w); LX[w] = 0; size_t const am = b/8 % 4==0? 1 : b/8 % 4==1? 2 : b/8 % 4==2? 100 : SIZE_MAX; if( ((size_t)n + 1)*(a + 1) > LCAP ) break; lrep(LX, LW, am); } break;
	case X_RANGE: { size_t const l = b, u = (size_t)b + (a % 13); bool const ok = l < n; bool const r = harbol_string_replace_range(&S, l, u, LW); CHECK(r==ok, "replace_range(%zu,%zu) of %u returned %d", l, u, n, r); if( ok ) { size_t const uu = u >= n? n-1 : u; memcpy(LN, LM+uu+1, n-uu-1); memcpy(LM+l, LW, a); memcpy(LM+l+a, LN, n-uu-1); ln = l + a + n-uu-1; } } break;
	case X_AMT: { size_t const am = a; size_t const w = b & 1? 2 : 1; memcpy(LX, LM, w); LX[w] = 0; char const *to = (char const*[]){"xyz", "", "#", "~+"}[b/2 % 4]; if( (size_t)n*3 > LCAP ) break; lrep(LX, to, am); } break;
	case X_EQ: { size_t const l = b/3, u = l + a + b % 3 - 2; /* a range one shorter than, as long as, one longer than the text put there */ if( l >= n || u < l || u > n ) break; size_t const uu = u >= n? n-1 : u; bool const r = harbol_string_replace_range(&S, l, u, LW); CHECK(r, "replace_range(%zu,%zu) of %u failed", l, u, n); memcpy(LN, LM+uu+1, n-uu-1); memcpy(LM+l, LW, a); memcpy(LM+l+a, LN, n-uu-1); ln = l + a + n-uu-1; } break;
	case X_CASE: { bool hit = false; for( size_t i=0; i < ln; i++ ) { int const x = b & 1? up1((unsigned char)LM[i]) : lo1((unsigned char)LM[i]); if( (char)x != LM[i] ) { LM[i] = (char)x; hit = true; } } bool const r = b & 1? harbol_string_upper(&S) : harbol_string_lower(&S); CHECK(r==hit, "case change returned %d", r); } break;
	case X_REV: CHECK(harbol_string_reverse(&S)==(ln > 1), "reverse returned otherwise"); for( size_t i=0; i < ln/2; i++ ) { char const c = LM[i]; LM[i] = LM[ln-1-i]; LM[ln-1-i] = c; } break;
	case X_RM: case X_TRIM: { char const x = ltx(kind, b); size_t j = 0; for( size_t i=0; i < ln; i++ ) if( op==X_RM? LM[i] != x : !(LM[i]==' ' || (LM[i] >= 9 && LM[i] <= 13)) ) LM[j++] = LM[i]; size_t const r = op==X_RM? harbol_string_rm_char(&S, x) : harbol_string_trim_spaces(&S); CHECK(r==ln-j, "%zu characters removed, should be %zu", r, ln-j); ln = j; if( b & 1 ) { CHECK(harbol_string_add_cstr(&S, "end"), "add_cstr"); memcpy(LM+ln, "end", 3); ln += 3; } } break;
	case X_FILE: { FILE *f = fopen("f_big", "w"); CHECK(f && fwrite(LW, 1, a, f)==a, "cannot write"); fclose(f); bool r; if( b & 1 ) { f = fopen("f_big", "r"); r = harbol_string_read_from_file(&S, f); fclose(f); } else r = harbol_string_read_file(&S, "f_big"); CHECK(r==(a > 0), "read_file of %u bytes returned %d", a, r); if( a ) { memcpy(LM, LW, a); ln = a; } } break;
	case X_GROW: for( uint32_t r=0; r < 6; r++ ) { if( r & 1 ) { CHECK(harbol_string_add_char_rep(&S, (char)('A'+r), a), "add_char_rep"); memset(LM+ln, 'A'+(int)r, a); ln += a; } else if( a ) { CHECK(harbol_string_add_cstr(&S, LW), "add_cstr"); memcpy(LM+ln, LW, a); ln += a; } if( r==3 && n ) { char const c = ltx(kind, 0); size_t j = 0; for( size_t i=0; i < ln; i++ ) if( LM[i] != c ) LM[j++] = LM[i]; CHECK(harbol_string_rm_char(&S, c)==ln-j, "rm_char"); ln = j; } lsame(&S, "growing"); } break;
	case X_NEW: { char *e = ex(LW); struct HarbolString *h = harbol_string_new(e); __real_free(e); CHECK(h && harbol_string_len(h)==a && (a==0 || !strcmp(harbol_string_cstr(h), LW)), "new with %u characters", a); harbol_string_free(&h); } break;
	}
	lsame(&S, "after the edit"); harbol_string_clear(&S); harbol_string_clear(&Q); vp_outcome(vp_hash(LM, ln, op)); vp_case_done();
}
static uint32_t const LFAR[] = {127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
static void ladder(int c) {
	if( c==6 ) { for( uint32_t k=101; k < 356; k++ ) for( uint32_t n=0; n < 6; n++ ) for( uint32_t o=0; o < X_NOPS; o++ ) for( uint32_t a=0; a < 4; a++ ) for( uint32_t b=0; b < 4; b++ ) ladder_run(n, k, o, a, b); return; }
	if( c==10 ) { /* the only occurrence lies near the end */ for( uint32_t q=0; q < 110; q++ ) for( uint32_t b=0; b < 32; b++ ) for( uint32_t a=0; a < 12; a++ ) ladder_run(q < 80? q : LFAR[q-80], 6, X_REPS, a, b); return; }
	if( c >= 7 && c <= 9 ) {
		uint32_t const top = vp_tier? 20000 : 9000; uint32_t const O[] = {X_FMT, X_ADDREP, X_COPY, X_ADDSTR, X_ADDCSTR, X_NEW};
		if( c==7 ) for( uint32_t a=0; a < top; a++ ) for( int o=0; o < 6; o++ ) { if( o && a > 3000 && !vp_tier && (a & 255) > 2 && (a & 255) < 254 ) continue; ladder_run(o==0 && a % 3==1? 5 : o==3 || o==4? 1 : 0, 0, O[o], a, a % 3==2); }
		else if( c==8 ) {
		static uint32_t const AM[] = {1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537};
		for( int i=0; i < 37; i++ ) for( int d=0; d < 4; d++ ) for( uint32_t b=0; b < 8; b++ ) { uint32_t const N[] = {AM[i], AM[i] + 1, AM[i] + 45, 70000}; if( N[d] > 5000? b < 4 && (b < 2 || vp_tier) && (d==2 || (d==3 && (AM[i]==256 || AM[i] >= 65534))) : d < 3 || vp_tier ) ladder_run(N[d], b & 1, X_AMT, AM[i], b); }
		} else for( uint32_t n=1; n < 900; n += n < 40? 1 : 286 ) for( uint32_t a=0; a < 300; a++ ) for( uint32_t b=0; b < 3*n; b++ ) { if( b > 90 && b/3 != n-1 && b/3 != n/2 && b/3 + a != n && b/3 + a + 1 != n ) continue; ladder_run(n, 0, X_EQ, a, b); }
		return;
	}
	uint32_t const kind = (uint32_t)c, dense = vp_tier? 260 : 80;
	for( uint32_t q=0; q < dense + 30; q++ ) { uint32_t const n = q < dense? q : LFAR[q-dense];
		for( uint32_t o=0; o < X_NOPS; o++ ) {
			if( o==X_REV || o==X_SELF ) { ladder_run(n, kind, o, 0, 0); continue; }
			if( o==X_CASE ) { ladder_run(n, kind, o, 0, 0); ladder_run(n, kind, o, 0, 1); continue; }
			if( o==X_REPC || o==X_RM || o==X_TRIM ) { for( uint32_t b=0; b < (n > 300? 3 : 9); b++ ) ladder_run(n, kind, o, 0, b); continue; }
			if( o==X_RANGE ) { uint32_t const B[] = {0, 1, n/2, n-1, n-2, n, 15, 16, 64, 127, 128, 255, 256}; for( int b=0; b < 13; b++ ) for( uint32_t a=0; a < (n > 300? 3u : 14u); a++ ) if( B[b] <= n ) ladder_run(n, kind, o, a, B[b]); if( n < 300 ) for( int a=0; a < 10; a++ ) ladder_run(n, kind, o, LFAR[a], n/3); continue; }
			if( o==X_REPS ) { for( uint32_t b=0; b < 32; b++ ) for( uint32_t a=0; a < (n > 300? 3u : 12u); a += n > 300? 2 : 1 ) { if( n > 3000 && b % 8 > 1 ) continue; if( n > 600 && kind && kind < 4 && (b % 8 > 1 || n > 5000 || a > 2) ) continue; ladder_run(n, kind, o, a, b); } if( n < 100 ) for( int a=0; a < 8; a++ ) ladder_run(n, kind, o, LFAR[a], 24 + n % 8); continue; }
			if( n > 300 ) { uint32_t const A[] = {0, 1, 2, n, 255, 256, 1025}; for( int a=0; a < 7; a++ ) if( o != X_ADDC || A[a] < 300 ) ladder_run(n, kind, o, A[a], q & 1); continue; }
			for( uint32_t a=0; a < 20; a++ ) ladder_run(n, kind, o, a*a/4, a & 1);
			if( n < 20 || q % 8==0 ) for( int a=0; a < 30; a++ ) { if( (o==X_ADDC || o==X_GROW) && LFAR[a] > 1100 ) continue; ladder_run(n, kind, o, LFAR[a], (uint32_t)a & 1); }
		}
	}
}
int vp_nconfigs(void) { return NC + 11; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) { snprintf(o, n, "ladder-%d", c-NC); return; } snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { (void)c; return 1; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } setup(c); vp_bfs(&sys, 60, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==5 ) ladder_run(t[0], t[1], t[2], t[3], t[4]); return; } setup(c); vp_replay_hist(&sys, t, l); }
