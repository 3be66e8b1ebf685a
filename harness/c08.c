/* C08: string queries against a plain scan. All texts and all patterns up to a length over small alphabets. */
#include "vp.h"
#include "str/str.h"
char const *const vp_property = "C08";
struct conf { char const *name, *abc; int n, tq, tt, pq, pt; };
static struct conf const C[] = { {"letters-space", "ab ", 3, 7, 9, 4, 5}, {"high-bytes", "a\x80\xff\x01", 4, 5, 6, 3, 4}, {"two-letters-long", "aB", 2, 12, 13, 5, 6} };
static int cfg;
/* the C library may return any number of the right sign (and the real one does, which AddressSanitizer's hides): the difference of the bytes */
int __wrap_strncmp(char const *a, char const *b, size_t n); int __wrap_strcmp(char const *a, char const *b); int __wrap_memcmp(void const *a, void const *b, size_t n);
int __wrap_strncmp(char const *a, char const *b, size_t n) { for( ; n; a++, b++, n-- ) { if( *a != *b ) return (int)(unsigned char)*a - (int)(unsigned char)*b; if( !*a ) break; } return 0; }
int __wrap_strcmp(char const *a, char const *b) { return __wrap_strncmp(a, b, SIZE_MAX); }
int __wrap_memcmp(void const *a, void const *b, size_t n) { unsigned char const *x = a, *y = b; int d = 0; for( size_t i=n; i-- > 0; ) if( x[i] != y[i] ) d = x[i] - y[i]; return d; } /* touches all n bytes */
static char *ex(char const *s) { size_t n = strlen(s) + 1; char *p = __real_malloc(n); memcpy(p, s, n); return p; }
static int sgn(int x) { return (x > 0) - (x < 0); }
static int ucmp(char const *a, char const *b) { for( ; *a && *a==*b; a++, b++ ); return sgn((int)(unsigned char)*a - (int)(unsigned char)*b); }
static bool at(char const *t, size_t n, size_t i, char const *p, size_t m) { return i + m <= n && !memcmp(t+i, p, m); }
static void same(struct HarbolString const *s, char *c0, char const *t, size_t n, char const *what) { CHECK(s->cstr==c0 && s->len==n && (c0==NULL || !memcmp(c0, t, n+1)), "%s modified the string", what); }

/* the text t, held in string s, against pattern p (own exact-size buffer) and as another string q */
static void pair(struct HarbolString *s, char const *t, size_t n, char const *p0, int mode) {
	char *p = ex(p0); size_t m = strlen(p), cnt = 0, occ[16], no = 0; char *c0 = s->cstr;
	if( m ) for( size_t i=0; i < n; ) if( at(t, n, i, p, m) ) { cnt++; i += m; } else i++;
	if( m ) for( size_t i=0; i < n; i++ ) if( at(t, n, i, p, m) ) occ[no++] = i;
	size_t r = harbol_string_count_cstr(s, p);
	CHECK(r==cnt, "\"%s\" occurs %zu times in \"%s\", count_cstr says %zu", p, cnt, t, r); same(s, c0, t, n, "count_cstr");
	for( size_t k=1; k <= no+2; k++ ) {
		size_t *o = __real_malloc(k * sizeof *o); for( size_t i=0; i < k; i++ ) o[i] = 77;
		bool ok = harbol_string_cstr_offsets(s, p, o, k);
		CHECK(ok || c0==NULL, "cstr_offsets failed");
		if( ok ) for( size_t i=0; i < k; i++ ) CHECK(o[i]==(i < no? occ[i] : SIZE_MAX), "occurrence %zu of \"%s\" in \"%s\" reported at %zu, should be %zu", i, p, t, o[i], i < no? occ[i] : SIZE_MAX);
		__real_free(o);
	}
	same(s, c0, t, n, "cstr_offsets");
	int c = harbol_string_cmpcstr(s, p);
	if( c0==NULL ) CHECK(c != 0 || m==0, "an unassigned string equals \"%s\"", p);
	else CHECK(sgn(c)==ucmp(t, p), "comparing \"%s\" with \"%s\" gives %d", t, p, c);
	struct HarbolString q = {0};
	if( mode==0 ) { bool b = harbol_string_copy_cstr(&q, p); CHECK(b || m==0, "copy failed"); }
	else { char big[40]; snprintf(big, 40, "%s\5\5", p); harbol_string_copy_cstr(&q, big); harbol_string_rm_char(&q, 5); } /* spare capacity, and a buffer even when empty */
	c = harbol_string_cmpstr(s, &q); int c2 = harbol_string_cmpstr(&q, s);
	if( c0 && q.cstr ) { CHECK(sgn(c)==ucmp(t, p), "comparing string \"%s\" with string \"%s\" gives %d", t, p, c); CHECK(sgn(c2)==-ucmp(t, p), "comparing string \"%s\" with string \"%s\" gives %d", p, t, c2); }
	else { CHECK(c != 0 || n + m==0, "unassigned string equals \"%s%s\"", t, p); CHECK(c2 != 0 || n + m==0, "\"%s%s\" equals an unassigned string", p, t); }
	same(s, c0, t, n, "comparison");
	harbol_string_clear(&q); __real_free(p); vp_add_transitions(1);
}
static void text(uint32_t const *w, int len) {
	struct conf const *K = &C[cfg]; char t[64]; for( int i=0; i < len; i++ ) t[i] = K->abc[w[i]]; t[len] = 0; size_t n = (size_t)len;
	for( int mode=0; mode < 2; mode++ ) {
		struct HarbolString s = {0}; char *e = ex(t);
		if( mode==0 ) { bool b = harbol_string_copy_cstr(&s, e); CHECK(b || n==0, "copy failed"); } /* exact buffer; none when empty */
		else { char big[80]; snprintf(big, 80, "~%s~", t); harbol_string_copy_cstr(&s, big); harbol_string_rm_char(&s, '~'); }
		__real_free(e); char *c0 = s.cstr;
		CHECK(s.len==n && (mode==0 || !memcmp(s.cstr, t, n+1)), "could not set up \"%s\"", t);
		CHECK(harbol_string_empty(&s)==(n==0), "empty() is wrong for \"%s\"", t);
		bool pal = n > 0; for( size_t i=0; i < n; i++ ) pal = pal && t[i]==t[n-1-i];
		if( n ) CHECK(harbol_string_is_palindrome(&s)==pal, "is_palindrome(\"%s\") is %d", t, !pal); else (void)harbol_string_is_palindrome(&s);
		char const probe[] = {K->abc[0], K->abc[1], K->abc[K->n-1], 'z', '\x7e', '\xfe', 0};
		for( size_t k=0; k < sizeof probe - 1; k++ ) {
			char c = probe[k]; size_t cnt = 0, first = SIZE_MAX; for( size_t i=0; i < n; i++ ) if( t[i]==c ) { cnt++; if( first==SIZE_MAX ) first = i; }
			size_t a = harbol_string_count_char(&s, c), b = harbol_string_find_char(&s, c);
			CHECK(a==cnt, "count_char(\"%s\",%d) is %zu, should be %zu", t, c, a, cnt);
			CHECK(b==first, "find_char(\"%s\",%d) is %zu, should be %zu", t, c, b, first);
		}
		(void)harbol_string_count_char(&s, 0); (void)harbol_string_find_char(&s, 0);
		if( c0 ) { char a1[80] = "", a2[80] = ""; int n1 = -1, n2 = -1, r1 = harbol_string_scan(&s, "%70s%n", a1, &n1), r2 = sscanf(t, "%70s%n", a2, &n2); CHECK(r1==r2 && n1==n2 && !strcmp(a1, a2), "scan(\"%s\") differs from sscanf", t); }
		else { int x = 5; CHECK(harbol_string_scan(&s, "%d", &x) <= 0 && x==5, "scanning an unassigned string found something"); }
		same(&s, c0, t, n, "a query");
		/* every pattern */
		int pl = vp_tier? K->pt : K->pq; uint32_t pw[8]; char p[8];
		for( int l=0; l <= pl; l++ ) { memset(pw, 0, sizeof pw); for(;;) { for( int i=0; i < l; i++ ) p[i] = K->abc[pw[i]]; p[l] = 0; pair(&s, t, n, p, mode); int i = l-1; while( i >= 0 && ++pw[i]==(uint32_t)K->n ) pw[i--] = 0; if( i < 0 ) break; } }
		pair(&s, t, n, t, mode); { char x[72]; snprintf(x, 72, "%sa", t); pair(&s, t, n, x, mode); if( n > 1 ) { memcpy(x, t, n-1); x[n-1] = 0; pair(&s, t, n, x, mode); pair(&s, t, n, t+1, mode); memcpy(x, t, n); x[n-1] = '~'; x[n] = 0; pair(&s, t, n, x, mode); } }
		CHECK(harbol_string_cmpcstr(&s, NULL) != 0, "equal to NULL");
		harbol_string_clear(&s);
	}
	if( vp_want_sample ) vp_sample("text \"%s\"", t);
}

/* ---- ladder: long texts, the interesting place at every position ---- */
enum { NC = (int)(sizeof C / sizeof *C), NLAD = 6 };
static char T_[300000], P_[300000]; static struct HarbolString S;
static void load(size_t n) { T_[n] = 0; char *e = ex(T_); memset(&S, 0, sizeof S); if( n ) CHECK(harbol_string_copy_cstr(&S, e), "copy of %zu characters failed", n); __real_free(e); }
static void done(size_t n) { CHECK(S.len==n && (n==0 || !memcmp(S.cstr, T_, n+1)), "a query modified the string"); harbol_string_clear(&S); }
static void occurrences(size_t n, char const *p, size_t k) {
	size_t const m = strlen(p); size_t cnt = 0, no = 0; size_t *o = __real_malloc((k+1) * sizeof *o); for( size_t i=0; i <= k; i++ ) o[i] = 77;
	for( size_t i=0; i < n; ) if( at(T_, n, i, p, m) ) { cnt++; i += m; } else i++;
	char *e = ex(p); size_t const r = harbol_string_count_cstr(&S, e); CHECK(r==cnt, "a pattern of %zu occurs %zu times in %zu characters, count_cstr says %zu", m, cnt, n, r);
	CHECK(harbol_string_cstr_offsets(&S, e, o, k), "cstr_offsets failed");
	size_t i = 0; for( size_t x=0; x < n && i < k; x++ ) if( at(T_, n, x, p, m) ) { CHECK(o[i]==x, "occurrence %zu of a pattern of %zu in %zu characters is reported at %zu, should be %zu", i, m, n, o[i], x); i++; no++; }
	for( ; i < k; i++ ) CHECK(o[i]==SIZE_MAX, "occurrence %zu of %zu reported at %zu", i, no, o[i]); CHECK(o[k]==77, "cstr_offsets wrote past its array");
	__real_free(o); __real_free(e);
}
static void ladder_case(int c, uint32_t n, uint32_t pos, uint32_t m) {
	switch( c ) {
	case 0: { /* palindromes of n characters, broken at pos (n: not broken) */
		for( size_t i=0; i < n; i++ ) T_[i] = (char)('a' + (i < n/2? i : n-1-i) % 11 + ((i < n/2? i : n-1-i) / 11) % 3); if( pos < n ) T_[pos] = '~'; load(n);
		bool const pal = pos >= n || n==1 || (n & 1 && pos==n/2); CHECK(harbol_string_is_palindrome(&S)==pal, "is_palindrome of %u characters, changed at %u, is %d", n, pos, !pal); done(n); } break;
	case 1: { /* strings equal but for position pos; and one longer by m */
		for( size_t i=0; i < n; i++ ) T_[i] = (char)('A' + i*7 % 50); load(n);
		for( int v=0; v < 3; v++ ) { memcpy(P_, T_, n+1); if( v==1 ) { for( uint32_t i=0; i < m; i++ ) P_[n+i] = 'k'; P_[n+m] = 0; } else if( v==2 ) { if( pos > n ) break; P_[pos] = 0; } else if( pos < n ) P_[pos] = (char)(m & 1? P_[pos]+1 : 0xE9);
			char *e = ex(P_); int const x = harbol_string_cmpcstr(&S, e); CHECK(sgn(x)==ucmp(T_, P_), "comparing %u characters with %zu that differ first at %u gives %d", n, strlen(P_), pos, x);
			struct HarbolString q = {0}; if( *e ) { CHECK(harbol_string_copy_cstr(&q, e), "copy"); int const y = harbol_string_cmpstr(&S, &q), z = harbol_string_cmpstr(&q, &S); CHECK(sgn(y)==ucmp(T_, P_) && sgn(z)==-ucmp(T_, P_), "comparing strings of %u and %zu characters that differ first at %u gives %d and %d", n, q.len, pos, y, z); harbol_string_clear(&q); } __real_free(e); }
		done(n); } break;
	case 2: { /* one character at pos, and m of them at the end */
		for( size_t i=0; i < n; i++ ) T_[i] = (char)(i % 5==4? '\xe4' : 'a' + i % 4); if( pos < n ) T_[pos] = 'Z'; size_t cnt = pos < n; for( uint32_t i=0; i < m && i < n; i++ ) { if( T_[n-1-i] != 'Z' ) cnt++; T_[n-1-i] = 'Z'; } load(n); size_t f = SIZE_MAX; for( size_t i=0; i < n && f==SIZE_MAX; i++ ) if( T_[i]=='Z' ) f = i;
		CHECK(harbol_string_count_char(&S, 'Z')==cnt, "count_char among %u characters is %zu, should be %zu", n, harbol_string_count_char(&S, 'Z'), cnt); CHECK(harbol_string_find_char(&S, 'Z')==f, "find_char among %u characters is %zu, should be %zu", n, harbol_string_find_char(&S, 'Z'), f);
		size_t hi = 0; for( size_t i=0; i < n; i++ ) hi += T_[i]=='\xe4'; CHECK(harbol_string_count_char(&S, '\xe4')==hi, "count_char of a high byte"); CHECK(harbol_string_empty(&S)==(n==0), "empty"); done(n); } break;
	case 3: { /* a pattern of m characters at pos in a text of near matches */
		if( m==0 || m > n ) return; for( uint32_t i=0; i < m; i++ ) P_[i] = (char)(i+1==m? 'c' : "ab"[i & 1]); P_[m] = 0;
		for( size_t i=0; i < n; i++ ) T_[i] = "ab"[i & 1]; if( pos + m <= n ) memcpy(T_+pos, P_, m); load(n); occurrences(n, P_, 4); if( m > 1 ) { P_[m-1] = 'd'; occurrences(n, P_, 2); } done(n); } break;
	case 5: { /* n of the same character, every one an occurrence; patterns of m of them; palindromes */
		memset(T_, 'q', n); if( pos < n ) T_[pos] = 'r'; load(n); size_t const cnt = n - (pos < n); CHECK(harbol_string_count_char(&S, 'q')==cnt, "count_char of %zu occurrences is %zu", cnt, harbol_string_count_char(&S, 'q')); CHECK(harbol_string_find_char(&S, 'r')==(pos < n? pos : SIZE_MAX), "find_char of place %u in %u is %zu", pos, n, harbol_string_find_char(&S, 'r'));
		memset(P_, 'q', m); P_[m] = 0; if( n <= 1000 || m > 100 || (n==70001 && m==1 && (pos >= n || pos==n/2)) ) { size_t const want = pos < n? pos/m + (n-1-pos)/m : n/m; size_t const got = harbol_string_count_cstr(&S, P_); CHECK(got==want, "%u characters hold %zu times %u equal ones, count_cstr says %zu", n, want, m, got); if( m < 4 && n <= 1000 ) occurrences(n, P_, n+1); }
		P_[0] = 'r'; P_[1] = 0; size_t off[2] = {7, 7}; CHECK(harbol_string_cstr_offsets(&S, P_, off, 2), "cstr_offsets failed"); CHECK(off[0]==(pos < n? pos : SIZE_MAX) && off[1]==SIZE_MAX, "the only occurrence, at %u, is reported at %zu", pos, off[0]);
		bool const pal = pos >= n || (n & 1 && pos==n/2); CHECK(harbol_string_is_palindrome(&S)==pal, "is_palindrome of %u equal characters but %u", n, pos); done(n); } break;
	case 4: { /* periodic text of period pos, pattern of m characters of it: many (overlapping) occurrences, n offsets asked for */
		uint32_t const per = pos? pos : 1; if( m==0 || m > n ) return; for( size_t i=0; i < n; i++ ) T_[i] = (char)('a' + i % per % 26 + (i % per / 26) ); memcpy(P_, T_ + (n-m)/2, m); P_[m] = 0; load(n); occurrences(n, P_, n+2); occurrences(n, P_, n/2); done(n); } break;
	}
}
static void ladder_run(int c, uint32_t n, uint32_t pos, uint32_t m) { uint32_t t[3] = {n, pos, m}; if( !vp_case(t, 3) ) return; vp_note("%u characters, place %u, %u", n, pos, m); ladder_case(c, n, pos, m); vp_case_done(); }
static uint32_t const LFAR[] = {127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000};
static void ladder(int c) {
	if( c==5 ) { static uint32_t const N[] = {1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 70001, 131071, 131072, 131073, 140000, 200001, 262145}; static uint32_t const M[] = {1, 2, 3, 7, 128, 255, 256, 257};
		for( int i=0; i < 28; i++ ) for( int k=0; k < 8; k++ ) { uint32_t const n = N[i], P[] = {n, 0, 1, n/2, n/2-1, n/2+1, n-2, n-1, 254, 255, 256, 32768, 65534, 65535, 65536, 65537, 131071, 131072}; for( int p=0; p < 18; p++ ) if( P[p] <= n && M[k] <= n ) ladder_run(c, n, P[p], M[k]); } return; }
	uint32_t const dense = vp_tier? 130 : 48;
	for( uint32_t q=0; q < dense + 24; q++ ) { uint32_t const n = q < dense? q+1 : LFAR[q-dense];
		for( uint32_t r=0; r < 30 + (n < 100? n : 0); r++ ) {
			uint32_t const PO[] = {n, n-1, n-2, n/2, n/2-1, n/2+1, 0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1024, 65535, 65536}; uint32_t const pos = r < 30? PO[r] : r-30; if( pos > n ) continue; if( n > 5000 && r > 8 && r % 3 ) continue;
			static uint32_t const MM[] = {1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 300, 1000};
			if( c==0 ) ladder_run(c, n, pos, 0);
			else for( int k=0; k < 21; k++ ) { if( n > 300 && k > 2 && k % 4 ) continue; if( c==4 && (pos > 40 || (n > 300 && (k % 5 || r % 4)) || (n > 1100 && (r > 9 || n > 5000))) ) continue; if( n > 30000 && k > 1 && r > 6 ) continue; if( c==1 && k > 6 ) break; if( (c==2 || c==3) && MM[k] > n ) break; ladder_run(c, n, pos, MM[k]); }
		} }
}
int vp_nconfigs(void) { return NC + NLAD; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) { snprintf(o, n, "ladder-%s", (char const*[]){"palindromes","comparisons","characters","near-matches","periodic","equal"}[c-NC]); return; } snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { return c >= NC? 1 : 3; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } cfg = c; vp_words((uint32_t)C[c].n, vp_tier? C[c].tt : C[c].tq, text); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==3 ) ladder_run(c-NC, t[0], t[1], t[2]); return; } cfg = c; if( vp_case(t, l) ) { text(t, (int)l); vp_case_done(); } }
