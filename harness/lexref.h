/* Reference grammars for number literals and quoted strings, shared by C15, C16 and the configuration checks. */
#pragma once
enum { LEX_MAX = 140000, OUT_N = 700 };
/* ---- reference grammar ---- */
static bool dec(int c) { return c >= '0' && c <= '9'; } static bool hex(int c) { return dec(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } static bool oct(int c) { return c >= '0' && c <= '7'; } static bool bin(int c) { return c=='0' || c=='1'; }
static bool aln(int c) { return dec(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
/* D+(sep D+)*: index after it, or i when there is none */
static size_t digs(char const *s, size_t i, bool d(int), int sep) { if( !d(s[i]) ) return i; for(;;) { while( d(s[i]) ) i++; if( s[i]==sep && d(s[i+1]) ) i++; else return i; } }
static bool isuf(char const *s) { /* u, l, ll, ul, lu, ull, llu, any case */
	char t[8]; size_t n = strlen(s); if( n > 3 ) return false; for( size_t i=0; i <= n; i++ ) t[i] = (char)(s[i] >= 'A' && s[i] <= 'Z'? s[i]+32 : s[i]);
	char const *ok[] = {"", "u", "l", "ll", "ul", "lu", "ull", "llu"}; for( int i=0; i < 8; i++ ) if( !strcmp(t, ok[i]) ) return true; return false;
}
static bool fsuf(char const *s) { return *s==0 || (strchr("fFlL", *s) && s[1]==0); }
static size_t expo(char const *s, size_t i, char lo, int sep) { if( (s[i]|32) != lo ) return i; size_t j = i+1; if( s[j]=='+' || s[j]=='-' ) j++; size_t k = digs(s, j, dec, sep); return k==j? i : k; }
static bool g_dec(char const *s, bool c, bool *flt) { /* decimal integer or float; C: separator ' and suffixes, Go: _ and none */
	int sep = c? '\'' : '_'; size_t a = digs(s, 0, dec, sep), i = a; bool any = a > 0; *flt = false;
	if( s[i]=='.' ) { *flt = true; size_t k = digs(s, i+1, dec, sep); any |= k > i+1; i = k; }
	if( !any ) return false;
	size_t k = expo(s, i, 'e', sep); if( k > i ) { *flt = true; i = k; }
	return c? (*flt? fsuf(s+i) : isuf(s+i)) : s[i]==0;
}
static bool g_chex(char const *s, bool *flt) {
	*flt = false; if( s[0] != '0' || (s[1]|32) != 'x' ) return false;
	size_t b = 2; if( s[b]=='\'' ) b++; size_t i = digs(s, b, hex, '\''); if( i==b ) return false;
	bool dot = false; if( s[i]=='.' ) { dot = true; i = digs(s, i+1, hex, '\''); }
	size_t k = expo(s, i, 'p', '\''); if( k > i ) { *flt = true; return fsuf(s+k); }
	return !dot && isuf(s+i);
}
static bool g_ghex(char const *s, bool *flt) {
	*flt = false; if( s[0] != '0' || (s[1]|32) != 'x' ) return false;
	size_t b = 2; if( s[b]=='_' ) { b++; if( !hex(s[b]) ) return false; }
	size_t i = digs(s, b, hex, '_'); bool any = i > b, dot = false;
	if( s[i]=='.' ) { dot = true; size_t k = digs(s, i+1, hex, '_'); any |= k > i+1; i = k; }
	if( !any ) return false;
	size_t k = expo(s, i, 'p', '_'); if( k > i ) { *flt = true; return s[k]==0; }
	return !dot && s[i]==0;
}
static bool g_coct(char const *s, bool *flt) {
	*flt = false; if( s[0] != '0' ) return false;
	size_t i = digs(s, 0, oct, '\'');
	if( s[i]=='.' ) { *flt = true; i = digs(s, i+1, dec, '\''); i = expo(s, i, 'e', '\''); return fsuf(s+i); }
	return isuf(s+i);
}
static bool g_pre(char const *s, char lo, bool d(int), bool c) { /* 0b, 0o */
	if( s[0] != '0' || (s[1]|32) != lo ) return false; size_t b = 2; if( s[b]==(c? '\'' : '_') ) b++;
	size_t i = digs(s, b, d, c? '\'' : '_'); if( i==b ) return false; return c? isuf(s+i) : s[i]==0;
}
/* the run of characters that can belong to the literal at s; sg: exponent letter after which a sign belongs, 0: none */
static size_t run(char const *s, int sep, bool dots, int sg) { size_t i = 0; for( ;; i++ ) { int c = s[i]; if( aln(c) || c==sep || (dots && c=='.') ) continue; if( sg && (c=='+' || c=='-') && i > 0 && (s[i-1]|32)==sg ) continue; return i; } }

enum { CHEX, GHEX, COCT, GOCT, CBIN, GBIN, CDEC, GDEC, CNUM, GNUM, NF };
static char const *fnm[] = {"lex_c_style_hex","lex_go_style_hex","lex_c_style_octal","lex_go_style_octal","lex_c_style_binary","lex_go_style_binary","lex_c_style_decimal","lex_go_style_decimal","lex_c_style_number","lex_go_style_number"};
static bool ref(int f, char const *s, size_t *n, bool *flt) {
	static char t[LEX_MAX+2]; *flt = false; int sep = f==GHEX || f==GOCT || f==GBIN || f==GDEC? '_' : '\'';
	switch( f ) {
	case CNUM: case GNUM:
		if( !dec(s[0]) && s[0] != '.' ) { *n = 0; return false; }
		if( s[0]=='0' && (s[1]|32)=='x' ) return ref(f==CNUM? CHEX : GHEX, s, n, flt);
		if( s[0]=='0' && (s[1]|32)=='b' ) return ref(f==CNUM? CBIN : GBIN, s, n, flt);
		if( s[0]=='0' && (s[1]|32)=='o' && f==GNUM ) return ref(GOCT, s, n, flt);
		if( s[0]=='0' && s[1] >= '1' && s[1] <= '9' && f==CNUM ) return ref(COCT, s, n, flt);
		return ref(f==CNUM? CDEC : GDEC, s, n, flt);
	case CHEX: case GHEX: *n = run(s, sep, true, 'p'); break;
	case COCT: case CDEC: case GDEC: *n = run(s, sep, true, 'e'); break;
	default: *n = run(s, sep, false, 0);
	}
	if( *n==0 ) return false;
	if( *n > LEX_MAX ) { fprintf(stdout, "reference literal too long\n"); abort(); } memcpy(t, s, *n); t[*n] = 0; t[*n+1] = 0;
	switch( f ) {
	case CHEX: return g_chex(t, flt); case GHEX: return g_ghex(t, flt); case COCT: return g_coct(t, flt); case GOCT: return g_pre(t, 'o', oct, false);
	case CBIN: return g_pre(t, 'b', bin, true); case GBIN: return g_pre(t, 'b', bin, false); case CDEC: return g_dec(t, true, flt); default: return g_dec(t, false, flt);
	}
}

/* ---- strings ---- */
struct out { uint8_t *b; size_t n; };
/* results live on a stack of their own; whoever starts a comparison resets out_top */
static uint8_t out_mem[OUT_N][LEX_MAX]; static int out_top;
static uint8_t *out_buf(void) { if( out_top >= OUT_N ) { fprintf(stdout, "reference results exhausted\n"); abort(); } return out_mem[out_top++]; }
#define OUT(x) struct out x = {out_buf(), 0}
static void put(struct out *o, int c) { if( o->n >= LEX_MAX ) { fprintf(stdout, "reference result too long\n"); abort(); } o->b[o->n++] = (uint8_t)c; }
static void rune(struct out *o, uint32_t r) {
	if( r < 0x80 ) put(o, (int)r); else if( r < 0x800 ) { put(o, (int)(0xC0|r>>6)); put(o, (int)(0x80|(r&63))); }
	else if( r < 0x10000 ) { put(o, (int)(0xE0|r>>12)); put(o, (int)(0x80|(r>>6&63))); put(o, (int)(0x80|(r&63))); }
	else { put(o, (int)(0xF0|r>>18)); put(o, (int)(0x80|(r>>12&63))); put(o, (int)(0x80|(r>>6&63))); put(o, (int)(0x80|(r&63))); }
}
static int hv(int c) { if( c >= '0' && c <= '9' ) return c-'0'; if( c >= 'a' && c <= 'f' ) return c-'a'+10; if( c >= 'A' && c <= 'F' ) return c-'A'+10; return -1; }
static bool octd(int c) { return c >= '0' && c <= '7'; }
/* value of the hex digits at s (or -1), end in *e */
static int64_t rhex(char const *s, size_t *e) { size_t i = 0; uint64_t v = 0; bool big = false; while( hv(s[i]) >= 0 ) { v = v*16 + (uint64_t)hv(s[i]); if( v > INT32_MAX ) { big = true; v = INT32_MAX; } i++; } *e = i; return i==0 || big? -1 : (int64_t)v; }
static int64_t roct(char const *s, size_t *e) { size_t i = 0; int64_t v = 0; while( i < 3 && octd(s[i]) ) v = v*8 + (s[i++]-'0'); *e = i; return i==0? -1 : v; }
static bool uvalid(uint32_t u) { return u <= 0x10FFFF && !(u >= 0xD800 && u <= 0xDFFF) && (u >= 0xA0 || u=='$' || u=='@' || u=='`'); }
static int64_t runi(char const *s, size_t nd, size_t *e) { size_t i = 0; uint64_t v = 0; while( i < nd && hv(s[i]) >= 0 ) v = v*16 + (uint64_t)hv(s[i++]); *e = i; return i < nd || !uvalid((uint32_t)v)? -1 : (int64_t)v; }
/* returns the error (0: fine), content in o, consumed in *n */
static int rstr(char const *s, bool raw, struct out *o, size_t *n) {
	o->n = 0; *n = 0; if( !*s ) return HarbolLexEoF;
	int q = s[0]; size_t i = 1;
	for( ;; i++ ) {
		int c = s[i]; if( c==q ) { *n = i+1; return 0; }
		if( c==0 ) return HarbolLexSuddenEoFStr;
		if( c != '\\' || raw ) { put(o, c); continue; }
		int e = s[++i]; if( e==0 ) return HarbolLexSuddenEoFStr;
		static char const from[] = "arbtvnNfe", to[] = "\a\r\b\t\v\n\n\f\x1b"; char const *p = strchr(from, e); size_t k; int64_t v;
		if( p ) put(o, to[p-from]);
		else if( e=='x' || e=='X' ) { v = rhex(s+i+1, &k); if( v < 0 || v > 0x10FFFF ) return HarbolLexBadHexChar; rune(o, (uint32_t)v); i += k; }
		else if( e >= '0' && e <= '9' ) { v = roct(s+i, &k); if( v < 0 ) return HarbolLexBadOctalChar; rune(o, (uint32_t)v); i += k-1; }
		else if( e=='u' || e=='U' ) { v = runi(s+i+1, e=='u'? 4 : 8, &k); if( v < 0 ) return HarbolLexBadUnicodeChar; rune(o, (uint32_t)v); i += k; }
		else put(o, e);
	}
}
