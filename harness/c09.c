/* C09: byte buffer. All bounded histories over two buffers against a reference byte string. */
#define _GNU_SOURCE
#include "vp.h"
#include <errno.h>
#include <sys/stat.h>
#include "bytebuffer/bytebuffer.h"
char const *const vp_property = "C09";
struct conf { char const *name; int set, pre, dq, dt; };
/* set 0: every operation; 1: a small alphabet, deeper; 2: no merging of histories */
static struct conf const C[] = { {"all-ops", 0, 0, 3, 4}, {"all-ops-prefilled", 0, 1, 2, 3}, {"small-alphabet", 1, 0, 6, 8}, {"deletions", 2, 2, 4, 5} };
enum { NC = sizeof C / sizeof *C, NL = 4 };
int vp_nconfigs(void) { return NC + NL; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) snprintf(o, n, "ladder-%s", (char const*[]){"insertions","buffers","deletions","files"}[c-NC]); else snprintf(o, n, "%s", C[c].name); }
int vp_config_shards(int c) { return c >= NC? 4 : 1; }
static int cfg;
enum { MAXL = 200 };
struct log { size_t n; uint8_t b[MAXL], any[MAXL]; }; /* any: byte value unspecified (padding of floatmax) */
static struct HarbolByteBuf A, B; static struct log MA, MB;
enum { BYTE, I16, I32, I64, PTR, F32, F64, FMAX, CSTR, OBJ, ZEROS, FILEN, FILEH, APPB, APPSELF, CPYB, CPYSELF, DEL, TOFILE, CLEAR, SWAP, SHORTF, NEWFREE };
struct op { uint8_t k, a, b; }; static struct op O[200]; static uint32_t nO;
static char const *kn[] = {"insert_byte","insert_int16","insert_int32","insert_int64","insert_ptr","insert_float32","insert_float64","insert_floatmax","insert_cstr","insert_obj","insert_zeros","insert_from_filename","insert_from_file","append(B)","append(self)","copy(B)","copy(self)","del","to_file","clear","swap A,B","insert_from_file(short)","new/free"};
static char const *WORDS[] = {"", "x", "pqrs"};
static size_t const AMT[] = {0, 1, 3, 8, SIZE_MAX, SIZE_MAX-1, 1111 /* SIZE_MAX-len+1 */, SIZE_MAX/2, 6};
static char const *FN[] = {"b_one", "b_seven", "b_empty", "b_missing", "b_dir"};
static uint8_t const SEVEN[7] = {'a', 0, '\r', '\n', 0xff, 0x80, 'z'};
static size_t ix(int i, size_t n) { size_t const v[] = {0, 1, 2, n/2, n-1, n, n+1, SIZE_MAX, SIZE_MAX-1, ((size_t)1<<32)+1, 65536}; return v[i]; }
static char const *ixn[] = {"0","1","2","len/2","len-1","len","len+1","MAX","MAX-1","2^32+1","2^16"};
static void mkops(void) {
	nO = 0;
#define ADD(...) O[nO++] = (struct op){__VA_ARGS__}
	int s = C[cfg].set;
	if( s==0 ) {
		ADD(BYTE,0x11,0); ADD(BYTE,0,0); for( uint8_t k=I16; k <= FMAX; k++ ) ADD(k,0,0);
		for( uint8_t i=0; i < 3; i++ ) ADD(CSTR,i,0);
		for( uint8_t i=0; i < 9; i++ ) { ADD(OBJ,i,0); ADD(ZEROS,i,0); }
		for( uint8_t i=0; i < 5; i++ ) { ADD(FILEN,i,0); ADD(FILEH,i,0); }
		ADD(APPB,0,0); ADD(APPSELF,0,0); ADD(CPYB,0,0); ADD(CPYSELF,0,0); ADD(TOFILE,0,0); ADD(TOFILE,1,0); ADD(CLEAR,0,0); ADD(SWAP,0,0); ADD(SHORTF,0,0); ADD(SHORTF,1,0); ADD(NEWFREE,0,0);
		for( uint8_t i=0; i < 11; i++ ) for( uint8_t j=0; j < 11; j++ ) ADD(DEL,i,j);
	} else if( s==1 ) {
		ADD(BYTE,0x11,0); ADD(I32,0,0); ADD(CSTR,1,0); ADD(ZEROS,0,0); ADD(ZEROS,1,0); ADD(OBJ,0,0); ADD(FILEN,1,0); ADD(APPB,0,0); ADD(APPSELF,0,0); ADD(CPYB,0,0); ADD(DEL,0,7); ADD(DEL,0,1); ADD(DEL,4,1); ADD(DEL,1,2); ADD(CLEAR,0,0); ADD(SWAP,0,0); ADD(TOFILE,0,0);
	} else {
		for( uint8_t i=0; i < 11; i++ ) for( uint8_t j=0; j < 11; j++ ) ADD(DEL,i,j);
		ADD(BYTE,0x77,0); ADD(I16,0,0);
	}
}
static void opname(uint32_t o, char *b, size_t n) {
	struct op p = O[o];
	switch( p.k ) {
	case DEL: snprintf(b, n, "del(%s,%s)", ixn[p.a], ixn[p.b]); break;
	case CSTR: snprintf(b, n, "insert_cstr(\"%s\")", WORDS[p.a]); break;
	case OBJ: case ZEROS: snprintf(b, n, p.a==6? "%s(SIZE_MAX-len+1)" : "%s(%zu)", kn[p.k], AMT[p.a]); break;
	case FILEN: case FILEH: snprintf(b, n, "%s(%s)", kn[p.k], FN[p.a]); break;
	default: snprintf(b, n, "%s(%d)", kn[p.k], p.a);
	}
}
static void same(struct HarbolByteBuf const *s, struct log const *m, char const *who) {
	CHECK(harbol_bytebuffer_len(s)==m->n, "%s: length is %zu, should be %zu", who, harbol_bytebuffer_len(s), m->n);
	CHECK(harbol_bytebuffer_cap(s) >= m->n, "%s: length %zu exceeds capacity %zu", who, m->n, harbol_bytebuffer_cap(s));
	uint8_t const *t = harbol_bytebuffer_get_buffer(s);
	if( m->n ) CHECK(t != NULL, "%s: bytes vanished", who);
	for( size_t i=0; i < m->n; i++ ) CHECK(m->any[i] || t[i]==m->b[i], "%s: byte %zu is %d, should be %d", who, i, t[i], m->b[i]);
}
static bool add(struct log *m, void const *p, size_t n) { if( m->n + n > MAXL/2 ) return false; memcpy(m->b + m->n, p, n); memset(m->any + m->n, 0, n); m->n += n; return true; }
static void begin(void) {
	A = harbol_bytebuffer_make(); B = harbol_bytebuffer_make(); memset(&MA, 0, sizeof MA); memset(&MB, 0, sizeof MB);
	if( C[cfg].pre ) for( int i=0; i < (C[cfg].pre==1? 4 : 9); i++ ) { uint8_t v = (uint8_t)(0x41+i); add(&MA, &v, 1); CHECK(harbol_bytebuffer_insert_byte(&A, v), "insert failed"); if( i < 3 ) { v += 0x40; add(&MB, &v, 1); CHECK(harbol_bytebuffer_insert_byte(&B, v), "insert failed"); } }
}
static off64_t ck_pos, ck_size = 6;
static ssize_t ck_read(void *c, char *b, size_t n) { int *left = c; if( *left <= 0 ) { errno = EIO; return -1; } if( n > (size_t)*left ) n = (size_t)*left; memset(b, 'S', n); *left -= (int)n; ck_pos += (off64_t)n; return (ssize_t)n; }
static int ck_seek(void *c, off64_t *o, int w) { (void)c; ck_pos = w==SEEK_END? ck_size + *o : w==SEEK_SET? *o : ck_pos + *o; *o = ck_pos; return 0; }
#define INS(v, call) do { if( !add(&N, &(v), sizeof(v)) ) return 0; CHECK(call, "insertion failed"); } while( 0 )
static int apply(uint32_t o, bool check) {
	(void)check; struct op const p = O[o]; struct log N = MA; bool r; size_t const len = MA.n;
	switch( p.k ) {
	case BYTE: { uint8_t v = p.a; INS(v, harbol_bytebuffer_insert_byte(&A, v)); } break;
	case I16: { uint16_t v = 0x2233; INS(v, harbol_bytebuffer_insert_int16(&A, v)); } break;
	case I32: { uint32_t v = 0x80cc0155; INS(v, harbol_bytebuffer_insert_int32(&A, v)); } break;
	case I64: { uint64_t v = 0xfedc000102030405; INS(v, harbol_bytebuffer_insert_int64(&A, v)); } break;
	case PTR: { uintptr_t v = 0xffff800000000001; INS(v, harbol_bytebuffer_insert_ptr(&A, v)); } break;
	case F32: { float32_t v = -0.1f; INS(v, harbol_bytebuffer_insert_float32(&A, v)); } break;
	case F64: { float64_t v = 1e-310; INS(v, harbol_bytebuffer_insert_float64(&A, v)); } break;
	case FMAX: { floatmax_t v = 3.1L; INS(v, harbol_bytebuffer_insert_floatmax(&A, v)); for( int i=10; i < 16; i++ ) N.any[len+(size_t)i] = 1; } break;
	case CSTR: { size_t n = strlen(WORDS[p.a]) + 1; char *e = __real_malloc(n); memcpy(e, WORDS[p.a], n); bool fits = add(&N, e, n); if( fits ) { r = harbol_bytebuffer_insert_cstr(&A, e); CHECK(r, "insert_cstr failed"); } memset(e, 'q', n); __real_free(e); if( !fits ) return 0; } break;
	case OBJ: case ZEROS: {
		size_t n = AMT[p.a]; if( n==1111 ) n = SIZE_MAX - len + 1; bool big = n > 1000; uint8_t v[8] = {1,2,3,4,5,6,7,8}, z[8] = {0};
		if( n==0 && p.a==6 ) return 0;
		if( !big && !add(&N, p.k==OBJ? v : z, n) ) return 0;
		uint8_t *e = __real_malloc(big? 8 : n); memcpy(e, v, big? 8 : n);
		r = p.k==OBJ? harbol_bytebuffer_insert_obj(&A, e, n) : harbol_bytebuffer_insert_zeros(&A, n); __real_free(e);
		CHECK(r==!big, "%s(%zu) at length %zu returned %d", kn[p.k], n, len, r);
	} break;
	case FILEN: case FILEH: {
		bool ok = p.a < 2; if( ok && !add(&N, SEVEN, p.a? 7 : 1) ) return 0;
		if( p.k==FILEN ) r = harbol_bytebuffer_insert_from_filename(&A, FN[p.a]);
		else { FILE *f = fopen(FN[p.a], "r"); if( !f ) return 0; r = harbol_bytebuffer_insert_from_file(&A, f); fclose(f); }
		CHECK(r==ok, "%s(%s) returned %d", kn[p.k], FN[p.a], r);
	} break;
	case SHORTF: { /* a file whose tail cannot be read */
		int left = p.a? 8 : 2; ck_size = p.a? 9 : 6; ck_pos = 0; FILE *f = fopencookie(&left, "r", (cookie_io_functions_t){ck_read, NULL, ck_seek, NULL}); if( !f ) return 0;
		r = harbol_bytebuffer_insert_from_file(&A, f); fclose(f); CHECK(!r, "a file that cannot be read completely was reported as inserted");
	} break;
	case APPB: case APPSELF: {
		struct log X = p.k==APPB? MB : MA; struct HarbolByteBuf *q = p.k==APPB? &B : &A; if( N.n + X.n > MAXL/2 ) return 0;
		memcpy(N.b + N.n, X.b, X.n); memcpy(N.any + N.n, X.any, X.n); N.n += X.n;
		r = harbol_bytebuffer_append(&A, q); CHECK(r || X.n==0, "append failed");
	} break;
	case CPYB: case CPYSELF: {
		struct log X = p.k==CPYB? MB : MA; struct HarbolByteBuf *q = p.k==CPYB? &B : &A;
		r = harbol_bytebuffer_copy(&A, q); CHECK(r || X.n==0, "copy failed"); if( r ) N = X;
	} break;
	case DEL: {
		if( (p.a==4 || p.b==4) && len==0 ) return 0;
		size_t i = ix(p.a, len), g = ix(p.b, len); bool ok = i < len; size_t e = g==0? 1 : g;
		if( ok ) { if( e >= len - i ) N.n = i; else { memmove(N.b+i, N.b+i+e, len-i-e); memmove(N.any+i, N.any+i+e, len-i-e); N.n = len - e; } }
		r = harbol_bytebuffer_del(&A, i, g); CHECK(r==ok, "del(%zu,%zu) at length %zu returned %d", i, g, len, r);
	} break;
	case TOFILE: {
		FILE *f = fopen("b_out", p.a? "r" : "w"); CHECK(f || p.a, "cannot create file"); if( !f ) return 0;
		if( p.a==0 ) setvbuf(f, NULL, _IOFBF, 64);
		r = harbol_bytebuffer_to_file(&A, f); fclose(f);
		if( p.a ) CHECK(!r || len==0, "writing to a file opened for reading succeeded");
		else {
			CHECK(r || A.table==NULL, "to_file failed"); uint8_t x[MAXL+1]; f = fopen("b_out", "r"); CHECK(f, "no file"); size_t g = fread(x, 1, sizeof x, f); fclose(f);
			CHECK(g==len, "the file has %zu bytes, the buffer %zu", g, len); for( size_t i=0; i < len; i++ ) CHECK(MA.any[i] || x[i]==MA.b[i], "byte %zu of the file differs", i);
			struct HarbolByteBuf t = harbol_bytebuffer_make(); r = harbol_bytebuffer_insert_from_filename(&t, "b_out"); CHECK(r==(len > 0), "reading the file back returned %d", r); same(&t, &MA, "read back"); harbol_bytebuffer_clear(&t);
		}
	} break;
	case CLEAR: harbol_bytebuffer_clear(&A); N.n = 0; CHECK(A.cap==0 && A.table==NULL, "clear left something"); break;
	case SWAP: { struct HarbolByteBuf t = A; A = B; B = t; struct log x = MA; N = MB; MB = x; } break;
	case NEWFREE: { struct HarbolByteBuf *h = harbol_bytebuffer_new(); CHECK(h, "new failed"); r = harbol_bytebuffer_copy(h, &A); CHECK(r || len==0, "copy failed"); struct log z = {0}; same(h, r? &MA : &z, "heap copy"); if( len ) { CHECK(h->table != A.table, "copy shares the bytes"); memset(h->table, 0xEE, len); } harbol_bytebuffer_free(&h); CHECK(h==NULL, "free left the pointer"); harbol_bytebuffer_free(&h); } break;
	}
	MA = N; same(&A, &MA, kn[p.k]); same(&B, &MB, "the other buffer");
	return 1;
}
static void put(struct vp_buf *b, struct HarbolByteBuf const *s, struct log const *m) { vp_put64(b, s->table != NULL); vp_put64(b, s->cap); vp_put64(b, m->n); vp_put(b, m->b, m->n); vp_put(b, m->any, m->n); }
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf,0,cap}; put(&b, &A, &MA); put(&b, &B, &MB); return b.n; }
static void end(void) { harbol_bytebuffer_clear(&A); harbol_bytebuffer_clear(&B); struct HarbolByteBuf *z = NULL; harbol_bytebuffer_free(&z); CHECK(!z, "freeing NULL"); }
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) {
	cfg = c; mkops(); sys.nops = nO;
	FILE *f = fopen("b_one", "w"); if( f ) { fwrite(SEVEN, 1, 1, f); fclose(f); }
	f = fopen("b_seven", "w"); if( f ) { fwrite(SEVEN, 1, 7, f); fclose(f); }
	f = fopen("b_empty", "w"); if( f ) fclose(f);
	mkdir("b_dir", 0700);
}

/* ---- ladder: buffers of n bytes, one operation of size m, then further insertions ---- */
static size_t const LS[] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,47,48,49,63,64,65,79,96,100,127,128,129,160,191,192,200,254,255,256,257,258,300,383,384,500,511,512,513,767,768,1000,1023,1024,1025,1535,2047,2048,2049,3000,4095,4096,4097,5000,8191,8192,8193,16384,32767,32768,32769,65534,65535,65536,65537,70000,131073};
enum { NLS = sizeof LS / sizeof *LS, BIGL = 600000 };
static uint8_t *W; static size_t wn; static struct HarbolByteBuf L;
static uint8_t pat(size_t i, uint32_t s) { return (uint8_t)((i * 131u + (i >> 8) * 29u + s * 57u + 3u) >> (s & 1)); }
static void wadd(void const *p, size_t n) { CHECK(wn + n <= BIGL, "internal"); memcpy(W+wn, p, n); wn += n; }
static void lsame(char const *who) {
	CHECK(harbol_bytebuffer_len(&L)==wn, "%s: length is %zu, should be %zu", who, harbol_bytebuffer_len(&L), wn); CHECK(harbol_bytebuffer_cap(&L) >= wn, "%s: length %zu exceeds capacity %zu", who, wn, harbol_bytebuffer_cap(&L));
	uint8_t const *t = harbol_bytebuffer_get_buffer(&L); if( wn==0 ) return; CHECK(t, "%s: bytes vanished", who);
	if( memcmp(t, W, wn) ) for( size_t i=0; i < wn; i++ ) CHECK(t[i]==W[i], "%s: byte %zu of %zu is %d, should be %d", who, i, wn, t[i], W[i]);
}
static void prefix(struct HarbolByteBuf *b, size_t n, uint32_t s, bool one) {
	if( one && n <= 2100 ) { for( size_t i=0; i < n; i++ ) CHECK(harbol_bytebuffer_insert_byte(b, pat(i, s)), "insert_byte %zu failed", i); return; }
	uint8_t *x = __real_malloc(n+1); for( size_t i=0; i < n; i++ ) x[i] = pat(i, s); if( n ) CHECK(harbol_bytebuffer_insert_obj(b, x, n), "insert_obj(%zu) failed", n); __real_free(x);
}
static void mkfile(char const *fn, size_t n, uint32_t s) { FILE *f = fopen(fn, "w"); CHECK(f, "cannot create a file"); for( size_t i=0; i < n; i++ ) fputc(pat(i, s), f); CHECK(fclose(f)==0, "cannot write a file"); }
static char const *lk[] = {"insert_byte","insert_int16","insert_int32","insert_int64","insert_ptr","insert_float32","insert_float64","insert_floatmax","insert_obj","insert_zeros","insert_cstr","append","copy","append self","del","insert_from_filename","insert_from_file","to_file"};
enum { L_BYTE, L_I16, L_I32, L_I64, L_PTR, L_F32, L_F64, L_FMAX, L_OBJ, L_ZEROS, L_CSTR, L_APP, L_CPY, L_APPSELF, L_DEL, L_FN, L_FH, L_TO };
static void ltail(void) { /* the buffer goes on growing */
	uint8_t b = 0x5a; CHECK(harbol_bytebuffer_insert_byte(&L, b), "insert failed"); wadd(&b, 1); uint64_t q = 0x0123456789abcdef; CHECK(harbol_bytebuffer_insert_int64(&L, q), "insert failed"); wadd(&q, 8);
	CHECK(harbol_bytebuffer_insert_cstr(&L, "end"), "insert failed"); wadd("end", 4); lsame("after further insertions");
}
static void lcase(uint32_t k, size_t n, size_t m, size_t r) {
	L = harbol_bytebuffer_make(); wn = 0; prefix(&L, n, 1, r & 1); for( size_t i=0; i < n; i++ ) { uint8_t v = pat(i, 1); W[wn++] = v; (void)v; } lsame("filled");
	switch( k ) {
#define REP(T, e, call) for( size_t i=0; i < m; i++ ) { T v = (T)(e); CHECK(call, "%s %zu failed", lk[k], i); wadd(&v, sizeof v); } break
	case L_BYTE: REP(uint8_t, pat(i,2), harbol_bytebuffer_insert_byte(&L, v));
	case L_I16: REP(uint16_t, 0x1111u*i + 0x80ff, harbol_bytebuffer_insert_int16(&L, v));
	case L_I32: REP(uint32_t, 0x01234567u*(i+1) + 0x80000000u, harbol_bytebuffer_insert_int32(&L, v));
	case L_I64: REP(uint64_t, 0x0123456789abcdefu*(i+1) + 0x8000000000000000u, harbol_bytebuffer_insert_int64(&L, v));
	case L_PTR: REP(uintptr_t, 0xffff000012345678u*(i+1), harbol_bytebuffer_insert_ptr(&L, v));
	case L_F32: REP(float32_t, -1.5f*(float)i + 1e-40f, harbol_bytebuffer_insert_float32(&L, v));
	case L_F64: REP(float64_t, -1e300*(double)i + 5e-324, harbol_bytebuffer_insert_float64(&L, v));
	case L_FMAX: for( size_t i=0; i < m; i++ ) { floatmax_t v = 1.0L/(floatmax_t)(i+1), g; CHECK(harbol_bytebuffer_insert_floatmax(&L, v), "insert_floatmax failed"); memcpy(&g, L.table + wn, sizeof g); CHECK(g==v, "floatmax %zu reads back differently", i); wadd(L.table + wn, sizeof v); } break; /* padding is whatever was stored */
	case L_OBJ: { uint8_t *x = __real_malloc(m+1); for( size_t i=0; i < m; i++ ) x[i] = pat(i, 4); CHECK(harbol_bytebuffer_insert_obj(&L, x, m), "insert_obj(%zu) at length %zu failed", m, n); wadd(x, m); memset(x, 0, m); __real_free(x); } break;
	case L_ZEROS: CHECK(harbol_bytebuffer_insert_zeros(&L, m), "insert_zeros(%zu) at length %zu failed", m, n); memset(W+wn, 0, m); wn += m; break;
	case L_CSTR: { char *x = __real_malloc(m+1); for( size_t i=0; i < m; i++ ) x[i] = (char)(pat(i, 5) | 1); x[m] = 0; CHECK(harbol_bytebuffer_insert_cstr(&L, x), "insert_cstr of %zu failed", m); wadd(x, m+1); __real_free(x); } break;
	case L_APP: case L_CPY: {
		struct HarbolByteBuf b = harbol_bytebuffer_make(); prefix(&b, m, 6, r & 2); if( m==0 ) { harbol_bytebuffer_clear(&b); break; }
		bool q = k==L_APP? harbol_bytebuffer_append(&L, &b) : harbol_bytebuffer_copy(&L, &b); CHECK(q, "%s of %zu onto %zu failed", lk[k], m, n);
		if( k==L_CPY ) wn = 0; for( size_t i=0; i < m; i++ ) { uint8_t v = pat(i, 6); W[wn++] = v; CHECK(b.table[i]==v, "the other buffer changed"); } CHECK(b.len==m, "the other buffer changed");
		memset(b.table, 0xEE, m); lsame(lk[k]); harbol_bytebuffer_clear(&b);
	} break;
	case L_APPSELF: for( size_t i=0; i < m && wn < 150000; i++ ) { bool q = harbol_bytebuffer_append(&L, &L); CHECK(q || wn==0, "append self at %zu failed", wn); memcpy(W+wn, W, wn); wn *= 2; lsame(lk[k]); } break;
	case L_DEL: { size_t e = r? r : 1; bool ok = m < n; bool q = harbol_bytebuffer_del(&L, m, r); CHECK(q==ok, "del(%zu,%zu) at length %zu returned %d", m, r, n, q); if( ok ) { if( e >= n - m ) wn = m; else { memmove(W+m, W+m+e, n-m-e); wn = n-e; } } } break;
	case L_FN: case L_FH: {
		bool q; mkfile("l_in", m, 7);
		if( k==L_FN ) q = harbol_bytebuffer_insert_from_filename(&L, "l_in"); else { FILE *f = fopen("l_in", "r"); CHECK(f, "no file"); fgetc(f); q = harbol_bytebuffer_insert_from_file(&L, f); fclose(f); }
		CHECK(q==(m > 0), "%s of a file of %zu bytes returned %d", lk[k], m, q); for( size_t i=0; i < m; i++ ) W[wn++] = pat(i, 7);
	} break;
	case L_TO: {
		FILE *f = fopen("l_out", "w"); CHECK(f, "no file"); size_t pre = m? fwrite("earlier", 1, 7, f) : 0; bool q = harbol_bytebuffer_to_file(&L, f); fputc('!', f); fclose(f); CHECK(q || n==0, "to_file of %zu bytes failed", n);
		f = fopen("l_out", "r"); CHECK(f, "no file"); uint8_t *x = __real_malloc(n + 64); size_t g = fread(x, 1, n+64, f); fclose(f); CHECK(g==n+pre+1 && x[g-1]=='!', "the file has %zu bytes, should have %zu", g, n+pre+1);
		CHECK((pre==0 || memcmp(x, "earlier", 7)==0) && (n==0 || memcmp(x+pre, W, n)==0), "the file's bytes differ"); __real_free(x);
	} break;
	}
	lsame(lk[k]); if( (r & 4) && k != L_DEL && wn ) { /* emptied, used again over what was there */ memset(L.table, 0xAA, L.cap); CHECK(harbol_bytebuffer_del(&L, 0, wn)==(wn > 0), "del of everything"); wn = 0; size_t const z = n > m? n : m; if( z ) { CHECK(harbol_bytebuffer_insert_zeros(&L, z), "insert_zeros(%zu)", z); memset(W, 0, z); wn = z; } lsame("zeros over old bytes"); }
	ltail(); harbol_bytebuffer_clear(&L); CHECK(L.table==NULL && L.len==0 && L.cap==0, "clear left something");
}
static void lrun(uint32_t k, size_t n, size_t m, size_t r) { uint32_t t[4] = {k, (uint32_t)n, (uint32_t)m, (uint32_t)r}; if( !vp_case(t, 4) ) return; vp_note("%s: %zu bytes, %zu, %zu", lk[k], n, m, r); lcase(k, n, m, r); vp_case_done(); }
static bool mine(void) { static int x; return vp_nshards <= 1 || x++ % vp_nshards==vp_shard; }
static void ladder(int c) {
	W = __real_malloc(BIGL);
	for( size_t a=0; a < NLS; a++ ) { size_t n = LS[a];
		if( c==0 ) { for( uint32_t k=L_BYTE; k <= L_FMAX; k++ ) for( size_t m=1; m <= 40; m += m < 5? 1 : 7 ) if( mine() ) lrun(k, n, m, (n+m) & 1); }
		else if( c==1 ) { for( uint32_t k=L_OBJ; k <= L_APPSELF; k++ ) for( size_t b=0; b < NLS; b++ ) { size_t m = LS[b]; if( k==L_APPSELF && m > 6 ) continue; if( (n > 9000 || m > 9000) && !vp_tier && (a + b) % 5 ) continue; if( mine() ) { lrun(k, n, m, (a+b) & 3); if( k==L_ZEROS || (k==L_OBJ && (a+b) % 3==0) ) lrun(k, n, m, 4 + ((a+b) & 3)); } } }
		else if( c==2 ) {
			if( n <= 20 ) { for( size_t i=0; i <= n+1; i++ ) for( size_t r=0; r <= n+2; r++ ) if( mine() ) lrun(L_DEL, n, i, r); }
			else { size_t const P[] = {0,1,2,7,8,n/3,n/2,n-9,n-8,n-2,n-1,n,n+1}, R[] = {0,1,2,3,4,7,8,9,15,16,17,n/3,n/2,n/2+1,n-9,n-2,n-1,n,n+1}; for( int i=0; i < 13; i++ ) for( int j=0; j < 19; j++ ) if( (n < 9000 || vp_tier || (i+j) % 3==0) && mine() ) lrun(L_DEL, n, P[i], R[j]); }
		} else { for( uint32_t k=L_FN; k <= L_FH; k++ ) { size_t const N[] = {0,1,7,255,256,4096}; for( int i=0; i < 6; i++ ) if( mine() ) lrun(k, N[i], n, (size_t)i); } for( size_t m=0; m < 2; m++ ) if( mine() ) lrun(L_TO, n, m, 0); }
	}
	__real_free(W);
}
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } setup(c); int d = vp_tier? C[c].dt : C[c].dq; vp_bfs(&sys, d, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==4 ) { W = __real_malloc(BIGL); lrun(t[0], t[1], t[2], t[3]); __real_free(W); } return; } setup(c); vp_replay_hist(&sys, t, l); }
