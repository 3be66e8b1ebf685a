/* C31: file operations against files that fail: success is reported exactly when all bytes went through.
 * Every file the code opens is one of ours (a stream over memory); the fault is placed at every point. */
#define _GNU_SOURCE
#include "vp.h"
#include <errno.h>
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
#include "str/str.h"
#include "bytebuffer/bytebuffer.h"
#include "lex/lex.h"
#include "cfg/cfg.h"
#include "msg_span/msg_span.h"
char const *const vp_property = "C31";
enum { READS, CFGREAD, INCLUDES, CFGWRITE, BUFWRITE, HISTORY, NCFG };
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", (char const *[]){"reads","cfg-read","cfg-include","cfg-write","buffer-write","histories"}[c]); }
int vp_config_shards(int c) { (void)c; return 4; }

/* ---- files in memory with one fault ---- */
enum { F_NONE, F_OPEN, F_READ, F_READ_ONCE, F_SEEK, F_CLOSE, F_SHRUNK, F_WRITE, F_WRITE_ONCE, NFAULT };
static char const *const FN[] = {"no fault","open fails","reads fail from byte","one read fails at byte","seek fails, number","close fails","file ends early at byte","writes fail from byte","one write fails at byte"};
static struct file { char const *name; uint8_t *p; size_t n, cap; bool there; } files[3] = {{"m.vp"}, {"i.vp"}, {"o.vp"}};
static int fault, fired, nopen, faulty; static size_t at, chunk, seeks, opened;
struct st { struct file *f; size_t pos; bool append; };
static bool mine(struct st *s) { return s->f==&files[faulty]; }
static ssize_t rd(void *c, char *b, size_t n) {
	struct st *s = c; size_t end = s->f->n; if( mine(s) && fault==F_SHRUNK && at < end ) { end = at; if( s->pos + n > end ) fired = 1; }
	if( mine(s) && (fault==F_READ || (fault==F_READ_ONCE && !fired)) ) { if( s->pos >= at ) { fired = 1; errno = EIO; return -1; } if( n > at - s->pos ) n = at - s->pos; }
	if( n > chunk ) n = chunk; if( s->pos >= end ) return 0; if( n > end - s->pos ) n = end - s->pos; memcpy(b, s->f->p + s->pos, n); s->pos += n; return (ssize_t)n;
}
static ssize_t wr(void *c, char const *b, size_t n) {
	struct st *s = c; struct file *f = s->f; if( s->append ) s->pos = f->n; size_t m = n;
	if( mine(s) && (fault==F_WRITE || (fault==F_WRITE_ONCE && !fired)) && s->pos + n > at ) { fired = 1; m = s->pos < at? at - s->pos : 0; errno = ENOSPC; }
	if( s->pos + m > f->cap ) { f->cap = 2*(s->pos + m); f->p = __real_realloc(f->p, f->cap); } if( s->pos > f->n ) memset(f->p + f->n, 0, s->pos - f->n);
	if( m ) memcpy(f->p + s->pos, b, m); s->pos += m; if( s->pos > f->n ) f->n = s->pos; return (ssize_t)m;
}
static int sk(void *c, off64_t *o, int w) {
	struct st *s = c; if( mine(s) ) { seeks++; if( fault==F_SEEK && seeks==at+1 ) { fired = 1; errno = EIO; return -1; } }
	int64_t p = *o + (w==SEEK_SET? 0 : w==SEEK_CUR? (int64_t)s->pos : (int64_t)s->f->n); if( p < 0 ) { errno = EINVAL; return -1; } s->pos = (size_t)p; *o = p; return 0;
}
static int cl(void *c) { struct st *s = c; bool const bad = mine(s) && fault==F_CLOSE; if( bad ) fired = 1; nopen--; __real_free(s); if( bad ) { errno = EIO; return -1; } return 0; }
FILE *__real_fopen(char const *, char const *); FILE *__wrap_fopen(char const *, char const *);
FILE *__wrap_fopen(char const *name, char const *mode) {
	for( int i=0; i < 3; i++ ) if( !strcmp(files[i].name, name) ) {
		if( i < 2 && (*mode != 'r' || strchr(mode, '+')) ) { errno = EACCES; return NULL; } /* m and i may only be read */
		opened++; if( faulty==i && fault==F_OPEN ) { fired = 1; errno = EACCES; return NULL; } if( *mode=='r' && !files[i].there ) { errno = ENOENT; return NULL; }
		if( *mode=='w' ) files[i].n = 0; files[i].there = true; struct st *s = __real_malloc(sizeof *s); *s = (struct st){&files[i], *mode=='a'? files[i].n : 0, *mode=='a'}; nopen++; FILE *f = fopencookie(s, mode, (cookie_io_functions_t){rd, wr, sk, cl}); CHECK(f, "fopencookie"); return f;
	}
	return __real_fopen(name, mode);
}
static void put(int i, void const *p, size_t n) { if( n + 1 > files[i].cap ) { files[i].cap = n + 1; files[i].p = __real_realloc(files[i].p, n + 1); } memcpy(files[i].p, p, n); files[i].n = n; files[i].there = true; }
static void set(int f, int which, size_t a, size_t ch) { fault = f; faulty = which; at = a; chunk = ch; fired = 0; seeks = 0; opened = 0; }
static void none(void) { set(F_NONE, 0, 0, SIZE_MAX); }
static uint8_t *text(uint32_t n) { uint8_t *p = __real_malloc(n + 1); for( uint32_t i=0; i < n; i++ ) p[i] = (uint8_t)(i % 23==22? '\n' : 'a' + (i*7 + i/256*5) % 26); p[n] = 0; return p; }

/* ---- reading operations: true/false and what was got ---- */
enum { R_STR, R_STRS, R_BUF, R_BUFS, R_MKBIN, R_MKTEXT, R_MKFILE, R_RUNES, R_SPAN, NREAD };
static char const *const RN[] = {"string from name","string from stream","buffer from name","buffer from stream","make_buffer_from_binary","make_buffer_from_text","make_buffer_from_file","runes_from_stream","message span from name"};
static struct HarbolString S; static struct HarbolByteBuf B;
static bool readop(uint32_t op, uint32_t mode, uint8_t const *want, size_t n) { /* returns success; checks what was got. A file that ended early may give its beginning */
	FILE *f = NULL; bool const stream = op==R_STRS || op==R_BUFS || op==R_MKFILE || op==R_RUNES; char vb[64];
	if( stream ) { f = fopen("m.vp", "r"); if( !f ) return false; if( mode==1 ) setvbuf(f, NULL, _IONBF, 0); else if( mode==2 ) setvbuf(f, vb, _IOFBF, 7); else if( mode==3 ) { int const fs = fault; fault = F_NONE; fseek(f, (long)(n/2 + 1), SEEK_SET); fault = fs; seeks = 0; fired = 0; } }
	bool ok = false; size_t got = n; size_t const short_ = at < n? at : n;
	switch( op ) {
	case R_STR: case R_STRS: ok = op==R_STR? harbol_string_read_file(&S, "m.vp") : harbol_string_read_from_file(&S, f); CHECK(!S.cstr || S.cstr[S.len]==0, "string isn't terminated"); CHECK(!S.cstr || !ok || strlen(S.cstr)==S.len, "length %zu of a text of %zu", S.len, strlen(S.cstr)); if( ok ) { got = S.len; CHECK(!memcmp(S.cstr, want, got < n? got : n), "other text"); } break;
	case R_BUF: case R_BUFS: { size_t const l0 = B.len; uint8_t *old = __real_malloc(l0+1); if( l0 ) memcpy(old, B.table, l0); ok = op==R_BUF? harbol_bytebuffer_insert_from_filename(&B, "m.vp") : harbol_bytebuffer_insert_from_file(&B, f); CHECK(B.len <= B.cap, "length beyond the capacity"); CHECK(B.len >= l0 && !memcmp(l0? B.table : old, old, l0), "the bytes held before changed"); if( ok ) { got = B.len - l0; CHECK(!memcmp(B.table + l0, want, got < n? got : n), "other bytes"); } else CHECK(B.len==l0, "refused, but the length went from %zu to %zu", l0, B.len); __real_free(old); break; }
	case R_MKBIN: case R_MKTEXT: case R_MKFILE: { size_t len = 0; uint8_t *p = op==R_MKBIN? make_buffer_from_binary("m.vp", &len) : op==R_MKTEXT? (uint8_t *)make_buffer_from_text("m.vp", &len) : make_buffer_from_file(f, &len); ok = p != NULL; if( ok ) { got = len; CHECK(!memcmp(p, want, got < n? got : n), "other bytes"); free(p); } break; }
	case R_RUNES: { size_t len = 0; int32_t *r = runes_from_stream(f, &len); ok = r != NULL; if( ok ) { got = len; for( size_t i=0; i < got && i < n; i++ ) CHECK(r[i]==want[i], "rune %zu is %d", i, r[i]); free(r); } break; }
	case R_SPAN: { bool res = false; struct HarbolMsgSpan m = harbol_msg_span_make("m.vp", true, false, &res); ok = res; if( ok ) { got = m.src.code.len; CHECK(!memcmp(m.src.code.cstr, want, got < n? got : n), "other source"); harbol_msg_span_clear(&m); } break; }
	}
	if( f ) { CHECK(nopen==1, "the caller's stream was closed"); fclose(f); }
	CHECK(nopen==0, "%d files left open", nopen);
	if( ok ) CHECK(got==n || (fault==F_SHRUNK && got==short_), "%s: success, but %zu of %zu bytes were read", RN[op], got, n);
	return ok;
}
static void reads(uint32_t op, uint32_t mode, uint32_t n, uint32_t f, uint32_t a, uint32_t ch) {
	uint32_t t[6] = {op, mode, n, f, a, ch}; if( !vp_case(t, 6) ) return; vp_note("%s (buffering %u), %u bytes in reads of <= %u; %s %u", RN[op], mode, n, ch, FN[f], a);
	uint8_t *want = text(n); if( f==F_NONE && a && n ) want[a >> 8? n-1 : 0] = (uint8_t)a; /* every byte as the first and the last one */ put(0, want, n); S = (struct HarbolString){0}; B = (struct HarbolByteBuf){0};
	none(); if( mode==2 || ch==3 ) { CHECK(harbol_string_copy_cstr(&S, "what was there"), "copy"); CHECK(harbol_bytebuffer_insert_zeros(&B, 5), "zeros"); }
	set((int)f, 0, a, ch? ch : SIZE_MAX); bool const ok = readop(op, mode, want, n); if( !fired ) CHECK(ok==(n > 0), "%s of %u bytes without a fault: %s", RN[op], n, ok? "success" : "failure");
	int const fd = fired; none(); CHECK(readop(op, mode, want, n)==(n > 0), "%s after a failure doesn't work", RN[op]); if( fd ) vp_outcome(vp_hash(t, sizeof t, 3)); (void)ok;
	harbol_string_clear(&S); harbol_bytebuffer_clear(&B); __real_free(want); vp_case_done();
}
/* ---- configuration files ---- */
static char *doc(uint32_t size) { /* about 'size' bytes of every kind of value */
	char *p = __real_malloc(size + 700); size_t n = 0; n += (size_t)sprintf(p, "'a': 12, 'b': -3.5, 'c': true, 's': { 'x': 'y', 'k': c[1,2,3,4] 'v': v[1,2.5,3,4] 'n': null }, 'last': 'z'\n"); for( uint32_t i=0; n < size; i++ ) n += (size_t)(i % 7==3? sprintf(p+n, "'t%u': { 'u': '%0*d' 'w': %u }\n", i, (int)(i % 90 + 1), 0, i) : sprintf(p+n, "'e%u': %u # %.*s\n", i, i*i, (int)(i % 11), "commentary")); return p;
}
static char *shown(struct HarbolMap *m) { struct HarbolString s = harbol_cfg_to_str(m); char *r = __real_malloc(s.len + 1); memcpy(r, s.cstr? s.cstr : "", s.len + 1); harbol_string_clear(&s); return r; }
static struct HarbolMap *parse(char const *s) { return harbol_cfg_parse_cstr(s); }
static void cfgread(uint32_t size, uint32_t f, uint32_t a, uint32_t ch) {
	uint32_t t[4] = {size, f, a, ch}; if( !vp_case(t, 4) ) return; vp_note("configuration of %u bytes in reads of <= %u; %s %u", size, ch, FN[f], a); char *d = doc(size); size_t n = strlen(d); put(0, d, n);
	struct HarbolMap *m = parse(d); CHECK(m, "parse"); char *want = shown(m), *part = NULL; harbol_cfg_free(&m); if( f==F_SHRUNK && a < n ) { char *h = __real_malloc(a+1); memcpy(h, d, a); h[a] = 0; m = parse(h); if( m ) part = shown(m); harbol_cfg_free(&m); __real_free(h); }
	set((int)f, 0, a, ch? ch : SIZE_MAX); m = harbol_cfg_parse_file("m.vp"); CHECK(nopen==0, "%d files left open", nopen); if( !fired ) CHECK(m, "file without a fault wasn't parsed");
	if( m ) { char *got = shown(m); CHECK(!strcmp(got, want) || (part && !strcmp(got, part)), "success, but the file wasn't read whole: %zu characters of configuration, should be %zu", strlen(got), strlen(want)); __real_free(got); } if( fired ) vp_outcome(vp_hash(t, sizeof t, 5)); harbol_cfg_free(&m);
	none(); m = harbol_cfg_parse_file("m.vp"); CHECK(m, "doesn't work after a failure"); harbol_cfg_free(&m); __real_free(want); __real_free(part); __real_free(d); vp_case_done();
}
/* the included file fails: as if it weren't there */
static void includes(uint32_t size, uint32_t f, uint32_t a, uint32_t ch) {
	uint32_t t[4] = {size, f, a, ch}; if( !vp_case(t, 4) ) return; vp_note("included configuration of %u bytes in reads of <= %u; %s %u", size, ch, FN[f], a); char *d = doc(size); size_t n = strlen(d); put(1, d, n); static char const main_[] = "'p': 1\n'<INCLUDE>' 'i.vp'\n'q': 'after'\n"; put(0, main_, sizeof main_ - 1);
	none(); struct HarbolMap *m = harbol_cfg_parse_file("m.vp"); CHECK(m, "parse"); char *whole = shown(m), *without, *part = NULL; harbol_cfg_free(&m); files[1].there = false; m = harbol_cfg_parse_file("m.vp"); CHECK(m, "a missing included file stopped the parser"); without = shown(m); harbol_cfg_free(&m); files[1].there = true; CHECK(strcmp(whole, without), "included file doesn't count");
	if( f==F_SHRUNK && a < n ) { files[1].n = a? a : 1; if( !a ) files[1].p[0] = '\n'; m = harbol_cfg_parse_file("m.vp"); if( m ) part = shown(m); harbol_cfg_free(&m); files[1].n = n; files[1].p[0] = (uint8_t)d[0]; }
	set((int)f, 1, a, ch? ch : SIZE_MAX); m = harbol_cfg_parse_file("m.vp"); CHECK(nopen==0, "%d files left open", nopen); CHECK(m, "an included file that cannot be read stopped the parser"); char *got = shown(m); harbol_cfg_free(&m);
	CHECK(!strcmp(got, whole) || (fired && !strcmp(got, without)) || (part && !strcmp(got, part)), "the included file was taken although it wasn't read whole: %zu characters, whole %zu, without it %zu", strlen(got), strlen(whole), strlen(without)); __real_free(got); if( fired ) vp_outcome(vp_hash(t, sizeof t, 6));
	none(); m = harbol_cfg_parse_file("m.vp"); CHECK(m, "doesn't work after a failure"); got = shown(m); CHECK(!strcmp(got, whole), "differs after a failure"); __real_free(got); harbol_cfg_free(&m); __real_free(whole); __real_free(without); __real_free(part); __real_free(d); vp_case_done();
}
static struct HarbolMap *big[4]; static uint8_t *bigtext[4]; static size_t bign[4]; static uint32_t const BIG[] = {10, 3000, 5000, 13000};
static void prepare(uint32_t k) { if( big[k] ) return; char *d = doc(BIG[k]); long l = vp_live; big[k] = parse(d); CHECK(big[k], "parse"); vp_live = l; none(); files[2].there = false; files[2].n = 0; CHECK(harbol_cfg_build_file(big[k], "o.vp", true), "written without a fault"); bign[k] = files[2].n; bigtext[k] = __real_malloc(bign[k]); memcpy(bigtext[k], files[2].p, bign[k]); __real_free(d); }
static void cfgwrite(uint32_t k, uint32_t over, uint32_t f, uint32_t a) {
	uint32_t t[4] = {k, over, f, a}; prepare(k); if( !vp_case(t, 4) ) return; vp_note("configuration of %u bytes written (%s); %s %u", BIG[k], over? "overwriting" : "appending", FN[f], a);
	static char const old[] = "'old': 1\n"; put(2, old, sizeof old - 1); size_t const l0 = over? 0 : sizeof old - 1; set((int)f, 2, a, SIZE_MAX); bool const ok = harbol_cfg_build_file(big[k], "o.vp", over != 0); CHECK(nopen==0, "%d files left open", nopen);
	if( !fired ) CHECK(ok, "written without a fault, but failure"); if( ok ) CHECK(!(fired && f==F_CLOSE) && files[2].n==l0 + bign[k] && !memcmp(files[2].p + l0, bigtext[k], bign[k]) && !memcmp(files[2].p, old, l0), "success, but %zu of %zu bytes are in the file", files[2].n, l0 + bign[k]);
	if( f==F_OPEN ) CHECK(!ok && files[2].n==sizeof old - 1, "file that cannot be opened"); if( fired ) vp_outcome(vp_hash(t, sizeof t, 7));
	put(2, old, sizeof old - 1); none(); CHECK(harbol_cfg_build_file(big[k], "o.vp", over != 0) && files[2].n==l0 + bign[k], "doesn't work after a failure"); vp_case_done();
}
static void bufwrite(uint32_t n, uint32_t mode, uint32_t f, uint32_t a) {
	uint32_t t[4] = {n, mode, f, a}; if( !vp_case(t, 4) ) return; vp_note("buffer of %u bytes, buffering %u; %s %u", n, mode, FN[f], a); B = (struct HarbolByteBuf){0}; uint8_t *x = text(n); if( n ) { CHECK(harbol_bytebuffer_insert_zeros(&B, n) && B.len==n, "insert"); memcpy(B.table, x, n); }
	set((int)f, 2, a, SIZE_MAX); files[2].n = 0; FILE *o = fopen("o.vp", "w"); if( o ) { char vb[64]; if( mode==1 ) setvbuf(o, NULL, _IONBF, 0); else if( mode==2 ) setvbuf(o, vb, _IOFBF, 7);
		bool ok = harbol_bytebuffer_to_file(&B, o); if( mode==1 && n ) CHECK(ok==(files[2].n==n && !memcmp(files[2].p, x, n) && !(fired && f != F_CLOSE)), "%s, but %zu of %u bytes are in the file", ok? "success" : "failure", files[2].n, n); CHECK(nopen==1, "the caller's stream was closed"); bool const cok = fclose(o)==0;
		if( !fired ) CHECK(ok==(n > 0) && cok, "without a fault: %d %d", ok, cok); if( ok && cok ) CHECK(files[2].n==n && !memcmp(files[2].p, x, n), "success, but %zu of %u bytes are in the file", files[2].n, n); if( fired ) vp_outcome(vp_hash(t, sizeof t, 9)); }
	CHECK(B.len==n && (!n || !memcmp(B.table, x, n)), "writing changed the buffer"); harbol_bytebuffer_clear(&B); __real_free(x); vp_case_done();
}
/* ---- histories of operations, each with its own fault ---- */
static struct { int f; uint32_t a; } const HF[] = {{F_NONE,0},{F_OPEN,0},{F_READ,0},{F_READ,17},{F_READ_ONCE,5},{F_SEEK,0},{F_SEEK,1}}; enum { NHF = 7, NHO = 4 };
static void history(uint32_t const *w, int len) {
	none(); uint8_t *want = text(50); put(0, want, 50); S = (struct HarbolString){0}; B = (struct HarbolByteBuf){0}; size_t held = 0; bool last = false; char *hold = __real_malloc(4096);
	for( int i=0; i < len; i++ ) { uint32_t const op = (uint32_t[]){R_STR, R_STRS, R_BUF, R_BUFS}[w[i]/NHF], h = w[i]%NHF; set(HF[h].f, 0, HF[h].a, 16); bool const ok = readop(op, 0, want, 50); if( !fired ) CHECK(ok, "%s without a fault fails", RN[op]); if( op >= R_BUF ) { if( ok ) { memcpy(hold + held, want, 50); held += 50; } CHECK(B.len==held && (!held || !memcmp(B.table, hold, held)), "buffer holds %zu bytes, should be %zu", B.len, held); } else last = ok; if( last ) CHECK(S.len==50 && !memcmp(S.cstr, want, 51), "the text read is lost"); }
	harbol_string_clear(&S); harbol_bytebuffer_clear(&B); __real_free(want); __real_free(hold);
}
static uint32_t const SIZES[] = {0, 1, 2, 15, 16, 17, 40, 100, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 65536, 65537}; enum { NS = sizeof SIZES / 4 };
static bool spot(uint32_t n, uint32_t a) { if( n <= 120 || a < 3 || a + 3 > n || (vp_tier && a % 37==5) ) return true; uint32_t const r = a % 4096; return r <= 1 || r==4095 || a==n/2; }
void vp_explore(int c) {
	uint32_t k = 0;
	switch( c ) {
	case READS: for( uint32_t op=0; op < NREAD; op++ ) for( uint32_t mode=0; mode < 4; mode++ ) { if( mode && op != R_STRS && op != R_BUFS && op != R_MKFILE && op != R_RUNES ) continue; for( uint32_t i=0; i < NS; i++ ) for( uint32_t f=0; f < F_WRITE; f++ ) { uint32_t const n = SIZES[i]; uint32_t const top = f==F_READ || f==F_READ_ONCE || f==F_SHRUNK? n : f==F_SEEK? 5 : 0; for( uint32_t a=0; a <= top; a++ ) if( f==F_SEEK || spot(n, a) ) for( int ch=0; ch < 4; ch++ ) { if( (ch==1 && n > 5000) || (ch==2 && n > 20000) ) continue; if( k++ % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; reads(op, mode, n, f, a, (uint32_t[]){0, 1, 3, 4096}[ch]); } }
		for( uint32_t n=1; n < 5; n++ ) for( uint32_t b=1; b < 512; b++ ) { if( b==256 && !(op==R_BUF || op==R_BUFS || op==R_MKBIN || op==R_MKFILE) ) continue; if( (op==R_RUNES && (b & 255) > 127) || (op==R_SPAN && ((b & 255)==13 || (b & 255)==9)) ) continue; if( k++ % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; reads(op, mode, n, F_NONE, b, 0); } } break;
	case CFGREAD: case INCLUDES: for( int z=0; z < (c==CFGREAD? 4 : 3); z++ ) { uint32_t const n = (uint32_t[]){10, 300, 4200, 9000}[z], len = n < 120? 120 : n + 100; for( uint32_t f=0; f < F_WRITE; f++ ) { uint32_t const top = f==F_READ || f==F_READ_ONCE || f==F_SHRUNK? len : f==F_SEEK? 5 : 0; for( uint32_t a=0; a <= top; a++ ) if( f==F_SEEK || n < 400 || a % (vp_tier? 3 : 29)==0 || spot(len, a) ) for( int ch=0; ch < 2; ch++ ) { if( k++ % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; (c==CFGREAD? cfgread : includes)(n, f, a, (uint32_t[]){0, 3}[ch]); } } } break;
	case CFGWRITE: for( uint32_t z=0; z < 4; z++ ) { prepare(z); for( uint32_t over=0; over < 2; over++ ) for( uint32_t f=0; f < NFAULT; f++ ) { if( f==F_READ || f==F_READ_ONCE || f==F_SHRUNK ) continue; uint32_t const top = f >= F_WRITE? (uint32_t)bign[z] + 12 : f==F_SEEK? 5 : 0; for( uint32_t a=0; a <= top; a++ ) if( f==F_SEEK || z < 2 || a % (vp_tier? 1 : 7)==0 || a % 4096 < 3 || a % 4096 > 4093 || a + 14 > top ) { if( k++ % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; cfgwrite(z, over, f, a); } } } break;
	case BUFWRITE: for( int i=0; i < (int)NS; i++ ) for( uint32_t mode=0; mode < 3; mode++ ) for( uint32_t f=0; f < NFAULT; f++ ) { if( f==F_READ || f==F_READ_ONCE || f==F_SHRUNK ) continue; uint32_t const n = SIZES[i], top = f >= F_WRITE? n : f==F_SEEK? 2 : 0; for( uint32_t a=0; a <= top; a++ ) if( f==F_SEEK || (spot(n, a) && (n < 20000 || mode != 2 || a % 3==0)) ) { if( k++ % (uint32_t)vp_nshards != (uint32_t)vp_shard ) continue; bufwrite(n, mode, f, a); } } break;
	case HISTORY: vp_words(NHF*NHO, vp_tier? 4 : 3, history); break;
	}
}
void vp_replay(int c, uint32_t const *t, size_t n) {
	switch( c ) { case READS: reads(t[0], t[1], t[2], t[3], t[4], t[5]); break; case CFGREAD: cfgread(t[0], t[1], t[2], t[3]); break; case INCLUDES: includes(t[0], t[1], t[2], t[3]); break; case CFGWRITE: cfgwrite(t[0], t[1], t[2], t[3]); break; case BUFWRITE: bufwrite(t[0], t[1], t[2], t[3]); break; case HISTORY: if( vp_case(t, n) ) { history(t, (int)n); vp_case_done(); } break; }
}
