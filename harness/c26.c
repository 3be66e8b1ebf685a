/* C26: intrusive links (all reachable lists over a few nodes) and buffer shifting / joint (re)allocation (every argument in range). */
#include "vp.h"
#include "harbol_common_defines.h"
#include "harbol_common_includes.h"
char const *const vp_property = "C26";
enum { LINK, LINK_NOTAIL, BILINK, BILINK_NOTAIL, SHIFT, MSHIFT, RECALLOC, MULTI, WIDE, MANY, TRI, NCFG };
static int cfg;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"single links, head and tail", "single links, head only", "double links, head and tail", "double links, head only", "shift one buffer", "shift parallel buffers", "reallocate one buffer", "allocate and reallocate buffers together", "wide elements and long buffers", "many buffers", "every link of double and triple links set"})[c]); }
int vp_config_shards(int c) { return c==SHIFT || c==MSHIFT || c==RECALLOC || c==MULTI || c==MANY || c==TRI? 4 : c==WIDE? 8 : 1; }

/* ---------- lists ---------- */
enum { MAXN = 7 };
struct item { union { struct HarbolLink s; struct HarbolBiLink d; } l; int id; };
static struct item *node[MAXN]; static void *head, *tail; static int ord[MAXN], n, N;
static bool bi(void) { return cfg==BILINK || cfg==BILINK_NOTAIL; }
static bool tailed(void) { return cfg==LINK || cfg==BILINK; }
static int where(int id) { for( int i=0; i < n; i++ ) if( ord[i]==id ) return i; return -1; }
static void begin(void) { N = vp_tier? 6 : 5; if( bi() ) N = vp_tier? 6 : 5; n = 0; head = tail = NULL; for( int i=0; i < N; i++ ) { node[i] = __real_malloc(sizeof *node[i]); memset(node[i], 0xEE, sizeof *node[i]); node[i]->id = i; } }
static void end(void) { for( int i=0; i < N; i++ ) { __real_free(node[i]); node[i] = NULL; } }
enum { HEAD, TAIL = HEAD+MAXN, AFTER = TAIL+MAXN, REMOVE = AFTER+MAXN*MAXN, NOPS = REMOVE+MAXN };
static void opname(uint32_t o, char *b, size_t s) {
	if( o < TAIL ) snprintf(b, s, "add_to_head(%u)", o-HEAD); else if( o < AFTER ) snprintf(b, s, "add_to_tail(%u)", o-TAIL); else if( o < REMOVE ) snprintf(b, s, "add_after(%u, %u)", (o-AFTER)/MAXN, (o-AFTER)%MAXN); else snprintf(b, s, "remove(%u)", o-REMOVE);
}
static void put(int at, int id) { memmove(&ord[at+1], &ord[at], (size_t)(n-at) * sizeof *ord); ord[at] = id; n++; }
static void verify(void) {
	void *p = head;
	for( int i=0; i < n; i++ ) { CHECK(p==node[ord[i]], "walking forward, place %d is not node %d", i, ord[i]); CHECK(((struct item*)p)->id==ord[i], "node %d lost its data", ord[i]); CHECK(*harbol_link_get_a_ref(p)==harbol_link_get_a(p), "reference of a"); p = harbol_link_get_a(p); }
	CHECK(p==NULL, "walking forward does not end after %d nodes", n);
	if( tailed() ) CHECK(tail==(n? (void*)node[ord[n-1]] : NULL), "tail is not the last node");
	if( n==0 ) CHECK(head==NULL, "head of an empty list");
	if( bi() ) { p = n? (void*)node[ord[n-1]] : NULL; for( int i=n; i-- > 0; ) { CHECK(p==node[ord[i]], "walking backward, place %d is not node %d", i, ord[i]); CHECK(*harbol_bilink_get_b_ref(p)==harbol_bilink_get_b(p), "reference of b"); p = harbol_bilink_get_b(p); } CHECK(p==NULL, "walking backward does not end"); }
}
static int apply(uint32_t o, bool check) {
	(void)check;
	if( o < TAIL ) { int i = (int)(o-HEAD); if( i >= N || where(i) >= 0 ) return 0; void *t = tailed()? &tail : NULL; if( bi() ) harbol_bilink_add_to_head(&head, node[i], t); else harbol_link_add_to_head(&head, node[i], t); put(0, i); }
	else if( o < AFTER ) { int i = (int)(o-TAIL); if( i >= N || where(i) >= 0 || !tailed() ) return 0; if( bi() ) harbol_bilink_add_to_tail(&head, node[i], &tail); else harbol_link_add_to_tail(&head, node[i], &tail); put(n, i); }
	else if( o < REMOVE ) { int i = (int)(o-AFTER)/MAXN, j = (int)(o-AFTER)%MAXN, w; if( i >= N || j >= N || (w = where(i)) < 0 || where(j) >= 0 ) return 0;
		if( bi() ) harbol_bilink_add_after(node[i], node[j]); else harbol_link_add_after(node[i], node[j]); if( tailed() && w==n-1 ) tail = node[j]; /* the caller's tail is the caller's */ put(w+1, j); }
	else { int i = (int)(o-REMOVE), w; if( i >= N || (w = where(i)) < 0 ) return 0;
		if( bi() ) { void *t = n? node[ord[n-1]] : NULL; harbol_bilink_remove(&head, node[i], tailed()? &tail : &t); if( !tailed() ) CHECK(t==(n > 1? (void*)node[w==n-1? ord[n-2] : ord[n-1]] : NULL), "tail after removal"); }
		else { if( w ) harbol_link_set_a(node[ord[w-1]], harbol_link_get_a(node[i])); else head = harbol_link_get_a(node[i]); if( tailed() && w==n-1 ) tail = w? node[ord[w-1]] : NULL; }
		memmove(&ord[w], &ord[w+1], (size_t)(n-w-1) * sizeof *ord); n--; memset(&node[i]->l, 0xEE, sizeof node[i]->l); }
	verify(); return 1;
}
static uint64_t ref(void *p) { if( !p ) return 99; for( int i=0; i < N; i++ ) if( p==node[i] ) return (uint64_t)i; return 98; }
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf, 0, cap}; vp_put64(&b, ref(head)); vp_put64(&b, ref(tail)); for( int i=0; i < n; i++ ) vp_put64(&b, (uint64_t)ord[i] + 1);
	for( int i=0; i < N; i++ ) { vp_put64(&b, ref(node[i]->l.s.a)); if( bi() ) vp_put64(&b, ref(node[i]->l.d.b)); } return b.n;
}
static struct vp_sys sys = {NOPS, begin, apply, canon, end, opname};

/* ---------- shifting ---------- */
static size_t const DS[] = {1, 2, 3, 8, 24};
static uint64_t ncases;
static size_t amount(int a, size_t len, size_t at) { switch( a ) { case 30: return SIZE_MAX; case 31: return SIZE_MAX-1; case 32: return SIZE_MAX/2; case 33: return SIZE_MAX-len; case 34: return SIZE_MAX-at; case 35: return SIZE_MAX-at+1; default: return (size_t)a; } }
static size_t position(int i) { return i==30? SIZE_MAX : i==31? SIZE_MAX/2+1 : (size_t)i; }
static uint8_t *mkbuf(size_t len, size_t slack, size_t ds, int seed) { uint8_t *b = __real_malloc((len+slack) * ds + (len+slack==0)); for( size_t i=0; i < (len+slack) * ds; i++ ) b[i] = (uint8_t)(i*7 + (size_t)seed*31 + 1) | 1; return b; }
static void expect(uint8_t const *b, size_t len, size_t slack, size_t ds, int seed, size_t at, size_t amt, char const *what) {
	uint8_t *o = mkbuf(len, slack, ds, seed); size_t left = len;
	if( at < len ) { size_t k = amt? amt : 1; if( k > len-at ) k = len-at; memmove(o + at*ds, o + (at+k)*ds, (len-at-k)*ds); memset(o + (len-k)*ds, 0, k*ds); left = len-k; }
	(void)left; for( size_t i=0; i < (len+slack)*ds; i++ ) CHECK(b[i]==o[i], "%s: length %zu, element size %zu, index %zd, amount %zd: byte %zu is %u, should be %u", what, len, ds, (ssize_t)at, (ssize_t)amt, i, b[i], o[i]);
	__real_free(o);
}
static size_t newlen(size_t len, size_t at, size_t amt) { if( at >= len ) return len; size_t k = amt? amt : 1; return k > len-at? at : len-k; }
static void shift(int len, int i, int a, int d) {
	size_t L = (size_t)len, l = L, at = position(i), amt = amount(a, L, at), ds = DS[d], slack = (size_t)(a & 1);
	uint8_t *b = mkbuf(L, slack, ds, 0); bool r = array_shift_up(b, &l, at, ds, amt);
	CHECK(r==(at < L), "array_shift_up(length %d, index %zd, amount %zd) returned %d", len, (ssize_t)at, (ssize_t)amt, r); CHECK(l==newlen(L, at, amt), "array_shift_up(length %d, index %zd, amount %zd) left a length of %zu", len, (ssize_t)at, (ssize_t)amt, l);
	expect(b, L, slack, ds, 0, at, amt, "array_shift_up"); __real_free(b);
}
static void mshift(int len, int i, int a, int k) {
	size_t L = (size_t)len, l = L, at = position(i), amt = amount(a, L, at); uint8_t *b[5]; for( int j=0; j < 5; j++ ) b[j] = mkbuf(L, (size_t)(j & 1), DS[j], j);
	bool r = multi_array_shift_up(&l, at, amt, (size_t)k, b[0], DS[0], b[1], DS[1], b[2], DS[2], b[3], DS[3], b[4], DS[4]);
	CHECK(r==(at < L), "multi_array_shift_up(length %d, index %zd, amount %zd) returned %d", len, (ssize_t)at, (ssize_t)amt, r); CHECK(l==newlen(L, at, amt), "multi_array_shift_up(length %d, index %zd, amount %zd) left a length of %zu", len, (ssize_t)at, (ssize_t)amt, l);
	for( int j=0; j < 5; j++ ) { expect(b[j], L, (size_t)(j & 1), DS[j], j, j < k? at : SIZE_MAX, amt, "multi_array_shift_up"); __real_free(b[j]); }
}
/* ---------- allocation ---------- */
static size_t huge(int i) { return ((size_t[]){SIZE_MAX, SIZE_MAX/2, SIZE_MAX/8, SIZE_MAX/8+1, SIZE_MAX/2+1, (size_t)1 << 61, ((size_t)1 << 61)+1, ((size_t)1 << 63)+2})[i]; }
static void recallocs(int olds, int news, int ds, int mode) { /* mode 0: from NULL, 1: grow/shrink, 2: allocation fails */
	size_t o = (size_t)olds, w = news >= 100? huge(news-100) : (size_t)news, d = (size_t)ds; uint8_t *b = NULL;
	if( mode ) { b = calloc(o? o : 1, d); for( size_t i=0; i < o*d; i++ ) b[i] = (uint8_t)(i*5+3) | 1; }
	if( mode==2 ) vp_arm(1, 0); uint8_t *r = harbol_recalloc(b, w, d, mode? o : 0); vp_disarm();
	bool fits = mode != 2 && (news < 100);
	CHECK((r != NULL)==fits, "harbol_recalloc(%zu elements of %zu) returned %s", w, d, r? "a buffer" : "NULL");
	if( !r ) { if( b ) for( size_t i=0; i < o*d; i++ ) CHECK(b[i]==((uint8_t)(i*5+3) | 1), "a failed harbol_recalloc changed byte %zu", i); free(b); return; }
	size_t keep = mode? (o < w? o : w) : 0; for( size_t i=0; i < w*d; i++ ) CHECK(r[i]==(i < keep*d? ((uint8_t)(i*5+3) | 1) : 0), "harbol_recalloc(%zu -> %zu of %zu): byte %zu is %u", o, w, d, i, r[i]);
	free(r);
}
static void multi(int olds, int news, int k, int mode) { /* mode 0: calloc; 1: recalloc; bit mask of NULL buffers in mode>>4; (mode&15)-2: failing allocation */
	void *b[4] = {0}; size_t ds[4] = {1, 8, 3, 40}, o = (size_t)olds, w = news >= 100? huge(news-100) : (size_t)news; int fail = (mode & 15) - 1, nulls = mode >> 4; bool re = olds >= 0;
	if( !re ) { for( int j=0; j < 4; j++ ) b[j] = (void*)16; vp_arm((uint64_t)fail, 0); bool r = harbol_multi_calloc(w, (size_t)k, &b[0], ds[0], &b[1], ds[1], &b[2], ds[2], &b[3], ds[3]); int failed = vp_failed_allocs; vp_disarm();
		bool fits = news < 100 && !failed; CHECK(r==fits, "harbol_multi_calloc(%zu) returned %d", w, r);
		for( int j=0; j < 4; j++ ) { if( j >= k ) { CHECK(b[j]==(void*)16, "a buffer not passed was set"); b[j] = NULL; } else if( !r ) CHECK(b[j]==NULL, "a buffer survived a failed harbol_multi_calloc"); else for( size_t i=0; i < w*ds[j]; i++ ) CHECK(((uint8_t*)b[j])[i]==0, "not zeroed"); }
	} else {
		uint8_t fillv = 1; void *was[4];
		for( int j=0; j < 4; j++ ) { if( j >= k || (nulls & (1 << j)) ) continue; b[j] = calloc(o? o : 1, ds[j]); for( size_t i=0; i < o*ds[j]; i++ ) ((uint8_t*)b[j])[i] = (uint8_t)(i*3 + (size_t)j*50 + fillv) | 1; }
		memcpy(was, b, sizeof b); vp_arm((uint64_t)fail, 0); bool r = harbol_multi_recalloc(w, o, (size_t)k, &b[0], ds[0], &b[1], ds[1], &b[2], ds[2], &b[3], ds[3]); int failed = vp_failed_allocs; vp_disarm();
		bool fits = news < 100 && !failed; CHECK(r==fits, "harbol_multi_recalloc(%zu -> %zu) returned %d", o, w, r);
		for( int j=0; j < k; j++ ) { size_t have = r? w : o, keep = o < have? o : have; if( !r ) CHECK((b[j]==NULL)==(was[j]==NULL), "a failed harbol_multi_recalloc changed which buffers exist"); if( b[j]==NULL ) continue;
			for( size_t i=0; i < have*ds[j]; i++ ) CHECK(((uint8_t*)b[j])[i]==((was[j] && i < keep*ds[j])? ((uint8_t)(i*3 + (size_t)j*50 + fillv) | 1) : 0), "harbol_multi_recalloc(%zu -> %zu)%s: buffer %d byte %zu", o, w, r? "" : " failed", j, i); }
	}
	harbol_multi_cleanup(4, &b[0], &b[1], &b[2], &b[3]); for( int j=0; j < 4; j++ ) CHECK(b[j]==NULL, "harbol_multi_cleanup left a pointer"); harbol_multi_cleanup(4, &b[0], &b[1], &b[2], &b[3]); harbol_cleanup(&b[0]);
}
/* wide elements, long buffers: the place and the amount by class */
static size_t const WD[] = {1, 3, 8, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 1 << 20}; enum { NWD = sizeof WD / sizeof *WD };
static size_t const WL[] = {1, 2, 3, 5, 17, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70000, 131072, 262145, (1 << 20) + 1, (1 << 24) + 3}; enum { NWL = sizeof WL / sizeof *WL };
static size_t cls(int c, size_t l) { switch( c ) { case 0: return 0; case 1: return 1; case 2: return l/2; case 3: return l-1; case 4: return l; case 5: return l/3; default: return l > 2? l-2 : 0; } }
static uint8_t pat(size_t i, size_t seed) { return (uint8_t)(i*7 + i/256*13 + i/65536*29 + seed*31) | 1; }
static void wide(int d, int li, int at_, int amt_) {
	size_t ds = WD[d], L = WL[li], at = cls(at_, L), amt = cls(amt_, L); if( ds*L > (vp_tier? (size_t)1 << 26 : L > 1 << 24 && ds==1? (size_t)18 << 20 : (size_t)1200000) ) return; size_t left = newlen(L, at, amt), gone = L-left;
	for( int m=0; m < 2; m++ ) { uint8_t *b = __real_malloc(ds*L), *c = m? __real_malloc(ds*L) : NULL; for( size_t i=0; i < ds*L; i++ ) { b[i] = pat(i, 1); if( m ) c[i] = pat(i, 2); } size_t l = L; bool r = m? multi_array_shift_up(&l, at, amt, 2, b, ds, c, ds) : array_shift_up(b, &l, at, ds, amt); CHECK(r==(at < L) && l==left, "shifting %zu elements of %zu at %zu by %zu left %zu", L, ds, at, amt, l);
		for( size_t i=0; i < ds*L; i++ ) { size_t from = at >= L || i < at*ds? i : i+gone*ds; bool z = from >= ds*L; CHECK(b[i]==(z? 0 : pat(from, 1)) && (!m || c[i]==(z? 0 : pat(from, 2))), "shifting %zu elements of %zu at %zu by %zu: byte %zu", L, ds, at, amt, i); } __real_free(b); __real_free(c); }
}
static void wideresize(int d, int lo, int ln) {
	size_t ds = WD[d], o = WL[lo], w = WL[ln]; if( ds*(o > w? o : w) > (vp_tier? (size_t)1 << 27 : (o < 4 || w < 4) && (d==0 || d==NWD-1)? (size_t)20 << 20 : (size_t)600000) ) return; size_t keep = (o < w? o : w)*ds;
	uint8_t *b = calloc(o, ds), *c[2]; for( size_t i=0; i < o*ds; i++ ) b[i] = pat(i, 3); uint8_t *r = harbol_recalloc(b, w, ds, o); CHECK(r, "harbol_recalloc failed"); for( size_t i=0; i < w*ds; i++ ) CHECK(r[i]==(i < keep? pat(i, 3) : 0), "harbol_recalloc(%zu -> %zu of %zu): byte %zu is %u", o, w, ds, i, r[i]); free(r);
	CHECK(harbol_multi_calloc(o, 2, &c[0], ds, &c[1], (size_t)1), "harbol_multi_calloc failed"); for( size_t i=0; i < o*ds; i++ ) CHECK(c[0][i]==0, "not zeroed"); for( size_t i=0; i < o*ds; i++ ) c[0][i] = pat(i, 4); for( size_t i=0; i < o; i++ ) { CHECK(c[1][i]==0, "not zeroed"); c[1][i] = pat(i, 5); }
	CHECK(harbol_multi_recalloc(w, o, 2, &c[0], ds, &c[1], (size_t)1), "harbol_multi_recalloc failed"); for( size_t i=0; i < w*ds; i++ ) CHECK(c[0][i]==(i < keep? pat(i, 4) : 0), "harbol_multi_recalloc(%zu -> %zu of %zu): byte %zu is %u", o, w, ds, i, c[0][i]); for( size_t i=0; i < w; i++ ) CHECK(c[1][i]==(i < o? pat(i, 5) : 0), "harbol_multi_recalloc(%zu -> %zu): second buffer, byte %zu", o, w, i);
	harbol_multi_cleanup(2, &c[0], &c[1]); CHECK(!c[0] && !c[1], "harbol_multi_cleanup left a pointer");
}
/* k of forty buffers, the list of the cleanup ends at 'stop' */
#define A10(f) f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9)
#define B10(f) f(10), f(11), f(12), f(13), f(14), f(15), f(16), f(17), f(18), f(19)
#define C10(f) f(20), f(21), f(22), f(23), f(24), f(25), f(26), f(27), f(28), f(29)
#define D10(f) f(30), f(31), f(32), f(33), f(34), f(35), f(36), f(37), f(38), f(39)
#define ALL40(f) A10(f), B10(f), C10(f), D10(f)
static void many(int k, int fail, int mode) { /* mode 0 calloc, 1 recalloc, 2 shift, 3 cleanup with an end */
	void *b[40], *was[40]; size_t const len = 6;
	#define PS(i) &b[i], (size_t)((i)%7+1)
	#define BS(i) b[i], (size_t)((i)%7+1)
	#define PP(i) (mode==3 && (i)==fail? NULL : (void *)&b[i])
	for( int i=0; i < 40; i++ ) { b[i] = mode? calloc(len, (size_t)(i%7+1)) : (void *)16; was[i] = b[i]; if( mode ) for( size_t j=0; j < len*(size_t)(i%7+1); j++ ) ((uint8_t *)b[i])[j] = pat(j, (size_t)i); }
	if( mode < 2 ) {
		if( fail ) vp_arm((uint64_t)fail, 0); bool r = mode? harbol_multi_recalloc(9, len, (size_t)k, ALL40(PS)) : harbol_multi_calloc(len, (size_t)k, ALL40(PS)); int failed = fail? vp_failed_allocs : 0; vp_disarm(); CHECK(r==!failed, "%d buffers: %s returned %d", k, mode? "harbol_multi_recalloc" : "harbol_multi_calloc", r);
		for( int i=0; i < 40; i++ ) { size_t ds = (size_t)(i%7+1); if( i >= k ) { CHECK(b[i]==was[i], "a buffer not passed was changed"); if( !mode ) b[i] = NULL; continue; } if( !mode && !r ) { CHECK(b[i]==NULL, "buffer %d of %d survived", i, k); continue; } size_t have = mode && r? 9 : len; for( size_t j=0; j < have*ds; j++ ) CHECK(((uint8_t *)b[i])[j]==(mode && j < len*ds? pat(j, (size_t)i) : 0), "buffer %d of %d, byte %zu", i, k, j); }
	} else if( mode==2 ) { size_t l = len, at = (size_t)(fail%7), amt = (size_t)(fail/7); bool r = multi_array_shift_up(&l, at, amt, (size_t)k, ALL40(BS)); CHECK(r==(at < len) && l==newlen(len, at, amt), "shifting %d buffers", k); size_t gone = len-l;
		for( int i=0; i < 40; i++ ) { size_t ds = (size_t)(i%7+1); for( size_t j=0; j < len*ds; j++ ) { size_t from = i >= k || j < at*ds? j : j+gone*ds; CHECK(((uint8_t *)b[i])[j]==(from >= len*ds? 0 : pat(from, (size_t)i)), "shifting %d buffers at %zu by %zu: buffer %d, byte %zu", k, at, amt, i, j); } } }
	if( mode==3 ) { harbol_multi_cleanup((size_t)k, ALL40(PP)); for( int i=0; i < 40; i++ ) CHECK((b[i]==NULL)==(i < k && i < fail), "harbol_multi_cleanup of %d buffers, the list ends at %d: buffer %d is %s", k, fail, i, b[i]? "left" : "gone"); }
	for( int i=0; i < 40; i++ ) { free(b[i]); b[i] = NULL; }
}
/* every graph of three triple (or double) links, every link then set to every node, by the setter or through its reference */
static void tri(int hi, int links) {
	struct titem { struct HarbolTriLink l; int id; } t[3]; struct bitem { struct HarbolBiLink l; int id; } u[3];
	for( int lo=0; lo < 512; lo++ ) {
		int g[9]; int x = hi*512 + lo; for( int i=0; i < 9; i++, x >>= 2 ) g[i] = x & 3; /* 3: none */
		if( links==2 && (g[2] != 3 || g[5] != 3 || g[8] != 3) ) continue;
		for( int s=0; s < 9; s++ ) { int const n = s/3, k = s%3; if( k >= links ) continue; for( int to=0; to < 4; to++ ) for( int how=0; how < 2; how++ ) {
			for( int i=0; i < 3; i++ ) { t[i].id = u[i].id = i+70; t[i].l.a = g[i*3]==3? NULL : &t[g[i*3]].l; t[i].l.b = g[i*3+1]==3? NULL : &t[g[i*3+1]].l; t[i].l.c = g[i*3+2]==3? NULL : &t[g[i*3+2]].l; u[i].l.a = g[i*3]==3? NULL : &u[g[i*3]].l; u[i].l.b = g[i*3+1]==3? NULL : &u[g[i*3+1]].l; }
			void *const nd = links==3? (void *)&t[n] : (void *)&u[n], *const v = to==3? NULL : links==3? (void *)&t[to] : (void *)&u[to];
			if( how ) *(k==0? harbol_link_get_a_ref(nd) : k==1? harbol_bilink_get_b_ref(nd) : harbol_trilink_get_c_ref(nd)) = v; else if( k==0 ) harbol_link_set_a(nd, v); else if( k==1 ) harbol_bilink_set_b(nd, v); else harbol_trilink_set_c(nd, v);
			for( int i=0; i < 3; i++ ) for( int j=0; j < links; j++ ) { int const w = i*3+j==s? to : g[i*3+j]; void *const p = links==3? (void *)&t[i] : (void *)&u[i], *const q = j==0? harbol_link_get_a(p) : j==1? harbol_bilink_get_b(p) : harbol_trilink_get_c(p); CHECK(q==(w==3? NULL : links==3? (void *)&t[w] : (void *)&u[w]), "link %c of node %d after setting link %c of node %d to %d", 'a'+j, i, 'a'+k, n, to==3? -1 : to); }
			for( int i=0; i < 3; i++ ) CHECK(t[i].id==i+70 && u[i].id==i+70, "node %d lost its data", i);
			vp_add_transitions(1); } }
	}
}
static void one(int a, int b, int c, int d) {
	uint32_t t[4] = {(uint32_t)(a+1), (uint32_t)b, (uint32_t)c, (uint32_t)d}; if( (int)(ncases++ % (uint64_t)vp_nshards) != vp_shard ) return; if( !vp_case(t, 4) ) return;
	if( cfg==SHIFT ) shift(a, b, c, d); else if( cfg==TRI ) tri(a, b); else if( cfg==MSHIFT ) mshift(a, b, c, d); else if( cfg==RECALLOC ) recallocs(a, b, c, d); else if( cfg==WIDE ) { if( d==99 ) wideresize(a, b, c); else wide(a, b, c, d); } else if( cfg==MANY ) many(a, b, c); else multi(a, b, c, d);
	vp_case_done(); vp_add_transitions(1); if( ncases % 20011==0 ) vp_sample("%s: %d %d %d %d", cfg==SHIFT? "shift" : cfg==MSHIFT? "parallel shift" : cfg==RECALLOC? "recalloc" : cfg==WIDE? "wide" : cfg==MANY? "many" : cfg==TRI? "triple links" : "multi", a, b, c, d);
}
void vp_explore(int c) {
	cfg = c; ncases = 0; if( c < SHIFT ) { vp_bfs(&sys, 1000, 20000000); return; }
	int M = vp_tier? 24 : 12;
	if( c==SHIFT ) { for( int l=0; l <= M; l++ ) for( int i=0; i < 32; i++ ) for( int a=0; a < 36; a++ ) for( int d=0; d < 5; d++ ) one(l, i, a, d); for( int l=250; l <= 260; l++ ) for( int i=0; i < 4; i++ ) for( int a=0; a < 36; a++ ) for( int d=0; d < 5; d++ ) one(l, i, a, d); }
	else if( c==MSHIFT ) { for( int l=0; l <= M; l++ ) for( int i=0; i < 32; i++ ) for( int a=0; a < 36; a++ ) for( int k=0; k <= 5; k++ ) one(l, i, a, k); }
	else if( c==RECALLOC ) { for( int o=0; o <= 20; o++ ) for( int w=1; w <= 20; w++ ) for( int d=1; d <= 17; d++ ) for( int m=0; m < 3; m++ ) one(o, w, d, m); for( int o=0; o <= 3; o++ ) for( int w=0; w < 8; w++ ) for( int d=8; d <= 16; d += 8 ) for( int m=0; m < 2; m++ ) one(o, 100+w, d, m); }
	else if( c==WIDE ) { for( int d=0; d < NWD; d++ ) for( int l=0; l < NWL; l++ ) { for( int x=0; x < 7; x++ ) for( int y=0; y < 7; y++ ) if( vp_tier || WD[d]*WL[l] < 100000 || (WD[d]*WL[l] < 10000000? (x+y)%5==0 : x==y) ) one(d, l, x, y); for( int w=0; w < NWL; w++ ) one(d, l, w, 99); } }
	else if( c==TRI ) { for( int h=0; h < 512; h++ ) for( int k=2; k <= 3; k++ ) one(h, k, 0, 0); }
	else if( c==MANY ) { for( int k=0; k <= 40; k++ ) { for( int m=0; m < 2; m++ ) for( int f=0; f <= k+1; f++ ) if( k || m ) one(k, f, m, 0); for( int f=0; f < 63; f++ ) one(k, f, 2, 0); for( int f=0; f <= 40; f++ ) one(k, f, 3, 0); } }
	else { for( int o=-1; o <= 9; o++ ) for( int w=1; w <= 10; w++ ) for( int k=1; k <= 4; k++ ) for( int f=1; f <= 8; f++ ) for( int nu=0; nu < (o < 0? 1 : 16); nu++ ) one(o, w, k, f | nu << 4);
		for( int o=-1; o <= 3; o++ ) for( int w=0; w < 8; w++ ) for( int k=2; k <= 4; k++ ) one(o, 100+w, k, 1); }
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; if( c < SHIFT ) { vp_replay_hist(&sys, t, n); return; } ncases = 0; vp_nshards = 1; vp_shard = 0; one((int)t[0]-1, (int)t[1], (int)t[2], (int)t[3]); }
