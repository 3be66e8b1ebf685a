/* C03: deque == double-ended queue with stable handles. BFS over histories. */
#include "vp.h"
#include "deque/deque.h"
char const *const vp_property = "C03";

struct conf { size_t cap; int nv; int maxn; int dq, dt; int mode; };
static struct conf const C[] = {
	{1, 1, 9, 13, 18, 0}, {2, 1, 9, 13, 18, 1}, {3, 1, 9, 13, 18, 0}, {4, 1, 9, 13, 18, 0}, {0, 1, 9, 11, 16, 0}, {5, 1, 10, 12, 17, 0}, {8, 1, 10, 12, 16, 0},
	{1, 3, 8, 8, 10, 0}, {2, 3, 8, 8, 10, 1}, {4, 3, 8, 8, 10, 0},
	{16, 1, 20, 8, 10, 2}, /* starts full */
};
static int cfg; static struct HarbolDeque mem, *d;
static struct { size_t h; uint32_t v; } E[64]; static int n; static uint32_t serial;
/* value: kind (0..nv-1) and, so that a swapped pair is seen even with one kind, a serial number that the canonical state renumbers */
static size_t sz(uint32_t v) { return (v & 0xff)==1? 16 : (v & 0xff)==2? 5 : 4; }
static void enc(uint32_t v, uint8_t *o) { memset(o, (int)(0x30 + (v & 0xff)), 16); memcpy(o, &v, 4); }
enum { RESET, REINIT, CLEAR, POPF, POPB, PRE0 };
static uint32_t nops(void) { return PRE0 + 2u*(uint32_t)C[cfg].nv; }
static void opname(uint32_t o, char *s, size_t k) { if( o < PRE0 ) snprintf(s, k, "%s", (char const*[]){"reset","clear+init","clear","pop_front","pop_back"}[o]); else snprintf(s, k, "%s(kind %u)", (o-PRE0)&1? "append" : "prepend", (o-PRE0)/2); }

static void compare(void) {
	CHECK(harbol_deque_count(d)==(size_t)n, "count is %zu, should be %d", harbol_deque_count(d), n);
	CHECK(harbol_deque_empty(d)==(n==0), "empty() wrong with %d elements", n);
	size_t h = harbol_deque_head(d), t = harbol_deque_tail(d); uint8_t b[16];
	uint8_t *f = harbol_deque_get_front(d), *k = harbol_deque_get_back(d);
	if( n==0 ) { CHECK(h==SIZE_MAX && t==SIZE_MAX, "an empty deque has a head or a tail"); CHECK(f==NULL && k==NULL, "an empty deque has a front or a back"); return; }
	CHECK(f && k, "front or back missing");
	enc(E[0].v, b); CHECK(!memcmp(f, b, sz(E[0].v)), "front is a wrong element");
	enc(E[n-1].v, b); CHECK(!memcmp(k, b, sz(E[n-1].v)), "back is a wrong element");
	size_t p = h;
	for( int i=0; i < n; i++ ) {
		CHECK(p==E[i].h, "forward walk: node %d is %zd, its handle is %zd", i, (ssize_t)p, (ssize_t)E[i].h);
		uint8_t *x = harbol_deque_get_data(d, p); CHECK(x != NULL, "element %d has no data", i);
		enc(E[i].v, b); CHECK(!memcmp(x, b, sz(E[i].v)), "element %d has wrong data", i);
		p = harbol_deque_next(d, p);
	}
	CHECK(p==SIZE_MAX, "forward walk does not end after %d elements", n);
	p = t;
	for( int i=n-1; i >= 0; i-- ) { CHECK(p==E[i].h, "backward walk: node %d is %zd, its handle is %zd", i, (ssize_t)p, (ssize_t)E[i].h); p = harbol_deque_prev(d, p); }
	CHECK(p==SIZE_MAX, "backward walk does not end after %d elements", n);
}
static size_t const WRAP[] = {256, 257, 65536, 65537, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, ((size_t)1 << 63) + 1}; /* indices that become small when a narrower type holds them */
static void observe(void) {
	size_t bad[] = {SIZE_MAX, SIZE_MAX-1, d->cap, d->cap+1};
	for( int i=0; i < 4; i++ ) CHECK(harbol_deque_next(d, bad[i])==SIZE_MAX && harbol_deque_prev(d, bad[i])==SIZE_MAX && harbol_deque_get_data(d, bad[i])==NULL, "an invalid handle denotes something");
	for( int i=0; i < 8; i++ ) if( WRAP[i] >= d->cap ) CHECK(harbol_deque_next(d, WRAP[i])==SIZE_MAX && harbol_deque_prev(d, WRAP[i])==SIZE_MAX && harbol_deque_get_data(d, WRAP[i])==NULL, "the invalid handle %zu denotes something", WRAP[i]);
}
static void push(bool back, uint32_t kind) {
	uint32_t v = kind | (++serial << 8); uint8_t *b = __real_malloc(sz(v)), t[16]; enc(v, t); memcpy(b, t, sz(v));
	size_t h = back? harbol_deque_append(d, b, sz(v)) : harbol_deque_prepend(d, b, sz(v));
	memset(b, 0xDD, sz(v)); __real_free(b);
	CHECK(h != SIZE_MAX, "insertion refused");
	for( int i=0; i < n; i++ ) CHECK(E[i].h != h, "insertion returned the handle of a stored element");
	if( back ) { E[n].h = h; E[n].v = v; } else { memmove(E+1, E, (size_t)n * sizeof *E); E[0].h = h; E[0].v = v; }
	n++;
}
static void begin(void) {
	n = 0; serial = 0; memset(&mem, 0, sizeof mem);
	if( C[cfg].mode==1 ) { d = harbol_deque_new(C[cfg].cap); CHECK(d != NULL, "new failed"); }
	else { bool r = false; mem = harbol_deque_make(C[cfg].cap, &r); CHECK(r, "make failed"); d = &mem; }
	if( C[cfg].mode==2 ) for( size_t i=0; i < C[cfg].cap; i++ ) push(true, 0);
}
static int apply(uint32_t o, bool check) {
	uint8_t out[32], b[16]; memset(out, 0xA5, sizeof out);
	switch( o ) {
	case RESET: harbol_deque_reset(d); n = 0; break;
	case REINIT: { if( n < 2 ) return 0; harbol_deque_clear(d); bool r = harbol_deque_init(d, C[cfg].cap); CHECK(r, "init after clear failed"); n = 0; } break;
	case CLEAR: harbol_deque_clear(d); n = 0; break; /* an empty deque like any other */
	case POPF: case POPB: {
		if( n==0 ) { CHECK(!(o==POPF? harbol_deque_pop_front(d, out, 4) : harbol_deque_pop_back(d, out, 4)), "popping an empty deque succeeded"); CHECK(out[0]==0xA5, "a failing pop wrote to the caller"); break; }
		uint32_t v = o==POPF? E[0].v : E[n-1].v;
		bool r = o==POPF? harbol_deque_pop_front(d, out, sz(v)) : harbol_deque_pop_back(d, out, sz(v));
		CHECK(r, "pop of a non-empty deque failed"); enc(v, b); CHECK(!memcmp(out, b, sz(v)) && out[sz(v)]==0xA5, "pop delivered a wrong element");
		n--; if( o==POPF ) memmove(E, E+1, (size_t)n * sizeof *E);
	} break;
	default: if( n >= C[cfg].maxn ) return 0; push((o-PRE0)&1, (o-PRE0)/2);
	}
	compare(); if( check ) observe();
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf, 0, cap};
	vp_put64(&b, d->cap); vp_put64(&b, d->len); vp_put64(&b, d->head); vp_put64(&b, d->tail); vp_put64(&b, d->freed);
	vp_put(&b, d->nexts, d->cap * sizeof *d->nexts); vp_put(&b, d->prevs, d->cap * sizeof *d->prevs);
	/* serial numbers are opaque to the deque: only the kind matters */
	for( size_t i=0; i < d->cap; i++ ) vp_put64(&b, d->datum[i]? 1u + (d->datum[i][0] & 0xffu) : 0);
	return b.n;
}
static void end(void) { if( C[cfg].mode==1 ) { harbol_deque_free(&d); CHECK(d==NULL, "free left the pointer"); harbol_deque_free(&d); CHECK(d==NULL, "freeing NULL"); } else harbol_deque_clear(d); }
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) { cfg = c; sys.nops = nops(); }

/* ---- ladder: long deques and large values under push/pop programs of many lengths ---- */
enum { NC = (int)(sizeof C / sizeof *C), LMAX = 420000 };
static struct { size_t h; uint32_t v; } L[LMAX]; static size_t lo, hi; static uint8_t LV[70001];
static size_t lsz(uint32_t vs, uint32_t v) { return vs==0? 4 : vs==1? v % 700 + 1 : vs==2? 1000 : 70000; }
static void lenc(uint32_t vs, uint32_t v, uint8_t *o) { size_t n = lsz(vs, v); for( size_t b=0; b < n; b++ ) o[b] = (uint8_t)(b < 4? v >> 8*b : b*7 + v); }
static void lpush(bool back, uint32_t v, uint32_t vs) {
	lenc(vs, v, LV); size_t const z = lsz(vs, v), h = back? harbol_deque_append(d, LV, z) : harbol_deque_prepend(d, LV, z); CHECK(h != SIZE_MAX, "insertion into %zu elements refused", hi-lo);
	CHECK(h < d->cap, "a handle beyond the capacity");
	if( back ) { L[hi].h = h; L[hi++].v = v; } else { L[--lo].h = h; L[lo].v = v; }
}
static void lpop(bool back, uint32_t vs) {
	static uint8_t out[70008]; uint32_t const v = back? L[hi-1].v : L[lo].v; size_t const z = lsz(vs, v); lenc(vs, v, LV); out[z] = 0xA5;
	CHECK(back? harbol_deque_pop_back(d, out, z) : harbol_deque_pop_front(d, out, z), "pop of %zu elements failed", hi-lo); CHECK(!memcmp(out, LV, z) && out[z]==0xA5, "pop of %zu elements delivered a wrong one", hi-lo);
	if( back ) hi--; else lo++;
}
static void lcompare(uint32_t vs) {
	static uint8_t seen[LMAX]; CHECK(d->cap <= LMAX, "capacity %zu", d->cap); memset(seen, 0, d->cap);
	CHECK(harbol_deque_count(d)==hi-lo && harbol_deque_empty(d)==(hi==lo), "count is %zu, should be %zu", harbol_deque_count(d), hi-lo);
	size_t p = harbol_deque_head(d);
	for( size_t i=lo; i < hi; i++ ) { CHECK(p==L[i].h, "forward walk: node %zu of %zu is %zd, its handle is %zd", i-lo, hi-lo, (ssize_t)p, (ssize_t)L[i].h); CHECK(!seen[p], "a node is met twice"); seen[p] = 1; lenc(vs, L[i].v, LV); uint8_t *x = harbol_deque_get_data(d, p); CHECK(x && !memcmp(x, LV, lsz(vs, L[i].v)), "element %zu of %zu has wrong data", i-lo, hi-lo); p = harbol_deque_next(d, p); }
	CHECK(p==SIZE_MAX, "forward walk does not end after %zu elements", hi-lo);
	p = harbol_deque_tail(d); for( size_t i=hi; i-- > lo; ) { CHECK(p==L[i].h, "backward walk: node %zu of %zu is %zd", i-lo, hi-lo, (ssize_t)p); p = harbol_deque_prev(d, p); } CHECK(p==SIZE_MAX, "backward walk does not end after %zu elements", hi-lo);
	void *f = harbol_deque_get_front(d), *k = harbol_deque_get_back(d); CHECK(hi==lo? !f && !k : f==harbol_deque_get_data(d, L[lo].h) && k==harbol_deque_get_data(d, L[hi-1].h), "front or back is wrong");
}
enum { P_APPEND, P_PREPEND, P_ALTERNATE, P_NPUSH };
enum { Q_KEEP, Q_FRONT, Q_BACK, Q_BOTH, Q_QUEUE, Q_BQUEUE, Q_STACK, Q_RESET, Q_CLEAR, Q_ZIGZAG, Q_NPOP };
static void ladder_run(uint32_t cap, uint32_t n_, uint32_t push_, uint32_t pop_, uint32_t vs, uint32_t w) {
	uint32_t t[6] = {cap, n_, push_, pop_, vs, w}; if( !vp_case(t, 6) ) return;
	vp_note("capacity %u, %u elements, push pattern %u, then %u (%u), value sizes %u", cap, n_, push_, pop_, w, vs);
	lo = hi = LMAX/2; memset(&mem, 0, sizeof mem); d = &mem; CHECK(harbol_deque_init(d, cap), "init(%u) failed", cap); uint32_t v = 0;
	for( uint32_t i=0; i < n_; i++ ) { lpush(push_==P_APPEND || (push_==P_ALTERNATE && (i & 1)), v++, vs); if( n_ <= 64 && i % 4==0 ) lcompare(vs); }
	lcompare(vs);
	bool const each = n_ <= 64;
	switch( pop_ ) {
	case Q_FRONT: case Q_BACK: case Q_BOTH: while( hi > lo ) { lpop(pop_==Q_BACK || (pop_==Q_BOTH && (hi & 1)), vs); if( each || hi-lo==w ) lcompare(vs); } lpush(true, v++, vs); lpush(false, v++, vs); if( d->cap < 150000 && lsz(vs, 0) < 70000 ) { lpop(false, vs); lpop(true, vs); lo = hi = LMAX/2; lcompare(vs); for( size_t full = d->cap+1, i=0; i < full; i++ ) lpush(i & 1, v++, vs); /* all of the emptied room is used again */ } break;
	case Q_QUEUE: case Q_BQUEUE: for( uint32_t i=0; i < w; i++ ) { bool const b = pop_==Q_QUEUE; lpush(b, v++, vs); lpop(!b, vs); if( i % 3==0 ) lpop(!b, vs); if( i % 3==1 ) lpush(b, v++, vs); if( each && i % 8==0 ) lcompare(vs); } break;
	case Q_STACK: for( uint32_t i=0; i < w; i++ ) { lpush(i & 2, v++, vs); lpush(i & 2, v++, vs); lpop(i & 2, vs); if( each ) lcompare(vs); } break;
	case Q_RESET: harbol_deque_reset(d); hi = lo; lcompare(vs); for( uint32_t i=0; i < w; i++ ) lpush(i & 1, v++, vs); break;
	case Q_CLEAR: harbol_deque_clear(d); hi = lo; CHECK(harbol_deque_init(d, w), "init(%u) failed", w); lcompare(vs); for( uint32_t i=0; i < n_; i++ ) lpush(i % 3, v++, vs); break;
	case Q_ZIGZAG: for( uint32_t r=0; r < 4; r++ ) { for( uint32_t i=0; i < w && hi > lo; i++ ) lpop(i & 1, vs); lcompare(vs); for( uint32_t i=0; i < w+r*5; i++ ) lpush(r & 1, v++, vs); lcompare(vs); } break;
	}
	lcompare(vs); vp_outcome(vp_hash(L+lo, (hi-lo)*sizeof *L, d->cap)); harbol_deque_clear(d); vp_case_done();
}
static void ladder(int c) {
	static uint32_t const far[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000};
	static uint32_t const caps[] = {0, 1, 3, 8, 100, 256, 1000};
	uint32_t const ps = (uint32_t)c; uint32_t const dense = vp_tier? 260 : 70;
	for( uint32_t q=0; q < dense + sizeof far/sizeof *far; q++ ) {
		uint32_t const n_ = q < dense? q+1 : far[q-dense]; if( n_ > 5000 && ps==P_ALTERNATE && !vp_tier ) continue;
		for( uint32_t ci=0; ci < 7; ci++ ) {
			if( n_ > 130 && ci != q % 7 ) continue; uint32_t const cp = caps[ci];
			uint32_t const vs = n_ > 300? 0 : (q + ci) % 8==7? 2 : (q + ci) % 3==1? 1 : 0; uint32_t const W[] = {1, 5, n_/2, n_, 100, 256};
			for( uint32_t o=0; o < Q_NPOP; o++ ) for( int a=0; a < 6; a++ ) { if( (o==Q_KEEP || o==Q_BOTH) && a ) continue; if( a && n_ > 600 ) continue; if( W[a]==0 ) continue; ladder_run(cp, n_, ps, o, vs, W[a]); }
		}
	}
	ladder_run(1, 5, ps, Q_FRONT, 3, 2); ladder_run(4, 5, ps, Q_ZIGZAG, 3, 2);
}
int vp_nconfigs(void) { return NC + P_NPUSH; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) { snprintf(o, n, "ladder-%d", c-NC); return; } snprintf(o, n, "cap%zu-vals%d%s", C[c].cap, C[c].nv, C[c].mode==1? "-new" : C[c].mode==2? "-startfull" : ""); }
int vp_config_shards(int c) { (void)c; return 1; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } setup(c); vp_bfs(&sys, vp_tier? C[c].dt : C[c].dq, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==6 ) ladder_run(t[0], t[1], t[2], t[3], t[4], t[5]); return; } setup(c); vp_replay_hist(&sys, t, l); }
