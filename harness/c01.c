/* C01: dynamic array == bounded sequence.  BFS over histories on two arrays. */
#include "vp.h"
#include "array/array.h"
char const *const vp_property = "C01";

enum { MAXN = 1100, NV = 3 };
struct seq { bool has; size_t n, cap; uint8_t v[MAXN]; };
static struct HarbolArray A[2];
static struct seq M[2];
static size_t DS;                 /* element size */
static int cfg;

static void enc(uint8_t v, uint8_t *out) { for( size_t i=0; i < DS; i++ ) out[i] = (uint8_t)(i+1==DS? 0x11*(v+1) : (i==0? 0x40+v : 0x77)); if( DS==1 ) out[0] = (uint8_t)(v+1); }
static uint8_t *E(uint8_t v) { static uint8_t b[4][64]; static int k; k = (k+1)&3; memset(b[k], 0xEE, 64); enc(v, b[k]); return b[k]; }

struct conf { char const *name; size_t ds; int mode; int dq, dt; }; /* mode 0: init(…), 1: from heap buffer, 2: new() */
static struct conf const C[] = {
	{"ds1-init4", 1, 0, 5, 7}, {"ds3-init4", 3, 0, 5, 7}, {"ds8-new6", 8, 2, 5, 7}, {"ds2-frombuffer", 2, 1, 5, 7}, {"ds1-cleared", 1, 3, 5, 7}, {"ds16-init0", 16, 4, 4, 6}, {"ds1-small-alphabet", 1, 5, 8, 11},
};

/* ---- operations ---- */
enum kind { INS, APP, FILL, POP, POPX, SET, REV, SHIFT, DELI, DELR, DELV, ADD, COPY, GROW, RESIZE, SHRINK, WIPE, CLEAR, INIT };
struct op { uint8_t k; uint8_t a; int8_t x, y; };
/* index codes: 0,1,2 = literal; 3: len-1; 4: len; 5: SIZE_MAX; 6: len/2; 7: len+1; 8: SIZE_MAX-1 */
static size_t ix(int code, size_t len) { switch( code ) { case 3: return len-1; case 4: return len; case 5: return SIZE_MAX; case 6: return len/2; case 7: return len+1; case 8: return SIZE_MAX-1; default: return (size_t)code; } }
/* code names same as an earlier code? then skip */
static bool dup_code(int code, size_t len, int const *codes) { for( ; *codes != code; codes++ ) if( ix(*codes, len)==ix(code, len) ) return true; return false; }
static int const IC[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, -1};
static struct op O[400]; static uint32_t nO;
static void addop(int k, int a, int x, int y) { O[nO++] = (struct op){(uint8_t)k, (uint8_t)a, (int8_t)x, (int8_t)y}; }
static void mkops(void) {
	nO = 0;
	for( int v=0; v < NV; v++ ) addop(INS, 0, v, 0);
	addop(APP, 0, 1, 0); addop(INS, 1, 1, 0); addop(INS, 1, 2, 0);
	addop(POP, 0, 0, 0); addop(POPX, 0, 0, 0); addop(FILL, 0, 2, 0); addop(REV, 0, 0, 0);
	int const si[] = {0, 1, 3, 4, 5}; for( int i=0; i < 5; i++ ) addop(SET, 0, si[i], 2);
	for( int i=0; i < 6; i++ ) addop(DELI, 0, i, 0);
	addop(DELI, 0, 6, 0); addop(DELI, 0, 7, 0);
	int const ri[] = {0, 1, 2, 3, 4, 5}, rr[] = {0, 1, 2, 3, 4, 5, 8, 7};
	for( int i=0; i < 6; i++ ) for( int r=0; r < 8; r++ ) addop(DELR, 0, ri[i], rr[r]);
	int const sr[] = {0, 1, 2, 4, 5};
	for( int i=0; i < 6; i++ ) for( int r=0; r < 5; r++ ) addop(SHIFT, 0, ri[i], sr[r]);
	for( int v=0; v < NV; v++ ) addop(DELV, 0, v, 0);
	addop(ADD, 0, 1, 0); addop(ADD, 1, 0, 0); addop(ADD, 0, 0, 0);
	addop(COPY, 0, 1, 0); addop(COPY, 1, 0, 0); addop(COPY, 0, 0, 0);
	addop(GROW, 0, 0, 0); int const rz[] = {0, 1, 2, 3, 4, 5, 8, 20}; for( int i=0; i < 8; i++ ) addop(RESIZE, 0, rz[i], 0);
	addop(SHRINK, 0, 0, 0); addop(SHRINK, 0, 1, 0); addop(WIPE, 0, 0, 0); addop(CLEAR, 0, 0, 0); addop(CLEAR, 1, 0, 0); addop(INIT, 0, 5, 0);
	if( C[cfg].mode==5 ) { /* smaller alphabet, deeper */
		nO = 0;
		addop(INS, 0, 0, 0); addop(INS, 0, 1, 0); addop(POP, 0, 0, 0); addop(DELI, 0, 0, 0); addop(DELI, 0, 1, 0); addop(DELI, 0, 3, 0); addop(DELR, 0, 0, 2); addop(DELR, 0, 1, 2); addop(DELR, 0, 2, 5); addop(REV, 0, 0, 0);
		addop(DELV, 0, 1, 0); addop(SHIFT, 0, 1, 2); addop(GROW, 0, 0, 0); addop(SHRINK, 0, 1, 0); addop(SHRINK, 0, 0, 0); addop(RESIZE, 0, 1, 0); addop(RESIZE, 0, 5, 0); addop(ADD, 0, 0, 0); addop(FILL, 0, 0, 0); addop(COPY, 1, 0, 0); addop(ADD, 0, 1, 0); addop(WIPE, 0, 0, 0);
	}
}
static void opname(uint32_t i, char *o, size_t n) {
	static char const *K[] = {"insert","append","fill","pop","pop_ex","set","reverse","shift_up","del_index","del_range","del_val","add","copy","grow","resize","shrink","wipe","clear","init"};
	static char const *IN_[] = {"0","1","2","len-1","len","SIZE_MAX","len/2","len+1","SIZE_MAX-1"};
	struct op p = O[i]; char nm = (char)('A'+p.a);
	switch( p.k ) {
	case SET: snprintf(o, n, "%c.set[%s]=v%d", nm, IN_[p.x], p.y); break;
	case DELI: snprintf(o, n, "%c.del_index(%s)", nm, IN_[p.x]); break;
	case DELR: case SHIFT: snprintf(o, n, "%c.%s(%s,%s)", nm, K[p.k], IN_[p.x], IN_[p.y]); break;
	case ADD: case COPY: snprintf(o, n, "%c.%s(%c)", nm, K[p.k], 'A'+p.x); break;
	default: snprintf(o, n, "%c.%s(%d)", nm, K[p.k], p.x);
	}
}

static void compare(int q) {
	struct HarbolArray *a = &A[q]; struct seq *m = &M[q];
	size_t const cap = harbol_array_cap(a), len = harbol_array_len(a);
	m->cap = cap;
	CHECK(len==m->n, "array %c: length is %zu, should be %zu", 'A'+q, len, m->n);
	CHECK(len <= cap, "array %c: length %zu exceeds capacity %zu", 'A'+q, len, cap);
	CHECK((a->table != NULL)==m->has || m->n==0, "array %c: storage missing", 'A'+q);
	uint8_t const *data = *(uint8_t *const *)harbol_array_data(a);
	for( size_t i=0; i < len; i++ ) CHECK(!memcmp(data + i*DS, E(m->v[i]), DS), "array %c: element %zu is not v%d", 'A'+q, i, m->v[i]);
	/* the whole capacity must be accessible memory */
	if( cap && data ) { volatile uint8_t x = data[cap*DS-1]; (void)x; }
}
static size_t const WRAP[] = {256, 257, 65536, 65537, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63, ((size_t)1 << 63) + 1}; /* indices that become small when a narrower type holds them */
static void observe(int q) {
	struct HarbolArray *a = &A[q]; struct seq *m = &M[q]; uint8_t tmp[64];
	CHECK(harbol_array_empty(a)==(m->n==0), "empty() wrong at length %zu", m->n);
	CHECK(harbol_array_full(a)==(m->n>=m->cap), "full() wrong at length %zu cap %zu", m->n, m->cap);
	size_t const idx[] = {0,1,2,3,4,5,6,7,8, m->n, m->n+1, m->n-1, m->cap, m->cap-1, SIZE_MAX, SIZE_MAX/2, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63};
	for( int k=0; k < 8; k++ ) if( WRAP[k] >= m->n ) CHECK(!harbol_array_set(a, WRAP[k], E(0), DS) && !harbol_array_del_by_index(a, WRAP[k], DS) && !harbol_array_del_by_range(a, WRAP[k], DS, 1) && !harbol_array_shift_up(a, WRAP[k], DS, 1), "index %zu of %zu accepted", WRAP[k], m->n);
	for( size_t k=0; k < sizeof idx/sizeof *idx; k++ ) {
		size_t const i = idx[k]; uint8_t *p = harbol_array_get(a, i, DS);
		CHECK((p != NULL)==(i < m->n), "get(%zu) at length %zu: wrong presence", i, m->n);
		if( p ) CHECK(!memcmp(p, E(m->v[i]), DS), "get(%zu) yields a wrong element", i);
		memset(tmp, 0xA5, sizeof tmp); bool const r = harbol_array_get_ex(a, i, tmp, DS);
		CHECK(r==(i < m->n), "get_ex(%zu) at length %zu returned %d", i, m->n, r);
		CHECK(!memcmp(tmp, r? E(m->v[i]) : (uint8_t[64]){[0 ... 63]=0xA5}, DS) && tmp[DS]==0xA5, "get_ex(%zu) delivered wrong bytes", i);
	}
	uint8_t *p = harbol_array_peek(a, DS); CHECK((p != NULL)==(m->n>0), "peek presence wrong");
	if( p ) CHECK(!memcmp(p, E(m->v[m->n-1]), DS), "peek yields a wrong element");
	memset(tmp, 0xA5, sizeof tmp); bool const r = harbol_array_peek_ex(a, tmp, DS); CHECK(r==(m->n>0), "peek_ex result wrong");
	if( r ) CHECK(!memcmp(tmp, E(m->v[m->n-1]), DS) && tmp[DS]==0xA5, "peek_ex delivered wrong bytes");
	for( uint8_t v=0; v < NV+1; v++ ) {
		size_t cnt = 0; for( size_t i=0; i < m->n; i++ ) cnt += m->v[i]==v;
		CHECK(harbol_array_item_count(a, E(v), DS)==cnt, "item_count(v%d) is wrong", v);
		size_t const st[] = {0,1,2,3, m->n, m->n-1, m->n+1, SIZE_MAX, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)1 << 63};
		for( size_t k=0; k < sizeof st/sizeof *st; k++ ) {
			size_t w = SIZE_MAX; for( size_t i=st[k]; i < m->n; i++ ) if( m->v[i]==v ) { w = i; break; }
			CHECK(harbol_array_index_of(a, E(v), DS, st[k])==w, "index_of(v%d, from %zu) is wrong", v, st[k]);
		}
	}
}

static void begin(void) {
	memset(A, 0, sizeof A); memset(M, 0, sizeof M);
	switch( C[cfg].mode ) {
	case 0: case 5: CHECK(harbol_array_init(&A[0], DS, 4), "init failed"); break;
	case 1: A[0] = harbol_array_make_from_array(calloc(6, DS), 6, 2); M[0].n = 2; memcpy(A[0].table, E(0), DS); memcpy(A[0].table+DS, E(1), DS); M[0].v[0] = 0; M[0].v[1] = 1; break;
	case 2: { struct HarbolArray *p = harbol_array_new(DS, 6); CHECK(p != NULL, "new failed"); CHECK(harbol_array_cap(p) >= 6 && harbol_array_len(p)==0, "new(6) has cap %zu len %zu", p->cap, p->len); A[0] = *p; free(p); } break;
	case 3: break;
	case 4: { bool res = false; A[0] = harbol_array_make(DS, 0, &res); CHECK(res, "make failed"); } break;
	}
	M[0].has = A[0].table != NULL; M[0].cap = A[0].cap;
	bool res = false; A[1] = harbol_array_make(DS, 4, &res); CHECK(res && A[1].cap >= 4 && A[1].len==0, "make failed"); M[1].has = true; M[1].cap = A[1].cap;
}
static void del(struct seq *m, size_t i, size_t amt) { if( amt > m->n - i ) amt = m->n - i; memmove(m->v+i, m->v+i+amt, m->n-i-amt); m->n -= amt; }

static int apply(uint32_t o, bool check) {
	struct op const p = O[o]; struct HarbolArray *a = &A[p.a]; struct seq *m = &M[p.a]; size_t const len = m->n;
	uint8_t tmp[64]; memset(tmp, 0xA5, sizeof tmp);
	switch( p.k ) {
	case INS: { bool e = m->has && len < m->cap, r = harbol_array_insert(a, E((uint8_t)p.x), DS); CHECK(r==e, "insert returned %d at length %zu of %zu", r, len, m->cap); if( e ) m->v[m->n++] = (uint8_t)p.x; } break;
	case APP: { size_t e = m->has && len < m->cap? len : SIZE_MAX, r = harbol_array_append(a, E((uint8_t)p.x), DS); CHECK(r==e, "append returned %zu, should be %zu", r, e); if( e != SIZE_MAX ) m->v[m->n++] = (uint8_t)p.x; } break;
	case FILL: { if( m->cap > 520 ) return 0; bool r = harbol_array_fill(a, E((uint8_t)p.x), DS); CHECK(r==m->has, "fill returned %d", r); if( m->has ) { m->n = m->cap; memset(m->v, p.x, m->n); } } break;
	case POP: { uint8_t *r = harbol_array_pop(a, DS); CHECK((r != NULL)==(len>0), "pop presence wrong"); if( len ) { m->n--; CHECK(!memcmp(r, E(m->v[m->n]), DS), "pop yields a wrong element"); } } break;
	case POPX: { bool r = harbol_array_pop_ex(a, tmp, DS); CHECK(r==(len>0), "pop_ex returned %d", r); if( len ) { m->n--; CHECK(!memcmp(tmp, E(m->v[m->n]), DS) && tmp[DS]==0xA5, "pop_ex delivered wrong bytes"); } else CHECK(tmp[0]==0xA5, "failing pop_ex wrote to the caller"); } break;
	case SET: { if( dup_code(p.x, len, IC) ) return 0; size_t i = ix(p.x, len); bool r = harbol_array_set(a, i, E((uint8_t)p.y), DS); CHECK(r==(i<len), "set(%zu) returned %d at length %zu", i, r, len); if( i < len ) m->v[i] = (uint8_t)p.y; } break;
	case REV: { bool r = harbol_array_swap(a, DS); CHECK(r==m->has, "swap returned %d", r); for( size_t i=0; i < len/2; i++ ) { uint8_t t = m->v[i]; m->v[i] = m->v[len-1-i]; m->v[len-1-i] = t; } } break;
	case DELI: { if( dup_code(p.x, len, IC) ) return 0; size_t i = ix(p.x, len); bool r = harbol_array_del_by_index(a, i, DS); CHECK(r==(i<len), "del_by_index(%zu) returned %d at length %zu", i, r, len); if( i < len ) del(m, i, 1); } break;
	case SHIFT: case DELR: {
		if( dup_code(p.x, len, IC) || dup_code(p.y, len, IC) ) return 0;
		size_t i = ix(p.x, len), r = ix(p.y, len);
		bool ok = p.k==SHIFT? harbol_array_shift_up(a, i, DS, r) : harbol_array_del_by_range(a, i, DS, r);
		CHECK(ok==(i<len), "%s(%zu,%zu) returned %d at length %zu", p.k==SHIFT? "shift_up" : "del_by_range", i, r, ok, len);
		if( i < len ) del(m, i, r? r : 1); /* an amount of 0 counts as 1 */
	} break;
	case DELV: { size_t w = SIZE_MAX; for( size_t i=0; i < len; i++ ) if( m->v[i]==p.x ) { w = i; break; } bool r = harbol_array_del_by_val(a, E((uint8_t)p.x), DS); CHECK(r==(w != SIZE_MAX), "del_by_val returned %d", r); if( r ) del(m, w, 1); } break;
	case ADD: { struct seq *s = &M[p.x]; size_t sn = s->n; if( len + sn > 520 ) return 0; bool e = m->has && s->has && len + sn <= m->cap, r = harbol_array_add(a, &A[p.x], DS); CHECK(r==e, "add of %zu elements to %zu of capacity %zu returned %d", sn, len, m->cap, r); if( e ) { memmove(m->v+len, s->v, sn); m->n += sn; } } break;
	case COPY: { struct seq *s = &M[p.x]; bool e = p.a==p.x || (m->has && s->has), r = harbol_array_copy(a, &A[p.x], DS); CHECK(r==e, "copy returned %d", r); if( e && p.a != p.x ) { m->n = s->n < m->cap? s->n : m->cap; memcpy(m->v, s->v, m->n); } } break;
	case GROW: { if( m->cap > 70 ) return 0; bool r = harbol_array_grow(a, DS); CHECK(r && harbol_array_cap(a) > m->cap, "grow returned %d, capacity %zu -> %zu", r, m->cap, harbol_array_cap(a)); m->has = true; } break;
	case RESIZE: { size_t oc = m->cap; bool r = harbol_array_resize(a, DS, (size_t)p.x); size_t nc = harbol_array_cap(a); CHECK(r==(nc != oc), "resize returned %d but capacity went %zu -> %zu", r, oc, nc); CHECK(nc >= (oc==0? 1 : (size_t)p.x), "resize(%d) left capacity %zu", p.x, nc); m->has = true; if( m->n > nc ) m->n = nc; } break;
	case SHRINK: { size_t oc = m->cap; bool r = harbol_array_shrink(a, DS, p.x); size_t nc = harbol_array_cap(a); CHECK(r==(nc < oc), "shrink returned %d but capacity went %zu -> %zu", r, oc, nc); CHECK(nc >= len, "shrink below the length"); if( p.x && len > 0 && len < oc && oc > ARRAY_DEFAULT_SIZE ) CHECK(r, "exact shrink from %zu to %zu elements failed", oc, len); if( p.x && r ) CHECK(nc==len, "exact shrink left capacity %zu for %zu elements", nc, len); } break;
	case WIPE: harbol_array_wipe(a, DS); m->n = 0; break;
	case CLEAR: harbol_array_clear(a); m->n = 0; m->has = false; CHECK(harbol_array_cap(a)==0 && a->table==NULL, "clear left storage"); break;
	case INIT: { if( m->has ) return 0; bool r = harbol_array_init(a, DS, (size_t)p.x); CHECK(r && harbol_array_cap(a) >= (size_t)p.x, "init failed"); m->has = true; } break;
	}
	compare(0); compare(1);
	if( check ) { observe(0); observe(1);
		size_t d = M[0].n > M[1].n? M[0].n-M[1].n : M[1].n-M[0].n; CHECK(harbol_array_len_diff(&A[0], &A[1])==d && harbol_array_len_diff(&A[1], &A[0])==d, "len_diff wrong");
		size_t c = M[0].cap > M[1].cap? M[0].cap-M[1].cap : M[1].cap-M[0].cap; CHECK(harbol_array_cap_diff(&A[0], &A[1])==c && harbol_array_cap_diff(&A[1], &A[0])==c, "cap_diff wrong");
		compare(0); compare(1); /* queries change nothing */
	}
	return 1;
}
static size_t canon(uint8_t *buf, size_t cap) {
	struct vp_buf b = {buf, 0, cap};
	for( int q=0; q < 2; q++ ) { vp_put64(&b, A[q].table != NULL); vp_put64(&b, A[q].cap); vp_put64(&b, A[q].len); if( A[q].table ) vp_put(&b, A[q].table, A[q].cap*DS); }
	return b.n;
}
static void end(void) {
	if( cfg==2 ) { /* exercise heap-object cleanup */
		struct HarbolArray *p = harbol_array_new_from_array(A[0].table, A[0].cap, A[0].len); CHECK(p && harbol_array_len(p)==M[0].n, "new_from_array"); harbol_array_cleanup(&p); CHECK(p==NULL, "cleanup left the pointer"); harbol_array_cleanup(&p); CHECK(p==NULL, "cleaning up NULL made something"); p = harbol_array_new(sizeof(int), 3); CHECK(p, "new"); harbol_array_clear(p); harbol_array_free(&p); CHECK(p==NULL, "free left the pointer"); harbol_array_free(&p); CHECK(p==NULL, "freeing NULL made something");
	} else harbol_array_clear(&A[0]);
	harbol_array_clear(&A[1]);
}
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) { cfg = c; DS = C[c].ds; mkops(); sys.nops = nO; }

/* ---- ladder: one operation on arrays of many lengths and element sizes, every element distinct ---- */
enum { NC = (int)(sizeof C / sizeof *C) };
static size_t const LD[] = {1, 2, 4, 5, 7, 8, 12, 16, 20, 24, 31, 32, 33, 40, 48, 63, 64, 65, 72, 100, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 4096, 5000, 65535, 65536, 65537, 70000};
enum { NLD = (int)(sizeof LD / sizeof *LD) };
static void big(uint32_t id, size_t ds, uint8_t *o) { for( size_t i=0; i < ds; i++ ) o[i] = (uint8_t)(i < 4? id >> (8*i) : (id*31 + i*7 + (i >> 8)) ); if( ds > 4 ) for( int i=0; i < 4; i++ ) o[ds-1-(size_t)i] = (uint8_t)(o[ds-1-(size_t)i] + (id >> (8*i))); }
enum { L_APPEND, L_REV, L_DELI, L_DELR, L_SHIFT, L_FIND, L_ADD, L_COPY, L_FILL, L_RESIZE, L_SHRINK, L_POP, L_SET, L_NOPS };
static void ladder_case(size_t ds, size_t n, uint32_t op, size_t i, size_t r) {
	static uint32_t m[600000]; size_t len = n;
	uint8_t *v = __real_malloc(ds + 1), *w = __real_malloc(ds + 1);
	struct HarbolArray a = {0}; CHECK(harbol_array_init(&a, ds, op==L_APPEND? 1 : n), "init of %zu elements of %zu bytes failed", n, ds);
	CHECK(harbol_array_cap(&a) >= (op==L_APPEND? 1 : n), "capacity %zu is below the %zu asked for", harbol_array_cap(&a), n);
	for( size_t k=0; k < n; k++ ) {
		if( harbol_array_full(&a) ) { size_t oc = harbol_array_cap(&a); CHECK(harbol_array_grow(&a, ds) && harbol_array_cap(&a) > oc, "grow from %zu failed", oc); }
		big((uint32_t)k, ds, v);
		if( k & 1 ) CHECK(harbol_array_append(&a, v, ds)==k, "append at %zu of capacity %zu failed", k, a.cap); else CHECK(harbol_array_insert(&a, v, ds), "insert at %zu of capacity %zu failed", k, a.cap);
		m[k] = (uint32_t)k;
	}
	struct HarbolArray b = {0};
	switch( op ) {
	case L_APPEND: break;
	case L_REV: CHECK(harbol_array_swap(&a, ds), "swap failed"); for( size_t k=0; k < n/2; k++ ) { uint32_t t = m[k]; m[k] = m[n-1-k]; m[n-1-k] = t; } break;
	case L_DELI: CHECK(harbol_array_del_by_index(&a, i, ds)==(i < n), "del_by_index(%zu) of %zu", i, n); r = 1; goto gone;
	case L_DELR: CHECK(harbol_array_del_by_range(&a, i, ds, r)==(i < n), "del_by_range(%zu,%zu) of %zu", i, r, n); goto gone;
	case L_SHIFT: CHECK(harbol_array_shift_up(&a, i, ds, r)==(i < n), "shift_up(%zu,%zu) of %zu", i, r, n);
	gone: if( i < n ) { if( r==0 ) r = 1; if( r > n-i ) r = n-i; memmove(m+i, m+i+r, (n-i-r)*sizeof *m); len = n-r; } break;
	case L_FIND: { if( i >= n ) break; big((uint32_t)i, ds, v);
		size_t cnt = 0, first = SIZE_MAX, last = SIZE_MAX;
		for( size_t k=0; k < n; k++ ) { bool const same = ds >= 4? k==i : ((k ^ i) & (((size_t)1 << 8*ds) - 1))==0; if( same ) { cnt++; if( first==SIZE_MAX ) first = k; last = k; } }
		CHECK(harbol_array_item_count(&a, v, ds)==cnt, "item_count of element %zu of %zu is not %zu", i, n, cnt);
		CHECK(harbol_array_index_of(&a, v, ds, 0)==first && harbol_array_index_of(&a, v, ds, last)==last && harbol_array_index_of(&a, v, ds, last+1)==SIZE_MAX, "index_of element %zu of %zu is wrong", i, n);
		v[ds-1] ^= 0x5A; if( ds > 4 ) CHECK(harbol_array_item_count(&a, v, ds)==0 && harbol_array_index_of(&a, v, ds, 0)==SIZE_MAX, "an element that differs in the last byte is found"); v[ds-1] ^= 0x5A;
		CHECK(harbol_array_del_by_val(&a, v, ds), "del_by_val of element %zu failed", i); memmove(m+first, m+first+1, (n-first-1)*sizeof *m); len = n-1;
		} break;
	case L_ADD: { size_t bn = r; CHECK(harbol_array_init(&b, ds, bn), "init"); for( size_t k=0; k < bn; k++ ) { big((uint32_t)(1000000+k), ds, v); CHECK(harbol_array_insert(&b, v, ds), "insert"); }
		while( a.cap < n + bn ) { CHECK(!harbol_array_add(&a, &b, ds) && a.len==n, "add beyond the capacity"); CHECK(harbol_array_grow(&a, ds), "grow"); }
		CHECK(harbol_array_add(&a, &b, ds), "add of %zu to %zu of capacity %zu failed", bn, n, a.cap); for( size_t k=0; k < bn; k++ ) m[n+k] = (uint32_t)(1000000+k); len = n+bn; } break;
	case L_COPY: { CHECK(harbol_array_init(&b, ds, r) , "init"); big(77, ds, v); CHECK(harbol_array_fill(&b, v, ds), "fill"); CHECK(harbol_array_copy(&b, &a, ds), "copy failed"); size_t const e = n < b.cap? n : b.cap; CHECK(b.len==e, "copy has %zu elements, should be %zu", b.len, e);
		for( size_t k=0; k < e; k++ ) { big(m[k], ds, v); CHECK(!memcmp(b.table + k*ds, v, ds), "copied element %zu of %zu is wrong", k, n); } } break;
	case L_FILL: big(99, ds, v); CHECK(harbol_array_fill(&a, v, ds) && a.len==a.cap && a.cap <= 600000, "fill failed"); len = a.cap; CHECK(harbol_array_item_count(&a, v, ds)==len && harbol_array_index_of(&a, v, ds, 0)==0 && harbol_array_index_of(&a, v, ds, len-1)==len-1, "item_count of %zu equal elements is %zu", len, harbol_array_item_count(&a, v, ds)); for( size_t k=0; k < len; k++ ) m[k] = 99; break;
	case L_RESIZE: { size_t const oc = a.cap; bool const ok = harbol_array_resize(&a, ds, r); CHECK(ok==(a.cap != oc) && a.cap >= r, "resize(%zu) from %zu returned %d, capacity %zu", r, oc, ok, a.cap); if( len > a.cap ) len = a.cap; } break;
	case L_SHRINK: { CHECK(harbol_array_resize(&a, ds, n*3+9), "resize"); size_t const oc = a.cap; bool const ok = harbol_array_shrink(&a, ds, r & 1); CHECK(ok==(a.cap < oc) && a.cap >= n, "shrink returned %d, capacity %zu -> %zu", ok, oc, a.cap); if( r & 1 ) CHECK((ok || oc <= ARRAY_DEFAULT_SIZE || n==oc) && (!ok || a.cap==n), "exact shrink left capacity %zu for %zu elements", a.cap, n); } break;
	case L_POP: for( size_t k=0; k < r && len; k++ ) { len--; big(m[len], ds, v); uint8_t *p = harbol_array_peek(&a, ds); CHECK(p && !memcmp(p, v, ds), "peek at length %zu", len+1); memset(w, 0xA5, ds+1); if( k & 1 ) { CHECK(harbol_array_pop_ex(&a, w, ds) && !memcmp(w, v, ds) && w[ds]==0xA5, "pop_ex at length %zu", len+1); } else { p = harbol_array_pop(&a, ds); CHECK(p && !memcmp(p, v, ds), "pop at length %zu", len+1); } } break;
	case L_SET: big(123456, ds, v); CHECK(harbol_array_set(&a, i, v, ds)==(i < n), "set(%zu) of %zu", i, n); if( i < n ) m[i] = 123456; break;
	}
	CHECK(harbol_array_len(&a)==len, "length is %zu, should be %zu", harbol_array_len(&a), len);
	CHECK(len <= harbol_array_cap(&a), "length exceeds the capacity");
	for( size_t k=0; k < len; k++ ) { big(m[k], ds, v); uint8_t *p = harbol_array_get(&a, k, ds); CHECK(p==a.table + k*ds && !memcmp(p, v, ds), "element %zu of %zu is wrong", k, len); if( len < 200 || k % 97==0 || k+2 >= len ) { memset(w, 0xA5, ds+1); CHECK(harbol_array_get_ex(&a, k, w, ds) && !memcmp(w, v, ds) && w[ds]==0xA5, "get_ex(%zu) of %zu", k, len); } }
	CHECK(harbol_array_get(&a, len, ds)==NULL, "element past the end is there");
	if( a.cap ) { volatile uint8_t x = a.table[a.cap*ds-1]; (void)x; }
	harbol_array_clear(&a); harbol_array_clear(&b); __real_free(v); __real_free(w);
	vp_outcome(vp_hash(m, len*sizeof *m, 3));
}
static void ladder_run(uint32_t di, uint32_t n, uint32_t op, uint32_t i, uint32_t r) {
	uint32_t t[5] = {di, n, op, i, r}; if( !vp_case(t, 5) ) return;
	vp_note("element size %zu, %u elements, operation %u, index %u, amount %u", LD[di], n, op, i, r);
	ladder_case(LD[di], n, op, i, r); vp_case_done();
}
static void ladder(int c) {
	uint32_t const di = (uint32_t)c; size_t const ds = LD[di]; size_t const budget = vp_tier? 8000000 : 2000000;
	static uint32_t const far[] = {300, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 131075};
	uint32_t const dense = ds <= 8? (vp_tier? 300 : 140) : ds <= 128? 70 : ds <= 300? 24 : ds <= 5000? 10 : 5;
	for( uint32_t q=0; q < dense + sizeof far/sizeof *far; q++ ) {
		uint32_t const n = q < dense? q+1 : far[q-dense]; if( n*ds > budget || (n > 100000 && ds > 2 && !vp_tier) ) continue;
		bool const small = n*ds <= 4096;
		uint32_t const IXS[] = {0, 1, 2, n/2, n-2, n-1, n, 15, 16, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 65535, 65536};
		ladder_run(di, n, L_APPEND, 0, 0); ladder_run(di, n, L_REV, 0, 0); ladder_run(di, n, L_FILL, 0, 0); ladder_run(di, n, L_SHRINK, 0, 0); ladder_run(di, n, L_SHRINK, 0, 1);
		for( unsigned a=0; a < 20; a++ ) {
			if( IXS[a] > n ) continue; bool dup = false; for( unsigned b=0; b < a; b++ ) if( IXS[b]==IXS[a] ) dup = true; if( dup ) continue;
			if( !small && a > 6 && a % 2 ) continue;
			ladder_run(di, n, L_DELI, IXS[a], 0); ladder_run(di, n, L_SET, IXS[a], 0); if( ds > 2 || n <= 300 ) ladder_run(di, n, L_FIND, IXS[a], 0);
			uint32_t const R[] = {2, 3, n/2, 7, 8, 9, 16, 17, 100, 255, 256, 257, n, n - IXS[a], n - IXS[a] - 1};
			for( unsigned b=0; b < (small? 15u : 3u); b++ ) { if( R[b] > n ) continue; ladder_run(di, n, L_DELR, IXS[a], R[b]); ladder_run(di, n, L_SHIFT, IXS[a], R[b]); }
		}
		uint32_t const S[] = {1, 5, n/2, n-1, n, n+1, 2*n, 100, 256, 257};
		for( unsigned b=0; b < (small? 10u : 5u); b++ ) { if( !S[b] ) continue; if( n + S[b] < 600000 ) ladder_run(di, n, L_ADD, 0, S[b]); ladder_run(di, n, L_COPY, 0, S[b]); ladder_run(di, n, L_RESIZE, 0, S[b]); ladder_run(di, n, L_POP, 0, S[b]); }
	}
}
int vp_nconfigs(void) { return NC + NLD; }
void vp_config_name(int c, char *o, size_t n) { if( c < NC ) snprintf(o, n, "%s", C[c].name); else snprintf(o, n, "ladder-%zu", LD[c-NC]); }
int vp_config_shards(int c) { (void)c; return 1; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } setup(c); vp_bfs(&sys, vp_tier? C[c].dt : C[c].dq, 30000000); }
void vp_replay(int c, uint32_t const *t, size_t n) { if( c >= NC ) { if( n==5 ) ladder_run(t[0], t[1], t[2], t[3], t[4]); return; } setup(c); vp_replay_hist(&sys, t, n); }
