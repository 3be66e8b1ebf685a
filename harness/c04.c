/* C04: tree nodes own data and ordered children. BFS over edit histories. */
#include "vp.h"
#include "tree/tree.h"
char const *const vp_property = "C04";

struct blob { char const *p; size_t n; };
enum { NV = 6, EMPTY = 5 };
static struct blob const VAL[NV] = { {"a",1}, {"ab",2}, {"ac",2}, {"abcdefghijklmnopqrst",20}, {"abcdefg",7}, {"",0} };
struct conf { int preload, grand; int nv; int dq, dt; };
static struct conf const C[] = { {0,0,5,5,6}, {2,1,5,4,5}, {3,0,3,5,6}, {15,0,2,4,5}, {3,2,2,5,6} };
static int cfg;

/* reference tree: nodes in a static pool */
struct node { int v; bool has; int n; int k[40]; struct HarbolTree *impl; };
static struct node N[400]; static int nn;
static struct HarbolTree root; static int R;
static struct HarbolTree *stranger;
static int mk(int v) { N[nn] = (struct node){ .v = v, .has = true }; return nn++; }
static void *ex(int v) { size_t n = VAL[v].n; void *p = __real_malloc(n? n : 1); memcpy(p, VAL[v].p, n); return p; }

enum { SET, INSV, INSN, RMI, RMV, RMN, CLR, INSA, RMA, SETO };
struct op { uint8_t k, t, x; }; static struct op O[300]; static uint32_t nO;
/* targets: 0 root, 1 root.kid0, 2 root.kid[last] */
static void mkops(void) {
	nO = 0; int nv = C[cfg].nv;
	for( int t=0; t < 3; t++ ) {
		for( int v=0; v < nv; v++ ) O[nO++] = (struct op){SET, (uint8_t)t, (uint8_t)v};
		if( t < 2 ) for( int v=0; v < nv; v++ ) O[nO++] = (struct op){INSV, (uint8_t)t, (uint8_t)v};
		if( t < 2 ) for( int v=0; v < nv; v++ ) O[nO++] = (struct op){RMV, (uint8_t)t, (uint8_t)v};
		O[nO++] = (struct op){SET, (uint8_t)t, EMPTY}; 
	}
	O[nO++] = (struct op){INSV, 0, EMPTY}; O[nO++] = (struct op){RMV, 0, EMPTY};
	O[nO++] = (struct op){INSN, 0, 1}; O[nO++] = (struct op){INSN, 1, 0};
	for( int t=0; t < 2; t++ ) for( int i=0; i < 5; i++ ) O[nO++] = (struct op){RMI, (uint8_t)t, (uint8_t)i};
	for( int i=0; i < 5; i++ ) O[nO++] = (struct op){RMN, 0, (uint8_t)i};
	for( int t=0; t < 2; t++ ) for( int x=0; x < 2; x++ ) { O[nO++] = (struct op){INSA, (uint8_t)t, (uint8_t)x}; O[nO++] = (struct op){RMA, (uint8_t)t, (uint8_t)x}; }
	for( int t=0; t < 3; t++ ) O[nO++] = (struct op){CLR, (uint8_t)t, 0};
	for( int t=0; t < 2; t++ ) for( int x=0; x < 2; x++ ) O[nO++] = (struct op){SETO, (uint8_t)t, (uint8_t)x};
}
static void opname(uint32_t i, char *o, size_t s) { struct op p = O[i]; snprintf(o, s, "%s.%s(%d)", (char const*[]){"root","kid0","lastkid"}[p.t], (char const*[]){"set","insert_val","insert_node","rm_index","rm_val","rm_node","clear","insert_val of own data","rm_val by own data","set to a part of own data"}[p.k], p.x); }

static void cmp(struct HarbolTree *t, int r, int depth) {
	struct node *m = &N[r];
	CHECK(harbol_tree_len(t)==(m->has? VAL[m->v].n : 0), "node at depth %d: length %zu, should be %zu", depth, harbol_tree_len(t), m->has? VAL[m->v].n : 0);
	uint8_t *d = harbol_tree_get(t);
	CHECK((d != NULL)==m->has, "node at depth %d: data presence wrong", depth);
	if( m->has ) CHECK(!memcmp(d, VAL[m->v].p, VAL[m->v].n), "node at depth %d has wrong data", depth);
	for( int i=0; i < m->n; i++ ) {
		struct HarbolTree *k = harbol_tree_get_node_by_index(t, (size_t)i); CHECK(k != NULL, "child %d of %d missing at depth %d", i, m->n, depth);
		CHECK(k==N[m->k[i]].impl || N[m->k[i]].impl==NULL, "child %d at depth %d is another node than before", i, depth); N[m->k[i]].impl = k;
		cmp(k, m->k[i], depth+1);
	}
	CHECK(harbol_tree_get_node_by_index(t, (size_t)m->n)==NULL && harbol_tree_get_node_by_index(t, SIZE_MAX)==NULL && harbol_tree_get_node_by_index(t, (size_t)m->n+1)==NULL, "depth %d: more than %d children", depth, m->n);
	for( int b=8; b < 64; b += b < 32? 8 : 31 ) for( size_t e=0; e < 2; e++ ) { size_t const far = ((size_t)1 << b) + e; CHECK(harbol_tree_get_node_by_index(t, far)==NULL && !harbol_tree_rm_index(t, far), "depth %d: index %zu of %d children accepted", depth, far, m->n); }
}
static void observe(struct HarbolTree *t, int r) {
	for( int v=0; v < NV; v++ ) {
		struct HarbolTree *w = NULL; if( v != EMPTY ) for( int i=0; i < N[r].n && !w; i++ ) if( N[N[r].k[i]].has && N[N[r].k[i]].v==v ) w = N[N[r].k[i]].impl;
		void *p = ex(v); struct HarbolTree *g = harbol_tree_get_node_by_val(t, p, VAL[v].n); __real_free(p);
		CHECK(g==w, "lookup of value %d (\"%s\") yields %s", v, VAL[v].p, g==NULL? "nothing" : w==NULL? "a node although absent" : "another node");
	}
}
static void begin(void) {
	nn = 0; memset(&root, 0, sizeof root);
	void *p = ex(1); CHECK(harbol_tree_init(&root, p, VAL[1].n), "init failed"); __real_free(p); R = mk(1);
	p = ex(0); stranger = harbol_tree_new(p, 1); CHECK(stranger != NULL, "new failed"); __real_free(p);
	for( int i=0; i < C[cfg].preload; i++ ) {
		int v = i % C[cfg].nv; void *q = ex(v); CHECK(harbol_tree_insert_val(&root, q, VAL[v].n), "insert failed"); __real_free(q);
		int k = mk(v); N[R].k[N[R].n++] = k;
		for( int g=0; g < C[cfg].grand; g++ ) { struct HarbolTree *kt = harbol_tree_get_node_by_index(&root, (size_t)i); void *z = ex(g); CHECK(kt && harbol_tree_insert_val(kt, z, VAL[g].n), "insert failed"); __real_free(z); int gg = mk(g); N[k].k[N[k].n++] = gg; }
	}
	cmp(&root, R, 0);
}
static int apply(uint32_t o, bool check) {
	struct op const p = O[o];
	struct HarbolTree *t = &root; int r = R;
	if( p.t ) { if( N[R].n==0 || (p.t==2 && N[R].n < 2) ) return 0; int w = p.t==1? 0 : N[R].n-1; r = N[R].k[w]; t = N[r].impl; }
	struct node *m = &N[r]; size_t const vn = p.k <= INSV || p.k==RMV? VAL[p.x].n : 0;
	switch( p.k ) {
	case SET: { void *b = ex(p.x); bool q = harbol_tree_set(t, b, vn); memset(b, 0xDD, vn); __real_free(b); CHECK(q==(vn > 0), "set(%zu bytes) returned %d", vn, q); if( q ) { m->v = p.x; m->has = true; } } break;
	case INSV: { if( m->n > 18 ) return 0; void *b = ex(p.x); bool q = harbol_tree_insert_val(t, b, vn); memset(b, 0xDD, vn); __real_free(b); CHECK(q==(vn > 0), "insert_val(%zu bytes) returned %d", vn, q); if( q ) { int k = mk(p.x); N[r].k[N[r].n++] = k; } } break;
	case INSN: {
		if( m->n > 18 ) return 0;
		void *b = ex(4); struct HarbolTree *x = harbol_tree_new(b, VAL[4].n); CHECK(x != NULL, "new failed"); __real_free(b); int k = mk(4); N[k].impl = x;
		if( p.x ) { void *z = ex(3); CHECK(harbol_tree_insert_val(x, z, VAL[3].n), "insert failed"); __real_free(z); int g = mk(3); N[k].k[N[k].n++] = g; }
		CHECK(harbol_tree_insert_node(t, &x), "insert_node failed"); N[r].k[N[r].n++] = k;
	} break;
	case RMI: { size_t i = p.x==0? 0 : p.x==1? 1 : p.x==2? (size_t)(m->n-1) : p.x==3? (size_t)m->n : SIZE_MAX; if( (p.x==1 && m->n < 2) || (p.x==2 && m->n < 3) || (p.x==0 && m->n < 1) ) return 0; bool q = harbol_tree_rm_index(t, i); CHECK(q==(i < (size_t)m->n), "rm_index(%zu) of %d returned %d", i, m->n, q); if( q ) { memmove(m->k+i, m->k+i+1, ((size_t)m->n-i-1)*sizeof *m->k); m->n--; } } break;
	case RMV: { int w = -1; if( p.x != EMPTY ) for( int i=0; i < m->n; i++ ) if( N[m->k[i]].has && N[m->k[i]].v==p.x ) { w = i; break; } void *b = ex(p.x); bool q = harbol_tree_rm_val(t, b, vn); __real_free(b); CHECK(q==(w >= 0), "rm_val(\"%s\") returned %d", VAL[p.x].p, q); if( q ) { memmove(m->k+w, m->k+w+1, (size_t)(m->n-w-1)*sizeof *m->k); m->n--; } } break;
	case RMN: {
		struct HarbolTree *x; int i = -1;
		if( p.x==3 ) x = stranger; else if( p.x==4 ) { /* a grandchild is not a child */ if( m->n==0 || N[m->k[0]].n==0 ) return 0; x = N[N[m->k[0]].k[0]].impl; }
		else { i = p.x==0? 0 : p.x==1? 1 : m->n-1; if( i >= m->n || i < 0 || (p.x==2 && m->n < 3) ) return 0; x = N[m->k[i]].impl; }
		struct HarbolTree *y = x; bool q = harbol_tree_rm_node(t, &x); CHECK(q==(i >= 0), "rm_node of a %s returned %d", i >= 0? "child" : "non-child", q);
		if( q ) { CHECK(x==NULL, "rm_node left the caller's reference"); memmove(m->k+i, m->k+i+1, (size_t)(m->n-i-1)*sizeof *m->k); m->n--; } else CHECK(x==y, "failing rm_node changed the reference");
	} break;
	/* values handed over from within the tree */
	case INSA: { int w = p.x==0? R : m->n? m->k[m->n-1] : -1; if( m->n > 18 || w < 0 || !N[w].has ) return 0; struct HarbolTree *from = p.x==0? &root : N[w].impl; bool q = harbol_tree_insert_val(t, from->data, from->len); CHECK(q, "insert_val of a node's own data failed"); int k = mk(N[w].v); N[r].k[N[r].n++] = k; } break;
	case RMA: { int i = p.x==0? 0 : m->n-1; if( i < p.x || i >= m->n || !N[m->k[i]].has ) return 0; struct HarbolTree *g = N[m->k[i]].impl; int w = 0; while( !N[m->k[w]].has || N[m->k[w]].v != N[m->k[i]].v ) w++; CHECK(harbol_tree_get_node_by_val(t, g->data, g->len)==N[m->k[w]].impl, "lookup by a child's own data"); bool q = harbol_tree_rm_val(t, g->data, g->len); CHECK(q, "rm_val by a child's own data failed"); memmove(m->k+w, m->k+w+1, (size_t)(m->n-w-1)*sizeof *m->k); m->n--; } break;
	case SETO: { /* every end (x=0) or every beginning (x=1) of the node's own value, then the value again */
		if( !m->has ) return 0;
		struct blob const b = VAL[m->v];
		for( size_t o=0; o < b.n; o++ ) {
			CHECK(harbol_tree_set(t, (uint8_t*)harbol_tree_get(t) + (p.x? 0 : o), b.n-o), "set to a part of the node's own value failed");
			CHECK(harbol_tree_len(t)==b.n-o && !memcmp(harbol_tree_get(t), b.p + (p.x? 0 : o), b.n-o), "set to %zu bytes at %zu of the node's own value stored something else", b.n-o, p.x? (size_t)0 : o);
			void *e = ex(m->v); CHECK(harbol_tree_set(t, e, b.n), "set failed"); __real_free(e);
		}
	} break;
	case CLR: harbol_tree_clear(t); m->n = 0; m->has = false; break;
	}
	cmp(&root, R, 0);
	if( check ) { observe(&root, R); if( N[R].n ) observe(N[N[R].k[0]].impl, N[R].k[0]); cmp(&root, R, 0); CHECK(harbol_tree_len(stranger)==1, "an unrelated tree changed"); }
	return 1;
}
static void ser(struct vp_buf *b, struct HarbolTree *t) {
	vp_put64(b, t->data != NULL); vp_put64(b, t->len); if( t->data ) vp_put(b, t->data, t->len);
	vp_put64(b, t->kids.cap); vp_put64(b, t->kids.len);
	for( size_t i=0; i < t->kids.len; i++ ) ser(b, ((struct HarbolTree**)t->kids.table)[i]);
}
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf, 0, cap}; ser(&b, &root); return b.n; }
static void end(void) { harbol_tree_clear(&root); CHECK(root.data==NULL, "clear left data"); harbol_tree_free(&stranger); CHECK(stranger==NULL, "free left the pointer"); harbol_tree_free(&stranger); }
static struct vp_sys sys = {0, begin, apply, canon, end, opname};
static void setup(int c) { cfg = c; mkops(); sys.nops = nO; }

/* ---- ladder: many children, large data, deep nesting ---- */
enum { NC = (int)(sizeof C / sizeof *C), NLAD = 3 };
static uint8_t LB[70001];
static size_t lval(uint32_t sch, uint32_t i) { size_t const z = sch==0? 4 : sch==1? i % 700 + 1 : sch==2? 300 : 70000; for( size_t b=0; b < z; b++ ) LB[b] = (uint8_t)(b*11 + 3); if( z >= 4 ) { for( int b=0; b < 4; b++ ) LB[z-1-(size_t)b] = (uint8_t)(i >> 8*b); } else for( size_t b=0; b < z; b++ ) LB[b] = (uint8_t)(i + 7*b); return z; }
static struct { struct HarbolTree *t; uint32_t v; } LK[80000]; static size_t lk;
static void lkids(struct HarbolTree *t, uint32_t sch) {
	for( size_t i=0; i < lk; i++ ) { struct HarbolTree *k = harbol_tree_get_node_by_index(t, i); CHECK(k && k==LK[i].t, "child %zu of %zu is not the node it was", i, lk); size_t const z = lval(sch, LK[i].v); CHECK(harbol_tree_len(k)==z && harbol_tree_get(k) && !memcmp(harbol_tree_get(k), LB, z), "child %zu of %zu has wrong data", i, lk); }
	CHECK(!harbol_tree_get_node_by_index(t, lk), "more than %zu children", lk);
}
static size_t lfirst(uint32_t sch, uint32_t v) { size_t const z = lval(sch, v); static uint8_t w[70001]; memcpy(w, LB, z); for( size_t i=0; i < lk; i++ ) { if( LK[i].v==v ) return i; if( sch==1 && lval(sch, LK[i].v)==z && !memcmp(LB, w, z) ) return i; } return SIZE_MAX; }
enum { Y_KEEP, Y_RMI, Y_RMV, Y_RMN, Y_GETV, Y_SET, Y_DRAIN, Y_NODES, Y_NOPS };
static uint32_t subs(uint32_t i) { return i % 37==36? 70 : i % 11==10? 17 : i % 7; } /* children of inserted nodes */
static void ladder_wide(uint32_t n, uint32_t sch, uint32_t op, uint32_t a) {
	struct HarbolTree *t = harbol_tree_new("root", 5); CHECK(t != NULL, "new"); lk = 0;
	for( uint32_t i=0; i < n; i++ ) { size_t const z = lval(sch, i); uint8_t *p = __real_malloc(z); memcpy(p, LB, z);
		if( op==Y_NODES || i % 5==4 ) { struct HarbolTree *x = harbol_tree_new(p, z); for( uint32_t g=0; x && op==Y_NODES && g < subs(i); g++ ) CHECK(harbol_tree_insert_val(x, &(uint16_t){(uint16_t)(i*3 + g)}, 2), "insert"); CHECK(x && harbol_tree_insert_node(t, &x), "insert_node as child %u failed", i); } else CHECK(harbol_tree_insert_val(t, p, z), "insert_val as child %u failed", i);
		memset(p, 0xDD, z); __real_free(p); LK[lk].t = harbol_tree_get_node_by_index(t, i); CHECK(LK[lk].t, "child %u is missing", i); LK[lk++].v = i; }
	if( op != Y_KEEP ) lkids(t, sch);
	switch( op ) {
	case Y_RMI: CHECK(harbol_tree_rm_index(t, a)==(a < n), "rm_index(%u) of %u", a, n); if( a < n ) { memmove(LK+a, LK+a+1, (lk-a-1)*sizeof *LK); lk--; } break;
	case Y_RMV: { size_t const z = lval(sch, a); uint8_t *p = __real_malloc(z); memcpy(p, LB, z); size_t const w = lfirst(sch, a); CHECK(harbol_tree_rm_val(t, p, z)==(w != SIZE_MAX), "rm_val of value %u among %zu", a, lk); __real_free(p); if( w != SIZE_MAX ) { memmove(LK+w, LK+w+1, (lk-w-1)*sizeof *LK); lk--; } } break;
	case Y_RMN: { if( a >= n ) break; struct HarbolTree *x = LK[a].t; CHECK(harbol_tree_rm_node(t, &x) && !x, "rm_node of child %u of %u", a, n); memmove(LK+a, LK+a+1, (lk-a-1)*sizeof *LK); lk--; } break;
	case Y_GETV: { size_t const z = lval(sch, a); uint8_t *p = __real_malloc(z); memcpy(p, LB, z); size_t const w = lfirst(sch, a); struct HarbolTree *g = harbol_tree_get_node_by_val(t, p, z); CHECK(g==(w==SIZE_MAX? NULL : LK[w].t), "lookup of value %u among %u yields %s", a, n, g? "another node" : "nothing"); if( z > 4 ) { p[0] ^= 1; if( sch != 1 ) CHECK(!harbol_tree_get_node_by_val(t, p, z), "a value that differs in its first byte is found"); } __real_free(p); } break;
	case Y_SET: for( uint32_t s2=0; s2 < 8; s2++ ) { if( a >= n ) break; size_t const z = lval(s2 & 1? sch : (s2/2) % 3, a + (s2 & 1? 0 : s2*41)); uint8_t *p = __real_malloc(z); memcpy(p, LB, z); CHECK(harbol_tree_set(LK[a].t, p, z), "set failed"); CHECK(harbol_tree_len(LK[a].t)==z && !memcmp(harbol_tree_get(LK[a].t), p, z), "set of %zu bytes stored something else", z); __real_free(p); } break;
	case Y_DRAIN: while( lk ) { size_t const i = a==0? 0 : a==1? lk-1 : a==2? lk/2 : lk*5/7; CHECK(harbol_tree_rm_index(t, i), "rm_index(%zu) of %zu", i, lk); memmove(LK+i, LK+i+1, (lk-i-1)*sizeof *LK); lk--; if( lk < 70 || lk % 32==0 ) lkids(t, sch); } CHECK(harbol_tree_insert_val(t, "z", 1), "insert after draining"); LK[0].t = harbol_tree_get_node_by_index(t, 0); CHECK(LK[0].t && harbol_tree_len(LK[0].t)==1, "insert after draining"); lk = 0; break;
	}
	if( op==Y_NODES ) for( uint32_t i=0; i < n; i++ ) { for( uint32_t g=0; g < subs(i); g++ ) { struct HarbolTree *x = harbol_tree_get_node_by_index(LK[i].t, g); CHECK(x && harbol_tree_len(x)==2 && !memcmp(harbol_tree_get(x), &(uint16_t){(uint16_t)(i*3 + g)}, 2), "child %u of the inserted node %u is wrong", g, i); } CHECK(!harbol_tree_get_node_by_index(LK[i].t, subs(i)), "an inserted node has more children than it had"); }
	if( op != Y_DRAIN ) lkids(t, sch); CHECK(harbol_tree_len(t)==5 && !memcmp(harbol_tree_get(t), "root", 5), "the parent's data changed");
	vp_outcome(lk*31 + op); harbol_tree_free(&t);
}
/* a chain of depth n with k kids on each level; cut at level a */
static void ladder_deep(uint32_t n, uint32_t k, uint32_t a) {
	struct HarbolTree *t = harbol_tree_new("d", 1), *c = t; CHECK(t, "new"); static struct HarbolTree *at[2100];
	for( uint32_t i=0; i < n; i++ ) { at[i] = c; for( uint32_t j=0; j < k; j++ ) { uint32_t v[2] = {i, j}; CHECK(harbol_tree_insert_val(c, v, sizeof v), "insert at depth %u", i); } c = harbol_tree_get_node_by_index(c, i % k); }
	for( uint32_t i=0; i < n; i++ ) for( uint32_t j=0; j < k; j++ ) { uint32_t v[2] = {i, j}; struct HarbolTree *x = harbol_tree_get_node_by_index(at[i], j), *y = harbol_tree_get_node_by_val(at[i], v, sizeof v); CHECK(x && x==y && !memcmp(harbol_tree_get(x), v, sizeof v), "child %u at depth %u is wrong", j, i); if( i+1 < n && j==i % k ) CHECK(x==at[i+1], "child %u at depth %u is another node", j, i); }
	if( a < n ) { CHECK(harbol_tree_rm_index(at[a], a % k), "cut at depth %u", a); for( uint32_t i=0; i <= a; i++ ) for( uint32_t j=0; j < k - (i==a); j++ ) { uint32_t v[2] = {i, j + (i==a && j >= a % k)}; struct HarbolTree *x = harbol_tree_get_node_by_index(at[i], j); CHECK(x && !memcmp(harbol_tree_get(x), v, sizeof v), "child %u at depth %u is wrong after a cut at %u", j, i, a); } }
	else { harbol_tree_clear(t); CHECK(!harbol_tree_get(t) && !harbol_tree_get_node_by_index(t, 0), "cleared tree holds something"); }
	harbol_tree_free(&t);
}
/* node data of n bytes set to m bytes */
static void ladder_data(uint32_t n, uint32_t m) {
	uint8_t *p = __real_malloc(n), *q = __real_malloc(m); for( uint32_t i=0; i < n; i++ ) p[i] = (uint8_t)(i*3+1); for( uint32_t i=0; i < m; i++ ) q[i] = (uint8_t)(i*5+2);
	struct HarbolTree t = {0}; CHECK(harbol_tree_init(&t, p, n) && harbol_tree_len(&t)==n && !memcmp(harbol_tree_get(&t), p, n), "init with %u bytes", n);
	CHECK(harbol_tree_set(&t, q, m) && harbol_tree_len(&t)==m && !memcmp(harbol_tree_get(&t), q, m), "set %u bytes to %u", n, m);
	CHECK(harbol_tree_set(&t, p, n) && harbol_tree_len(&t)==n && !memcmp(harbol_tree_get(&t), p, n), "set %u bytes back to %u", m, n);
	CHECK(harbol_tree_insert_val(&t, q, m) && harbol_tree_get_node_by_val(&t, q, m)==harbol_tree_get_node_by_index(&t, 0), "child of %u bytes", m); if( m > 1 ) CHECK(!harbol_tree_get_node_by_val(&t, q, m-1), "a child is found by a prefix of its data");
	q[m-1] ^= 1; CHECK(!harbol_tree_get_node_by_val(&t, q, m) && !harbol_tree_rm_val(&t, q, m), "a child of %u bytes is found by other data", m); q[m-1] ^= 1; CHECK(harbol_tree_rm_val(&t, q, m) && !harbol_tree_get_node_by_index(&t, 0), "rm_val of %u bytes", m);
	harbol_tree_clear(&t); __real_free(p); __real_free(q);
}
static void ladder_run(int c, uint32_t n, uint32_t b, uint32_t d_, uint32_t a) {
	uint32_t t[4] = {n, b, d_, a}; if( !vp_case(t, 4) ) return; vp_note("ladder %d: %u, %u, %u, %u", c, n, b, d_, a);
	if( c==0 ) ladder_wide(n, b, d_, a); else if( c==1 ) ladder_deep(n, b, a); else ladder_data(n, b);
	vp_case_done();
}
static void ladder(int c) {
	static uint32_t const far[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 4097, 65535, 65536, 65537, 70000};
	if( c==0 ) for( uint32_t q=0; q < 80 + 21; q++ ) { uint32_t const n = q < 80? q+1 : far[q-80];
		for( uint32_t s=0; s < 3; s++ ) { if( n > 2000 && s ) continue; uint32_t const A[] = {0, 1, n/2, n-2, n-1, n, 3, 15, 16, 31, 32, 63, 64, 128, 254, 255, 256}; ladder_run(c, n, s, Y_KEEP, 0);
			for( uint32_t o=Y_RMI; o < Y_NOPS; o++ ) for( unsigned a=0; a < 17; a++ ) { if( A[a] > n ) continue; if( (n > 2000 && a > 3) || (n > 10000 && a) ) continue; if( o==Y_DRAIN ? (a > 3 || n > (vp_tier? 3000u : 600u)) : o==Y_NODES && a ) continue; ladder_run(c, n, s, o, o==Y_DRAIN? a : A[a]); } }
	}
	else if( c==1 ) for( uint32_t q=0; q < 60 + 14; q++ ) { uint32_t const n = q < 60? q+1 : far[q-60]; for( uint32_t k=1; k < (n > 300? 4u : 7u); k++ ) { uint32_t const A[] = {0, 1, n/2, n-1, n}; for( int a=0; a < 5; a++ ) ladder_run(c, n, k, 0, A[a]); } }
	else for( uint32_t q=0; q < 150 + 21; q++ ) { uint32_t const n = q < 150? q+1 : far[q-150]; for( uint32_t r=0; r < 150 + 21; r++ ) { uint32_t const m = r < 150? r+1 : far[r-150]; ladder_run(c, n, m, 0, 0); } }
}
int vp_nconfigs(void) { return NC + NLAD; }
void vp_config_name(int c, char *o, size_t n) { if( c >= NC ) { snprintf(o, n, "ladder-%s", (char const*[]){"children","depth","data"}[c-NC]); return; } snprintf(o, n, "kids%d-grandkids%d-vals%d", C[c].preload, C[c].grand, C[c].nv); }
int vp_config_shards(int c) { (void)c; return 1; }
void vp_explore(int c) { if( c >= NC ) { ladder(c-NC); return; } setup(c); vp_bfs(&sys, vp_tier? C[c].dt : C[c].dq, 20000000); }
void vp_replay(int c, uint32_t const *t, size_t l) { if( c >= NC ) { if( l==4 ) ladder_run(c-NC, t[0], t[1], t[2], t[3]); return; } setup(c); vp_replay_hist(&sys, t, l); }
