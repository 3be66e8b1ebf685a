/* C24: every operation of every bounded history, with every allocation inside it failing (alone, in pairs, and every one from some point on).
   A subject and a twin run the same history; only the subject's last operation meets the failure. It must then either have worked like the twin's, or have reported failure and changed nothing; after that the operation is repeated and all others are tried, the subject behaving like the twin; finally everything is released.
   Operations that build a text or a tree piece by piece ("loose") may deliver a part of it, but a valid one. */
#define _GNU_SOURCE
#include "vp.h"
#include "array/array.h"
#include "deque/deque.h"
#include "tree/tree.h"
#include "tuple/tuple.h"
#include "map/map.h"
#include "str/str.h"
#include "bytebuffer/bytebuffer.h"
#include "variant/variant.h"
#include "cfg/cfg.h"
#include "msg_span/msg_span.h"
#include "lex/lex.h"
#include "plugins/plugins.h"
#include "allocators/mempool/mempool.h"
#include "allocators/objpool/objpool.h"
#include "allocators/region/region.h"
#include "allocators/bistack/bistack.h"
#include <dlfcn.h>
char const *const vp_property = "C24";
enum { FAIL = 0, OK = 1, LOOSE = 2 /* flag in the op's result: may have delivered a part */, DISABLED = 4 };
static uint8_t ob_mem[2][1<<16]; static struct vp_buf ob[2]; static int cur;
static void obs(void const *p, size_t n) { vp_put(&ob[cur], p, n); }
static void obn(uint64_t v) { obs(&v, sizeof v); }
static void obstr(struct HarbolString const *s) { obn(s->len); CHECK(s->cstr==NULL? s->len==0 : strlen(s->cstr)==s->len, "a string of length %zu holds %zu characters", s->len, s->cstr? strlen(s->cstr) : 0); if( s->cstr ) obs(s->cstr, s->len); }
static void put_text(char const *name, char const *text) { FILE *f = fopen(name, "w"); fputs(text, f); fclose(f); }
#define B(x) ((x)? OK : FAIL)
typedef struct mod { char const *name; uint32_t nmake, nops; int depth, shards; bool make_loose; bool (*make)(int s, uint32_t v); int (*apply)(int s, uint32_t op); void (*dump)(int s); void (*destroy)(int s); } mod;

/* ---------------- array ---------------- */
static struct HarbolArray A[2];
static bool a_make(int s, uint32_t v) { if( v < 3 ) { static size_t const n[] = {0, 1, 4}; bool r; A[s] = harbol_array_make(4, n[v], &r); return r; } struct HarbolArray *p = harbol_array_new(4, v-3); if( !p ) return false; A[s] = *p; free(p); return true; }
static int a_apply(int s, uint32_t op) {
	struct HarbolArray *a = &A[s]; uint32_t x = 7, y = 9; static uint32_t o3[4] = {1, 2, 3, 4}; struct HarbolArray o = harbol_array_make_from_array(o3, 4, 4), one = harbol_array_make_from_array(o3, 4, 1);
	switch( op ) {
	case 0: return B(harbol_array_insert(a, &x, 4)); case 1: { size_t r = harbol_array_append(a, &y, 4); if( r==SIZE_MAX ) return FAIL; obn(r); return OK; }
	case 2: return B(harbol_array_grow(a, 4)); case 3: return B(harbol_array_resize(a, 4, 3)); case 4: return B(harbol_array_resize(a, 4, 9)); case 5: return B(harbol_array_shrink(a, 4, true)); case 6: return B(harbol_array_shrink(a, 4, false));
	case 7: return B(harbol_array_add(a, &o, 4)); case 8: return B(harbol_array_copy(a, &o, 4)); case 9: return B(harbol_array_copy(a, &one, 4)); case 10: return B(harbol_array_fill(a, &x, 4)); case 11: { void *p = harbol_array_pop(a, 4); if( p ) obs(p, 4); return B(p); }
	case 12: return B(harbol_array_del_by_index(a, 0, 4)); case 13: harbol_array_wipe(a, 4); return OK; case 14: return B(harbol_array_add(a, a, 4)); } abort();
}
static void a_dump(int s) { obn(A[s].len); obn(A[s].cap); CHECK(A[s].len <= A[s].cap, "array: %zu elements in room for %zu", A[s].len, A[s].cap); if( A[s].len ) obs(A[s].table, A[s].len * 4); }
static void a_destroy(int s) { harbol_array_clear(&A[s]); }
/* ---------------- deque ---------------- */
static struct HarbolDeque D[2];
static bool d_make(int s, uint32_t v) { if( v < 3 ) { bool r; D[s] = harbol_deque_make(v, &r); return r; } struct HarbolDeque *p = harbol_deque_new(v-3); if( !p ) return false; D[s] = *p; free(p); return true; }
static int d_apply(int s, uint32_t op) {
	struct HarbolDeque *d = &D[s]; char x[9] = "abcdefgh", o[9]; bool r;
	switch( op ) { case 0: case 1: { x[0] += (char)op; size_t n = op? harbol_deque_prepend(d, x, 9) : harbol_deque_append(d, x, 9); if( n==SIZE_MAX ) return FAIL; obn(n); return OK; }
	case 2: r = harbol_deque_pop_front(d, o, 9); if( r ) obs(o, 9); return B(r); case 3: r = harbol_deque_pop_back(d, o, 9); if( r ) obs(o, 9); return B(r); case 4: harbol_deque_reset(d); return OK; } abort();
}
static void d_dump(int s) { size_t n = 0; obn(harbol_deque_count(&D[s])); for( size_t i=harbol_deque_head(&D[s]); i != SIZE_MAX; i = harbol_deque_next(&D[s], i) ) { CHECK(++n <= D[s].len, "deque: more nodes than counted"); obn(i); void *p = harbol_deque_get_data(&D[s], i); CHECK(p, "deque: a node has no data"); obs(p, 9); } CHECK(n==D[s].len, "deque: fewer nodes than counted"); for( size_t i=harbol_deque_tail(&D[s]); i != SIZE_MAX; i = harbol_deque_prev(&D[s], i) ) { CHECK(n-- > 0, "deque: more nodes backwards"); obn(i); } }
static void d_destroy(int s) { harbol_deque_clear(&D[s]); }
/* ---------------- tree ---------------- */
static struct HarbolTree *T[2];
static bool t_make(int s, uint32_t v) { if( v ) { T[s] = harbol_tree_new("root!", 5); return T[s]; } T[s] = calloc(1, sizeof *T[s]); if( !T[s] ) return false; if( harbol_tree_init(T[s], "r", 1) ) return true; free(T[s]); return false; }
static int t_apply(int s, uint32_t op) {
	struct HarbolTree *t = T[s], *k = harbol_tree_get_node_by_index(t, 0);
	switch( op ) { case 0: return B(harbol_tree_set(t, "changed root", 12)); case 1: return B(harbol_tree_set(t, "x", 1)); case 2: return B(harbol_tree_insert_val(t, "kid", 3)); case 3: return k? B(harbol_tree_insert_val(k, "grandkid", 8)) : DISABLED;
	case 4: { struct HarbolTree *n = harbol_tree_new("node", 4); if( !n ) return FAIL; bool r = harbol_tree_insert_node(t, &n); if( !r ) harbol_tree_free(&n); return B(r); }
	case 5: return B(harbol_tree_rm_index(t, 0)); case 6: return B(harbol_tree_rm_val(t, "node", 4)); case 7: return k? B(harbol_tree_set(k, "a longer kid", 12)) : DISABLED; } abort();
}
static void t_rec(struct HarbolTree *t) { obn(harbol_tree_len(t)); CHECK(t->data, "tree: a node without data"); obs(harbol_tree_get(t), t->len); obn(t->kids.len); for( size_t i=0; i < t->kids.len; i++ ) { struct HarbolTree *k = harbol_tree_get_node_by_index(t, i); CHECK(k, "tree: missing child"); t_rec(k); } }
static void t_dump(int s) { t_rec(T[s]); }
static void t_destroy(int s) { harbol_tree_free(&T[s]); }
/* ---------------- tuple ---------------- */
static struct HarbolTuple *U[2];
static bool u_make(int s, uint32_t v) {
	static size_t const sz[3][4] = {{1, 8, 2, 4}, {4, 4, 4, 4}, {1, 1, 1, 16}}; size_t len = 1 + v/6%4; bool packed = v%2; size_t const *z = sz[v/2%3];
	if( v < 24 ) { U[s] = harbol_tuple_new(len, z, packed); return U[s]; }
	U[s] = calloc(1, sizeof *U[s]); if( !U[s] ) return false; bool r; if( v < 48 ) *U[s] = harbol_tuple_create(len, z, packed, &r); else r = harbol_tuple_init(U[s], len, z, packed); if( !r ) free(U[s]); return r;
}
static int u_apply(int s, uint32_t op) { char v[16] = "0123456789abcde"; return B(harbol_tuple_set(U[s], op, v)); }
static void u_dump(int s) { struct HarbolTuple *t = U[s]; obn(t->len); obn(harbol_tuple_fields(t)); for( size_t i=0; i < harbol_tuple_fields(t); i++ ) { obn(harbol_tuple_field_size(t, i)); void *p = harbol_tuple_get(t, i); CHECK(p, "tuple: field missing"); obs(p, harbol_tuple_field_size(t, i)); } }
static void u_destroy(int s) { harbol_tuple_free(&U[s]); }
/* ---------------- map ---------------- */
static struct HarbolMap M[2];
static bool m_make(int s, uint32_t v) { bool r; if( v < 3 ) M[s] = harbol_map_make(v==2? 5 : v, &r); else { struct HarbolMap *p = harbol_map_new(1); if( !p ) return false; M[s] = *p; free(p); r = true; } M[s].seed = 3; return r; }
static int m_apply(int s, uint32_t op) {
	struct HarbolMap *m = &M[s]; static char const *const K[] = {"a", "bb", "ccc", "dddd"};
	if( op < 4 ) return B(harbol_map_insert(m, K[op], op+2, "value", op+1)); if( op < 6 ) return B(harbol_map_key_set(m, K[op-4], op-2, "another value", 3*(op-3))); switch( op ) { case 6: return B(harbol_map_idx_set(m, 0, "xx", 2)); case 7: return B(harbol_map_key_rm(m, K[0], 2)); case 8: return B(harbol_map_idx_rm(m, 0)); case 9: return B(harbol_map_rehash(m, 8)); case 10: return B(harbol_map_rehash(m, 1)); case 11: return B(harbol_map_rehash(m, m->len)); } abort();
}
static void m_dump(int s) { struct HarbolMap *m = &M[s]; obn(m->len); CHECK(m->len <= m->cap, "map: more entries than room"); for( size_t i=0; i < m->len; i++ ) { CHECK(m->keys[i] && m->datum[i], "map: entry without key or value"); obn(m->keylens[i]); obs(m->keys[i], m->keylens[i]); obn(m->datalens[i]); obs(m->datum[i], m->datalens[i]); CHECK(harbol_map_get_entry_index(m, m->keys[i], m->keylens[i])==i, "map: an entry is not found by its key"); } obn(harbol_map_has_key(m, "zz", 3)); }
static void m_destroy(int s) { harbol_map_clear(&M[s]); }
/* ---------------- string ---------------- */
static struct HarbolString S_[2];
static bool s_make(int s, uint32_t v) { bool r; if( v==0 ) { S_[s] = (struct HarbolString){0}; return true; } if( v==1 ) { S_[s] = harbol_string_make("hello", &r); return r; } if( v==2 ) { S_[s] = (struct HarbolString){0}; return harbol_string_init(&S_[s], "a b"); } struct HarbolString *p = harbol_string_new(v==3? "new" : v==4? NULL : ""); if( !p ) return false; S_[s] = *p; free(p); return true; }
static int s_apply(int s, uint32_t op) {
	struct HarbolString *t = &S_[s]; struct HarbolString o = {(char *)"other", 5}; int r;
	switch( op ) {
	case 0: return B(harbol_string_add_char(t, 'c')); case 1: return B(harbol_string_add_char_rep(t, 'r', 5)); case 2: return B(harbol_string_add_str(t, &o)); case 3: return B(harbol_string_add_str(t, t)); case 4: return B(harbol_string_add_cstr(t, " cs ")); case 5: return B(harbol_string_copy_str(t, &o)); case 6: return B(harbol_string_copy_cstr(t, "copied text")); case 7: return B(harbol_string_copy_cstr(t, "c"));
	case 8: case 9: r = harbol_string_format(t, op==8, "%d-%s", 1234567, "abc"); if( r < 0 ) return FAIL; obn((uint64_t)r); return OK;
	case 10: return B(harbol_string_replace_cstr(t, "c", "longer", SIZE_MAX)); case 11: return B(harbol_string_replace_cstr(t, "other", "o", 1)); case 12: return t->len? B(harbol_string_replace_range(t, 0, 0, "range")) : DISABLED; case 13: return t->len > 2? B(harbol_string_replace_range(t, 1, 2, "")) : DISABLED;
	case 14: obn(harbol_string_rm_char(t, 'l')); return OK; case 15: obn(harbol_string_trim_spaces(t)); return OK; case 16: return B(harbol_string_reverse(t)); case 17: return B(harbol_string_read_file(t, "in.txt")); case 18: return B(harbol_string_replace_char(t, 'o', '0')); case 19: harbol_string_clear(t); return OK;
	case 20: return B(harbol_string_read_file(t, "nothing")); case 21: { obn(harbol_string_is_palindrome(t)); obn(harbol_string_count_cstr(t, "o")); return OK; } } abort();
}
static void s_dump(int s) { obstr(&S_[s]); }
static void s_destroy(int s) { harbol_string_clear(&S_[s]); }
/* ---------------- byte buffer ---------------- */
static struct HarbolByteBuf Y[2];
static bool y_make(int s, uint32_t v) { if( v==0 ) { Y[s] = harbol_bytebuffer_make(); return true; } struct HarbolByteBuf *p = harbol_bytebuffer_new(); if( !p ) return false; Y[s] = *p; free(p); return true; }
static int y_apply(int s, uint32_t op) {
	struct HarbolByteBuf *b = &Y[s]; uint8_t raw[40]; for( int i=0; i < 40; i++ ) raw[i] = (uint8_t)(i+1);
	switch( op ) { case 0: return B(harbol_bytebuffer_insert_byte(b, 1)); case 1: return B(harbol_bytebuffer_insert_int16(b, 0x0203)); case 2: return B(harbol_bytebuffer_insert_int32(b, 0x04050607)); case 3: return B(harbol_bytebuffer_insert_int64(b, 0x08090a0b0c0d0e0full)); case 4: return B(harbol_bytebuffer_insert_ptr(b, 77)); case 5: return B(harbol_bytebuffer_insert_float32(b, 1.5f)); case 6: return B(harbol_bytebuffer_insert_float64(b, 2.5)); case 7: return B(harbol_bytebuffer_insert_floatmax(b, 3.5L));
	case 8: return B(harbol_bytebuffer_insert_cstr(b, "text")); case 9: return B(harbol_bytebuffer_insert_obj(b, raw, 40)); case 10: return B(harbol_bytebuffer_insert_zeros(b, 17)); case 11: return B(harbol_bytebuffer_del(b, 0, 1)); case 12: return B(harbol_bytebuffer_insert_from_filename(b, "in.txt"));
	case 13: case 14: { struct HarbolByteBuf o = {0}; uint8_t in[3] = {9, 8, 7}; o.table = in; o.len = o.cap = 3; return B((op==13? harbol_bytebuffer_append : harbol_bytebuffer_copy)(b, &o)); } case 15: return B(harbol_bytebuffer_append(b, b)); case 16: return B(harbol_bytebuffer_insert_from_filename(b, "nothing")); } abort();
}
static void y_dump(int s) { struct HarbolByteBuf *b = &Y[s]; obn(harbol_bytebuffer_len(b)); CHECK(b->len <= b->cap, "byte buffer: longer than its room"); if( b->len ) obs(harbol_bytebuffer_get_buffer(b), b->len); }
static void y_destroy(int s) { harbol_bytebuffer_clear(&Y[s]); }
/* ---------------- variant ---------------- */
static struct HarbolVariant V[2];
static bool v_make(int s, uint32_t v) { bool r; if( v==0 ) { V[s] = harbol_variant_make("val", 3, 5, &r); return r; } if( v==1 ) return harbol_variant_init(&V[s], "value2", 6, 7); struct HarbolVariant *p = harbol_variant_new("v", 1, 9); if( !p ) return false; V[s] = *p; free(p); return true; }
static int v_apply(int s, uint32_t op) { static size_t const n[] = {1, 3, 4, 9, 30}; return B(harbol_variant_set(&V[s], "012345678901234567890123456789", n[op])); }
static void v_dump(int s) { obn(harbol_variant_size(&V[s])); obn((uint64_t)harbol_variant_tag(&V[s])); CHECK(harbol_variant_data(&V[s]), "variant without data"); obs(harbol_variant_data(&V[s]), harbol_variant_size(&V[s])); }
static void v_destroy(int s) { harbol_variant_clear(&V[s]); }
/* ---------------- allocators ---------------- */
static struct { struct HarbolMemPool mp; struct HarbolObjPool op; struct HarbolRegion rg; struct HarbolBiStack bs; uint32_t v; } P[2];
static bool p_make(int s, uint32_t v) { bool r; memset(&P[s], 0, sizeof P[s]); P[s].v = v; switch( v ) { case 0: P[s].mp = harbol_mempool_make(300, &r); return r; case 1: return harbol_mempool_init(&P[s].mp, 500); case 2: P[s].op = harbol_objpool_make(20, 5, &r); return r; case 3: return harbol_objpool_init(&P[s].op, 8, 4); case 4: P[s].rg = harbol_region_make(200); return P[s].rg.mem != 0; case 5: P[s].bs = harbol_bistack_make(100, &r); return r; case 6: return harbol_bistack_init(&P[s].bs, 64); } abort(); }
static int p_apply(int s, uint32_t op) {
	if( P[s].v < 5 ) { void *p; if( op > 1 ) return DISABLED; switch( P[s].v ) { case 0: case 1: p = harbol_mempool_alloc(&P[s].mp, 16+op); if( !p ) return FAIL; obn((uint64_t)((uint8_t *)p - (uint8_t *)P[s].mp.stack.mem)); return OK; case 2: case 3: p = harbol_objpool_alloc(&P[s].op); return B(p); default: p = harbol_region_alloc(&P[s].rg, 10+op); return B(p); } }
	struct HarbolBiStack *b = &P[s].bs; switch( op ) { case 0: return B(harbol_bistack_alloc_front(b, 9)); case 1: return B(harbol_bistack_alloc_back(b, 9)); case 2: return B(harbol_bistack_resize(b, 40)); case 3: return B(harbol_bistack_resize(b, 300)); } abort();
}
static void p_dump(int s) { obn(harbol_mempool_mem_remaining(&P[s].mp)); obn(harbol_region_remaining(&P[s].rg)); obn(harbol_bistack_get_margins(P[s].bs)); obn(P[s].bs.size); obn(P[s].op.free_blocks); }
static void p_destroy(int s) { harbol_mempool_clear(&P[s].mp); harbol_objpool_clear(&P[s].op); harbol_region_clear(&P[s].rg); harbol_bistack_clear(&P[s].bs); }
/* ---------------- configuration ---------------- */
static struct HarbolMap *C[2]; static uint32_t c_variant;
static FILE *sink; static size_t sunk; static ssize_t sink_write(void *c, char const *b, size_t n) { (void)c; (void)b; sunk += n; return (ssize_t)n; }
static FILE *hush(void) { if( !sink ) { sink = fopencookie(NULL, "w", (cookie_io_functions_t){.write = sink_write}); setvbuf(sink, NULL, _IONBF, 0); } FILE *o = stderr; stderr = sink; sunk = 0; return o; }
static char const *const DOC[] = { "'s' {'k' 'text' 'n' 5 'f' 1.5 'b' true} 'c' c[1 2 3 4] 'v' v[.5 2] 'z' null 'w' 'word'",
	"", "'a' 1", "'a' 1 'b' -2.5 'c' 0b101", "'a' 'str' 'b' '' 'c' '\\x41\\n'", "'a' {}", "'a' {'b' {'c' {'d' iota 'e' iota}} 'f' iota} 'g' iota", "'a' true 'b' false 'c' null 'd' IOTA", "'a' c[1 2 3] 'b' v[1. 2 3 4]", "'<enum>' 1 '<enum>' 2 'x<ENUM>' 3", "'k<math 1+2>' 1 'm' '<math 2*iota>'", "'f' <FILE> 'g' <file>", "'<include>' 'inc.cfg' 'after' 1", "'<include>' 'none.cfg' 'after' 1", "'a' 1 'b' 2 'c' 3 'd' 4 'e' 5 'f' 6 'g' 7 'h' 8 'i' 9 'j' 10", "'s' {'a' 1 'b' 2 'c' 3 'd' 4 'e' 5 'f' 6}", "'a' 1 'a' 2", "'a' [", "'a' {'b' 1", "'a' c[1 2", "'unterminated", "'a' 'unterminated", "'a' bad", "'\xc3\xa9' '\\u00e9\\U0001F600'", "'e<enum>' {'e<enum>' {} 'l' iota} 'e<enum>' iota" };
enum { NDOC = sizeof DOC / sizeof *DOC };
static bool c_make(int s, uint32_t v) { FILE *o = hush(); put_text("inc.cfg", "'i' {'x' 1} 'n' <FILE>\n"); if( v < NDOC ) C[s] = harbol_cfg_parse_cstr(DOC[v]); else { C[s] = harbol_cfg_parse_file("main.cfg"); } stderr = o; if( !C[s] ) return false; C[s]->seed = C[s]->seed; c_variant = v; return true; }
static bool c_make0(int s, uint32_t v) { (void)v; return c_make(s, 0); }
static bool c_makef(int s, uint32_t v) { vp_disarm(); return c_make(s, v); }
static void c_rec(struct HarbolMap *m) {
	obn(m->len); for( size_t i=0; i < m->len; i++ ) { obs(m->keys[i], m->keylens[i]); CHECK(m->keylens[i] && m->keys[i][m->keylens[i]-1]==0, "configuration: unterminated key"); struct HarbolVariant *v = (struct HarbolVariant *)m->datum[i]; CHECK(v && v->data, "configuration: entry '%s' has no value", (char *)m->keys[i]); obn((uint64_t)v->tag); CHECK(harbol_map_get_entry_index(m, m->keys[i], m->keylens[i])==i, "configuration: '%s' is not found", (char *)m->keys[i]);
		switch( v->tag ) { case HarbolCfgType_Map: c_rec(*(struct HarbolMap **)v->data); break; case HarbolCfgType_String: obstr(*(struct HarbolString **)v->data); break; case HarbolCfgType_Float: { long double f = *(long double *)v->data; obs(&f, 10); break; } default: obs(v->data, v->size); } } }
static void c_dump(int s) { c_rec(C[s]); }
static void c_destroy(int s) { harbol_cfg_free(&C[s]); }
static int c_apply(int s, uint32_t op) { /* setters and getters on the first document */
	struct HarbolMap *m = C[s]; size_t l; char *t; void *p;
	switch( op ) { case 0: return B(harbol_cfg_set_cstr(m, "s.k", "a new and longer text", false)); case 1: return B(harbol_cfg_set_cstr(m, "w", "", false)); case 2: return B(harbol_cfg_set_cstr(m, "s.n", "was a number", true)); case 3: return B(harbol_cfg_set_cstr(m, "s", "was a section", true));
	case 4: return B(harbol_cfg_set_float(m, "s.f", 2.25L, false)); case 5: return B(harbol_cfg_set_float(m, "w", 2.25L, true)); case 6: return B(harbol_cfg_set_int(m, "s.k", 77, true)); case 7: return B(harbol_cfg_set_bool(m, "c", true, true)); case 8: return B(harbol_cfg_set_color(m, "s", (union HarbolColor){.array={1,2,3,4}}, true)); case 9: return B(harbol_cfg_set_vec4D(m, "z", (struct HarbolVec4D){1,2,3,4}, true)); case 10: return B(harbol_cfg_set_to_null(m, "s.k")); case 11: return B(harbol_cfg_set_to_null(m, "s"));
	case 12: { struct HarbolString o = {(char *)"strs", 4}; return B(harbol_cfg_set_str(m, "v", o, true)); }
	case 13: t = harbol_cfg_get_cstr(m, "s.k", &l); if( !t ) return FAIL; obs(t, l); return OK; case 14: p = harbol_cfg_get_int(m, "s.n"); if( !p ) return FAIL; obs(p, 8); return OK; case 15: { enum HarbolCfgType y = harbol_cfg_get_type(m, "s"); if( y==HarbolCfgType_Invalid ) return FAIL; obn(y); return OK; } case 16: p = harbol_cfg_get_section(m, "s"); return B(p); case 17: { struct HarbolString *q = harbol_cfg_get_str(m, "w"); if( !q ) return FAIL; obstr(q); return OK; } case 18: { long double f = harbol_cfg_calc_math(m, "w", NULL, NULL, 0); return f != f? FAIL : OK; } 
	case 19: { enum HarbolCfgType y = harbol_cfg_get_type(m, "wo"); if( y==HarbolCfgType_Invalid ) return FAIL; obn(y); return OK; } case 20: { enum HarbolCfgType y = harbol_cfg_get_type(m, "s.nn"); if( y==HarbolCfgType_Invalid ) return FAIL; obn(y); return OK; } } abort();
}
static int c_text(int s, uint32_t op) {
	struct HarbolMap *m = C[s]; if( op==0 ) { struct HarbolString t = harbol_cfg_to_str(m); obstr(&t); harbol_string_clear(&t); return OK|LOOSE; }
	remove("w.cfg"); if( op==2 ) put_text("w.cfg", "old\n"); bool r = harbol_cfg_build_file(m, "w.cfg", op==1); if( !r ) return FAIL; char b[4000]; FILE *f = fopen("w.cfg", "r"); size_t n = fread(b, 1, sizeof b, f); fclose(f); obs(b, n); return OK;
}
static int c_use(int s, uint32_t op) { struct HarbolMap *m = C[s]; if( op==0 ) return c_text(s, 0); if( op==1 ) { enum HarbolCfgType y = harbol_cfg_get_type(m, "a"); if( y==HarbolCfgType_Invalid ) return FAIL; obn(y); return OK; } return B(harbol_cfg_set_to_null(m, "a")); }
/* ---------------- diagnostics ---------------- */
static struct HarbolMsgSpan G[2];
static bool g_make(int s, uint32_t v) { static char const *const src[] = {"one line", "two\nlines", "\tt\r\nx\ry\n", "a\n\nb\n"}; memset(&G[s], 0, sizeof G[s]); put_text("in.txt", "file\ttext\r\nsecond line\n"); if( v < 8 ) return harbol_msg_span_init(&G[s], src[v/2], false, v%2); bool r; G[s] = harbol_msg_span_make("in.txt", true, v%2, &r); return r; }
static int g_apply(int s, uint32_t op) {
	struct HarbolMsgSpan *g = &G[s]; struct HarbolTokenSpan sp = {1, 1, 0, 3}, sp2 = {1, 2, 2, 4};
	switch( op ) { case 0: return B(harbol_msg_span_add_label(g, sp, NULL, '^', NULL, "label %d", 1)); case 1: return B(harbol_msg_span_add_label(g, sp2, COLOR_RED, 0x25b2, COLOR_BLUE, "%s", "coloured label")); case 2: return B(harbol_msg_span_add_note(g, NULL, "note")); case 3: return B(harbol_msg_span_add_note(g, COLOR_GREEN, "note %s", "two")); case 4: return B(harbol_msg_span_add_label(g, sp2, NULL, '~', COLOR_BLUE, ""));
	case 5: { char *b = NULL; size_t n = 0, cnt = 0; FILE *f = open_memstream(&b, &n); uint32_t l = 3; harbol_msg_span_emit_to_stream(g, &cnt, f, "f.c", "error", "E1", COLOR_RED, &l, NULL, "message %d", 5); fclose(f); obs(b, n); obn(cnt); CHECK(!strstr(b, "(null)"), "diagnostic prints a missing text: %s", b); __real_free(b); return OK|LOOSE; } } abort();
}
static void g_dump(int s) { struct HarbolMsgSpan *g = &G[s]; obn(harbol_msg_span_get_num_lines(g)); for( size_t i=0; i < g->src.len; i++ ) obstr(harbol_msg_span_get_line(g, i)); obstr(harbol_msg_span_get_code(g)); obstr(&g->src.filename); obn(g->labels.len); for( size_t i=0; i < g->labels.len; i++ ) obstr(&((struct HarbolMsgLabel *)g->labels.table)[i].msg); obn(g->notes.len); for( size_t i=0; i < g->notes.len; i++ ) obstr(&((struct HarbolString *)g->notes.table)[i]); }
static void g_destroy(int s) { harbol_msg_span_clear(&G[s]); }
/* ---------------- lexers and texts ---------------- */
static struct HarbolString L[2];
static bool l_make(int s, uint32_t v) { bool r = true; L[s] = (struct HarbolString){0}; if( v ) L[s] = harbol_string_make("pre", &r); return r; }
typedef enum HarbolLexErrType lexfn(char const *, char const **, struct HarbolString *); typedef enum HarbolLexErrType lexfnf(char const *, char const **, struct HarbolString *, bool *);
static bool is_a(int32_t c) { return c=='a' || c==0xe9; }
static int l_apply(int s, uint32_t op) {
	static lexfn *const F[] = {lex_c_style_str, lex_go_style_str, lex_c_style_binary, lex_go_style_binary, lex_go_style_octal}; static char const *const ft[] = {"'a\\n\\x41\\u00e9' z", "\"\\u00e9b\\101\" z", "0b1'01u z", "0b1_1 z", "0o17 z"};
	static lexfnf *const H[] = {lex_c_style_hex, lex_go_style_hex, lex_c_style_octal, lex_c_style_decimal, lex_go_style_decimal, lex_c_style_number, lex_go_style_number}; static char const *const ht[] = {"0x1.8p3f z", "0x_1Fp2 z", "0'17ul z", "12'3.5e-2l z", "1_2.5e+3 z", "0x1'fULL z", ".5e1 z"};
	struct HarbolString *b = &L[s]; char const *e; bool fl = false; int r; uint32_t lines = 0; size_t ls = 0;
	char const *t; 
	if( op < 5 ) { t = ft[op]; e = t; r = F[op](t, &e, b); } else if( op < 12 ) { t = ht[op-5]; e = t; r = H[op-5](t, &e, b, &fl); } else switch( op ) {
	case 12: t = "// c\\\nd\nz"; e = t; r = !lex_single_line_comment(t, &e, b, &lines); break; case 13: t = "/* c\nd */z"; e = t; r = !lex_multi_line_comment(t, &e, "*/", 2, b, &lines); break; case 14: t = "\"\"\"q\n\"r\"\"\"z"; e = t; r = !lex_multiquote_string(t+3, &e, "\"\"\"", 3, b, &ls); break; case 15: t = "aaab"; e = t; r = !lex_until_false(t, &e, b, is_a); break; case 16: t = "a\xc3\xa9""ab"; e = t; r = !lex_until_false_utf8(t, &e, b, is_a); break; case 17: t = "ident_1 z"; e = t; r = !lex_c_style_identifier(t, &e, b); break; case 18: t = "abc;z"; e = t; r = !lex_until(t, &e, b, ';'); break;
	case 19: t = ""; e = t; lex_fix_newlines(b, true); r = 0; break; case 20: t = ""; e = t; r = !write_utf8_str(b, 0x20ac); break; default: abort(); }
	CHECK(e >= t && e <= t + strlen(t), "lexer %u ends outside its text", op); obn((uint64_t)r); obn((uint64_t)(e-t)); obn(fl); obn(lines); obn(ls); return OK|LOOSE;
}
static void l_dump(int s) { obstr(&L[s]); }
static void l_destroy(int s) { harbol_string_clear(&L[s]); }
/* ---------------- free-standing helpers ---------------- */
static bool n_make(int s, uint32_t v) { (void)s; (void)v; return true; }
static int n_apply(int s, uint32_t op) {
	(void)s; size_t n = 0; void *p; struct HarbolString t; bool r;
	switch( op ) { case 0: p = dup_data("data", 4); if( !p ) return FAIL; obs(p, 4); free(p); return OK; case 1: p = dup_cstr(4, "text"); if( !p ) return FAIL; obs(p, strlen(p)); free(p); return OK; case 2: p = sprintf_alloc("%d %s", 12345, "xyz"); if( !p ) return FAIL; obs(p, strlen(p)); free(p); return OK;
	case 3: p = make_buffer_from_text("in.txt", &n); if( !p ) return FAIL; obs(p, n); free(p); return OK; case 4: p = make_buffer_from_binary("in.txt", &n); if( !p ) return FAIL; obs(p, n); free(p); return OK; case 5: { FILE *f = fopen("in.txt", "rb"); p = make_buffer_from_file(f, &n); fclose(f); if( !p ) return FAIL; obs(p, n); free(p); return OK; }
	case 6: p = utf8_cstr_to_rune("a\xc3\xa9\xe2\x82\xac", 6, &n); if( !p ) return FAIL; obs(p, n*4); free(p); return OK; case 7: { int32_t rn[] = {'a', 0xe9, 0x20ac, 0}; p = rune_to_utf8_cstr(rn, &n); if( !p ) return FAIL; obs(p, n); free(p); return OK; } case 8: { int32_t rn[] = {'a', 0xe9, 0x20ac, 0}; t = rune_to_utf8_str(rn); if( !t.len ) return FAIL; obstr(&t); harbol_string_clear(&t); return OK; }
	case 9: { FILE *f = fopen("in.txt", "r"); p = runes_from_stream(f, &n); fclose(f); if( !p ) return FAIL; obs(p, n*4); free(p); return OK; }
	case 10: { size_t pw[1]; (void)pw; size_t *pows = NULL, tab[64][MAX_LOG_TABLE_SIZE]; memset(tab, 0, sizeof tab); (void)tab; (void)pows; return DISABLED; }
	case 11: { uint8_t *a = NULL; uint32_t *b = NULL; r = harbol_multi_calloc(5, 2, &a, sizeof *a, &b, sizeof *b); if( !r ) { CHECK(!a && !b, "failed joint allocation leaves something behind"); return FAIL; } bool z = harbol_multi_recalloc(9, 5, 2, &a, sizeof *a, &b, sizeof *b); obs(a, z? 9 : 5); obs(b, z? 36 : 20); free(a); free(b); return z? OK : OK|LOOSE; } } abort();
}
static void n_dump(int s) { (void)s; } static void n_destroy(int s) { (void)s; }
/* ---------------- plugins (the loader is a fake) ---------------- */
static struct HarbolPlugin *X[2]; static int opened; static char fakelib; static uint32_t got; static struct HarbolPlugin slots[2][8]; static size_t nslots[2];
void *__wrap_dlopen(char const *p, int m) { (void)p; (void)m; opened++; return &fakelib; } int __wrap_dlclose(void *h) { CHECK(h==&fakelib && opened > 0, "a library is closed twice"); opened--; return 0; } void *__wrap_dlsym(void *h, char const *n) { (void)h; (void)n; return &fakelib; }
static void x_event(struct HarbolPlugin *p, void *u, bool re) { (void)p; (void)u; got += 1 + re; }
static bool x_make(int s, uint32_t v) { (void)v; opened = 0; X[s] = &slots[s][0]; memset(slots[s], 0, sizeof slots[s]); nslots[s] = 1; return true; }
static int x_apply(int s, uint32_t op) {
	struct HarbolPlugin *p = X[s]; got = 0; int r; switch( op ) { case 0: if( p->dll ) return DISABLED; r = B(harbol_plugin_load(p, "plug/a." LIB_EXT, x_event, NULL)); break; case 1: harbol_plugin_clear(p, x_event, NULL); r = OK; break; case 2: r = B(harbol_plugin_reload(p, x_event, x_event, NULL)); break; case 3: r = B(harbol_plugin_changed(p)); break; default: abort(); } if( r ) obn(got); return r;
}
static void x_dump(int s) { obn(X[s]->dll != NULL); if( X[s]->path ) obs(X[s]->path, strlen(X[s]->path)); CHECK(!X[s]->dll || X[s]->path, "a plugin is loaded without a path"); }
static void x_destroy(int s) { harbol_plugin_clear(X[s], NULL, NULL); }
static void x_dir(char const *p, char const *n, void *u) { (void)u; obs(p, strlen(p)); obs(n, strlen(n)); }
static int x_apply2(int s, uint32_t op) { if( op < 4 ) return x_apply(s, op); obn(harbol_plugin_dir_open("dir", x_dir, NULL, op==4? NULL : "txt")); return OK|LOOSE; }

/* bringing an object to a size at which the next addition has to grow it */
static bool fill(int s, int c, uint32_t i) {
	char k[16]; static struct HarbolTokenSpan const sp = {1, 1, 0, 1}; switch( c ) {
	case 0: if( harbol_array_full(&A[s]) ) harbol_array_grow(&A[s], 4); return harbol_array_insert(&A[s], &i, 4); case 1: memset(k, 0, sizeof k); snprintf(k, sizeof k, "n%u", i); return harbol_deque_append(&D[s], k, 9) != SIZE_MAX; case 2: return harbol_tree_insert_val(T[s], "kid", 3); case 4: snprintf(k, sizeof k, "key %u", i); return harbol_map_insert(&M[s], k, strlen(k)+1, &i, 4);
	case 5: return harbol_string_add_char(&S_[s], (char)('a' + i%26)); case 6: return harbol_bytebuffer_insert_int32(&Y[s], i); case 12: return harbol_msg_span_add_label(&G[s], sp, NULL, '^', i & 1? COLOR_RED : NULL, "label %u", i) && harbol_msg_span_add_note(&G[s], i & 1? COLOR_RED : NULL, "note %u", i); } abort();
}
enum { M_ARRAY, M_DEQUE, M_TREE, M_TUPLE, M_MAP, M_STR, M_BYTES, M_VAR, M_POOL, M_CFGSET, M_CFGPARSE, M_CFGTEXT, M_SPAN, M_LEX, M_HELP, M_PLUG, NMOD };
static mod const MODS[NMOD] = {
	{"array", 5, 15, 3, 8, false, a_make, a_apply, a_dump, a_destroy}, {"deque", 6, 5, 5, 4, false, d_make, d_apply, d_dump, d_destroy}, {"tree", 2, 8, 4, 8, false, t_make, t_apply, t_dump, t_destroy}, {"tuple", 72, 4, 1, 1, false, u_make, u_apply, u_dump, u_destroy}, {"map", 4, 12, 4, 8, false, m_make, m_apply, m_dump, m_destroy},
	{"string", 6, 22, 3, 8, false, s_make, s_apply, s_dump, s_destroy}, {"byte buffer", 2, 17, 3, 8, false, y_make, y_apply, y_dump, y_destroy}, {"variant", 3, 5, 5, 2, false, v_make, v_apply, v_dump, v_destroy}, {"allocators", 7, 4, 4, 1, false, p_make, p_apply, p_dump, p_destroy},
	{"configuration values", 1, 21, 3, 8, true, c_make0, c_apply, c_dump, c_destroy}, {"configuration parser", NDOC+1, 3, 1, 2, true, c_make, c_use, c_dump, c_destroy}, {"configuration writer", NDOC+1, 3, 1, 2, true, c_make, c_text, c_dump, c_destroy}, {"diagnostics", 10, 6, 4, 8, false, g_make, g_apply, g_dump, g_destroy}, {"lexers", 2, 21, 2, 4, false, l_make, l_apply, l_dump, l_destroy}, {"helpers", 1, 12, 1, 1, false, n_make, n_apply, n_dump, n_destroy}, {"plugins", 1, 6, 4, 4, false, x_make, x_apply2, x_dump, x_destroy},
};
int vp_nconfigs(void) { return NMOD; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", MODS[c].name); }
int vp_config_shards(int c) { return MODS[c].shards; }
static mod const *m; static uint8_t db_mem[4][1<<16];
static size_t dump_to(int s, uint8_t *out) { struct vp_buf save = ob[s]; ob[s] = (struct vp_buf){out, 0, 1<<16}; cur = s; m->dump(s); size_t n = ob[s].n; ob[s] = save; return n; }
static int ap(int s, uint32_t op) { cur = s; ob[s] = (struct vp_buf){ob_mem[s], 0, 1<<16}; FILE *e = hush(); int r = m->apply(s, op); stderr = e; return r; }
static bool same_obs(void) { return ob[0].n==ob[1].n && !memcmp(ob_mem[0], ob_mem[1], ob[0].n); }
static void twin(char const *when, uint32_t op) { size_t a = dump_to(0, db_mem[2]), b = dump_to(1, db_mem[3]); CHECK(a==b && !memcmp(db_mem[2], db_mem[3], a), "%s: after %s operation %u the object differs from one that never met a failure", m->name, when, op); }
/* make/operation with the k-th (and k2-th) allocation failing; returns the number of allocations the last operation makes */
static uint64_t run(uint32_t v, uint32_t const *h, int n, uint64_t k, uint64_t k2) {
	bool f;
	if( n==0 ) {
		cur = 0;
		vp_arm(k, k2); f = m->make(0, v); uint64_t calls = vp_armed_calls; int failed = vp_failed_allocs; vp_disarm();
		if( !f ) { CHECK(failed || (m->make_loose) || k==0, "%s: making variant %u fails though no allocation did", m->name, v); return calls; }
		size_t d0 = dump_to(0, db_mem[0]);
		bool t = m->make(1, v); CHECK(t, "%s: variant %u can be made only when an allocation fails", m->name, v);
		if( !failed || !m->make_loose ) { size_t d1 = dump_to(1, db_mem[1]); CHECK(d0==d1 && !memcmp(db_mem[0], db_mem[1], d0), "%s: variant %u was made in spite of a failed allocation, but not as it should be", m->name, v); }
		for( uint32_t op=0; op < m->nops; op++ ) { int r0 = ap(0, op), r1 = ap(1, op); dump_to(0, db_mem[0]); if( !failed || !m->make_loose ) { CHECK(r0==r1 && same_obs(), "%s: after being made in spite of a failed allocation, operation %u behaves differently", m->name, op); twin("later", op); } }
		m->destroy(0); m->destroy(1); return calls;
	}
	uint32_t full = v>>8; v &= 255; if( !m->make(0, v) ) return 0;
	f = m->make(1, v); CHECK(f, "twin cannot be made");
	for( uint32_t i=0; i < full; i++ ) { bool a = fill(0, (int)(m-MODS), i), b = fill(1, (int)(m-MODS), i); CHECK(a && b, "%s: filling fails at %u", m->name, i); }
	for( int i=0; i+1 < n; i++ ) { int a = ap(0, h[i]), b = ap(1, h[i]); CHECK(a==b && same_obs(), "%s: the same history gives different results", m->name); if( a==DISABLED ) { m->destroy(0); m->destroy(1); return 0; } }
	uint32_t op = h[n-1]; size_t before = dump_to(0, db_mem[0]); twin("same", op);
	vp_arm(k, k2); int r0 = ap(0, op); uint64_t calls = vp_armed_calls; int failed = vp_failed_allocs; vp_disarm();
	size_t after = dump_to(0, db_mem[1]); bool kept = after==before && !memcmp(db_mem[0], db_mem[1], before);
	int r1 = ap(1, op);
	if( r0==DISABLED ) { m->destroy(0); m->destroy(1); return 0; }
	if( vp_verbose ) vp_note("%s: variant %u, operation %u: %llu allocations, %d failed, result %d (twin %d)", m->name, v, op, (unsigned long long)calls, failed, r0, r1);
	bool loose = false;
	if( failed ) {
		vp_add_transitions(1); uint8_t *b = db_mem[2]; size_t l = dump_to(1, b); bool done = (r0 & ~LOOSE)==(r1 & ~LOOSE) && same_obs() && l==after && !memcmp(b, db_mem[1], l);
		if( (r0|r1) & LOOSE ) loose = !done;
		else if( !done ) { CHECK((r0 & ~LOOSE)==FAIL, "%s: variant %u, operation %u reports success although an allocation failed and it wasn't done", m->name, v, op); CHECK(kept, "%s: variant %u, operation %u failed for want of memory but changed the object", m->name, v, op);
			r0 = ap(0, op); CHECK(r0==r1 && same_obs(), "%s: operation %u, repeated after a failed allocation, gives another result", m->name, op); twin("repeated", op); }
	} else { CHECK(r0==r1 && same_obs(), "%s: operation %u differs though no allocation failed", m->name, op); twin("same", op); }
	for( uint32_t o=0; o < m->nops; o++ ) { int a = ap(0, o), b = ap(1, o); if( !loose ) { CHECK(a==b && same_obs(), "%s: after a failed allocation in operation %u, operation %u behaves differently", m->name, op, o); twin("later", o); } else dump_to(0, db_mem[1]); }
	vp_outcome(vp_hash(db_mem[1], after, (uint64_t)op*7919+k)); m->destroy(0); m->destroy(1); return calls;
}
static uint64_t one(uint32_t v, uint32_t const *h, int n, uint32_t k, uint32_t k2) {
	uint32_t t[16] = {v, k, k2}; memcpy(t+3, h, (size_t)n * sizeof *h); if( !vp_case(t, (size_t)n+3) ) return 0; uint64_t c = run(v, h, n, k, k2==UINT32_MAX? UINT64_MAX : k2); vp_case_done(); return c;
}
static void setup(void) { put_text("in.txt", "file text\nwith \xc3\xa9 two lines\n"); put_text("inc.cfg", "'i' {'x' 1} 'n' <FILE>\n"); put_text("main.cfg", "'m' 1\r\n\t'<include>' \"inc.cfg\" 's' {'t' 'x' '<include>' 'main.cfg'}"); }
static void sweep(uint32_t v, uint32_t const *h, int n) {
	if( one(v, h, n, 0, 0)==0 ) return;
	for( uint32_t k=1; ; k++ ) { uint64_t c = one(v, h, n, k, 0); if( c < k ) break; one(v, h, n, k, UINT32_MAX); for( uint32_t d=1; d <= (vp_tier? 8u : 3u); d++ ) { c = one(v, h, n, k, k+d); if( c < k+d ) break; } }
}
void vp_explore(int c) {
	m = &MODS[c]; setup(); uint64_t idx = 0; int depth = m->depth + (vp_tier? 1 : 0);
	for( uint32_t v=0; v < m->nmake; v++ ) for( int n=0; n <= depth; n++ ) { uint32_t h[8] = {0}; for( ;; ) {
		if( idx++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) sweep(v, h, n);
		int i = n-1; while( i >= 0 && ++h[i]==m->nops ) h[i--] = 0; if( i < 0 ) break; } }
	/* objects filled to n elements, so that the step under test is the one that has to grow */
	if( (1u<<c) & (1u<<M_ARRAY | 1u<<M_DEQUE | 1u<<M_TREE | 1u<<M_MAP | 1u<<M_STR | 1u<<M_BYTES | 1u<<M_SPAN) )
		for( uint32_t v=0; v < (c==M_SPAN && !vp_tier? 1 : m->nmake); v++ ) for( uint32_t full=1; full <= (vp_tier? 70u : 34u); full++ ) if( vp_tier || !(full & (full-1)) || !(full & (full+1)) ) for( int n=1; n <= 1 + vp_tier; n++ ) { uint32_t h[8] = {0}; for( ;; ) {
			if( idx++ % (uint64_t)vp_nshards==(uint64_t)vp_shard ) sweep(v | full<<8, h, n);
			int i = n-1; while( i >= 0 && ++h[i]==m->nops ) h[i--] = 0; if( i < 0 ) break; } }
	vp_set_states(idx / (uint64_t)vp_nshards);
}
void vp_replay(int c, uint32_t const *t, size_t n) { m = &MODS[c]; setup(); one(t[0], t+3, (int)n-3, t[1], t[2]); }
