/* Reference evaluator of the math grammar (math/math_parser.h), shared by C21 and the configuration checks. */
#pragma once
#include <math.h>
#include <string.h>
#include <stdbool.h>
#include <stdlib.h>
typedef long double LD;
/* 0: no such name, 1: variable (value in *v), 2: function (index in *fn) */
typedef int rm_lookup(char const *name, LD *v, LD (**fn)(LD), void *ctx);
struct rm { char const *p; rm_lookup *look; void *ctx; bool bad; };
static void rm_ws(struct rm *m) { while( *m->p && strchr(" \t\n\r", *m->p) ) m->p++; }
static bool rm_al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } static bool rm_dg(int c) { return c >= '0' && c <= '9'; }
static LD rm_add(struct rm *m);
static LD rm_un(struct rm *m); static LD rm_pow(struct rm *m);
static LD rm_bad(struct rm *m) { m->bad = true; return 0; }
static LD rm_fac(struct rm *m) {
	rm_ws(m); char const *s = m->p; if( m->bad ) return 0;
	if( rm_dg(*s) || *s=='.' ) {
		size_t dots = 0, digs = 0; LD v = 0, sc = 1; (void)sc;
		while( rm_dg(*m->p) || *m->p=='.' || rm_al(*m->p) ) { if( *m->p=='.' ) dots++; else if( rm_dg(*m->p) ) digs++; else return rm_bad(m); m->p++; }
		if( dots > 1 || !digs ) return rm_bad(m);
		v = strtold(s, NULL); return v;
	}
	if( rm_al(*s) ) {
		while( rm_al(*m->p) || rm_dg(*m->p) ) m->p++;
		size_t n = (size_t)(m->p - s); if( n > 63 ) return rm_bad(m);
		char nm[64]; memcpy(nm, s, n); nm[n] = 0; LD v = 0; LD (*fn)(LD) = NULL; int k = m->look? m->look(nm, &v, &fn, m->ctx) : 0;
		if( k==0 ) return rm_bad(m);
		if( k==1 ) return v;
		rm_ws(m); LD a = *m->p=='(' || *m->p=='['? rm_un(m) : rm_pow(m); return m->bad? 0 : fn(a);
	}
	if( *s=='(' || *s=='[' ) { m->p++; LD v = rm_add(m); rm_ws(m); if( *m->p != (*s=='('? ')' : ']') ) return rm_bad(m); m->p++; return v; }
	return rm_bad(m);
}
static LD rm_un(struct rm *m) { rm_ws(m); if( *m->p=='-' ) { m->p++; return -rm_un(m); } if( *m->p=='+' ) { m->p++; return fabsl(rm_un(m)); } return rm_fac(m); }
static LD rm_pow(struct rm *m) { LD v = rm_un(m); for( rm_ws(m); !m->bad && *m->p=='^'; rm_ws(m) ) { m->p++; LD w = rm_un(m); v = powl(v, w); } return v; }
static LD rm_mul(struct rm *m) { LD v = rm_pow(m); for( rm_ws(m); !m->bad && (*m->p=='*' || *m->p=='/'); rm_ws(m) ) { int o = *m->p++; LD w = rm_pow(m); v = o=='*'? v*w : v/w; } return v; }
static LD rm_add(struct rm *m) { LD v = rm_mul(m); for( rm_ws(m); !m->bad && (*m->p=='+' || *m->p=='-'); rm_ws(m) ) { int o = *m->p++; LD w = rm_mul(m); v = o=='+'? v+w : v-w; } return v; }
/* true: well-formed, value in *v */
static bool rmath(char const *s, rm_lookup *look, void *ctx, LD *v) { struct rm m = {s, look, ctx, false}; *v = rm_add(&m); rm_ws(&m); return !m.bad && *m.p==0; }
/* the default names */
static LD rm_fraction(LD x) { return x - floorl(x); }
#define RMF(n,e) static LD rmf_##n(LD x) { return e; }
RMF(sin, sinl(x)) RMF(cos, cosl(x)) RMF(tan, tanl(x)) RMF(arcsin, asinl(x)) RMF(arccos, acosl(x)) RMF(arctan, atanl(x)) RMF(ln, logl(x)) RMF(log, log10l(x)) RMF(floor, floorl(x)) RMF(ceil, ceill(x)) RMF(round, roundl(x)) RMF(radians, x * (acosl(-1.0L) / 180.0L)) RMF(degrees, x * (180.0L / acosl(-1.0L)))
static int rm_default(char const *n, LD *v, LD (**fn)(LD), void *ctx) {
	(void)ctx; static struct { char const *n; LD (*f)(LD); } const F[] = {{"sin",rmf_sin},{"cos",rmf_cos},{"tan",rmf_tan},{"arcsin",rmf_arcsin},{"arccos",rmf_arccos},{"arctan",rmf_arctan},{"ln",rmf_ln},{"log",rmf_log},{"floor",rmf_floor},{"ceil",rmf_ceil},{"round",rmf_round},{"fraction",rm_fraction},{"radians",rmf_radians},{"degrees",rmf_degrees}};
	if( !strcmp(n, "e") ) { *v = expl(1.0L); return 1; } if( !strcmp(n, "pi") ) { *v = acosl(-1.0L); return 1; }
	for( size_t i=0; i < sizeof F / sizeof *F; i++ ) if( !strcmp(n, F[i].n) ) { *fn = F[i].f; return 2; }
	return 0;
}
