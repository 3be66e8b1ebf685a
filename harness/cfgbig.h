/* Long, well-formed configuration texts: one dimension (key, string, comment, number, entries, depth, ...) grows to n. Shared by the ladders of C17 - C20. */
#pragma once
static char *big_b; static size_t big_n;
static void bp(char const *s) { size_t l = strlen(s); memcpy(big_b + big_n, s, l+1); big_n += l; }
static void br(char const *s, uint32_t n) { while( n-- ) bp(s); }
static void bf(char const *f, uint32_t i) { big_n += (size_t)sprintf(big_b + big_n, f, i); }
enum { BIG_KEY, BIG_STR, BIG_ESC, BIG_UNI, BIG_QUOTES, BIG_ENTRIES, BIG_STRINGS, BIG_SECTIONS, BIG_WS, BIG_HASH, BIG_SLASH, BIG_STAR, BIG_ZEROS, BIG_DIGITS, BIG_FRACTION, BIG_IOTA, BIG_ENUM, BIG_ENUMKEY, BIG_MATH, BIG_MATHPOS, BIG_DEEP, BIG_WIDEDEEP, BIG_COLOUR, BIG_VECTOR, BIG_FLOATS, BIG_KEYS, BIG_SEPARATORS, BIG_ENUMS, BIG_IOTAS, BIG_TABS, BIG_CONTROL, BIG_KINDS };
static char const *const big_name[] = {"key", "string", "escapes", "unicode escapes", "quotes", "entries", "string entries", "sections", "white space", "# comment", "// comment", "/* comment", "leading zeros", "digits", "fraction", "iota", "enum", "enum in one key", "math terms", "math after text", "depth", "depth with entries", "colour", "vector", "floats", "long keys", "digit separators", "enum and math", "iota and math", "tabs and line ends", "control characters"};
/* false: n makes no sense for this kind */
static bool big_doc(uint32_t kind, uint32_t n) {
	if( !big_b ) big_b = __real_malloc(6000000); big_n = 0; big_b[0] = 0;
	switch( kind ) {
	case BIG_KEY: if( n==0 ) return false; bp("'a' 1 '"); for( uint32_t i=0; i < n; i++ ) bf("%c", 'a' + (i*7 + 25) % 26); bp("' 'v' 'b' 2 's' {'"); for( uint32_t i=0; i < n; i++ ) bf("%c", 'A' + i*5 % 26); bp("' 3}"); break;
	case BIG_STR: bp("'k' '"); for( uint32_t i=0; i < n; i++ ) bf("%c", 'a' + (i + i/26) % 26); bp("' 'l' \""); for( uint32_t i=0; i < n; i++ ) bf("%c", " _9'#{"[(i + i/7) % 6]); bp("\" 'm' true"); break;
	case BIG_ESC: bp("'k' '"); for( uint32_t i=0; i < n; i++ ) bp((char const *[]){"\\n", "\\t", "\\\\", "\\\"", "\\x41 ", "\\101", "q"}[i % 7]); bp("' 'l' 1"); break;
	case BIG_UNI: bp("'k\\u00e9' '"); for( uint32_t i=0; i < n; i++ ) bp((char const *[]){"\\u00e9", "\\U0001F600", "\\u65e5", "\xc3\xa9"}[i % 4]); bp("' 'l' 1"); break;
	case BIG_QUOTES: bp("'k' \""); br("'", n); bp("\" 'l' '"); br("\"", n); bp("'"); break;
	case BIG_ENTRIES: for( uint32_t i=0; i < n; i++ ) { bf("'k%u' ", i); bf("%u, ", i*3); } break;
	case BIG_STRINGS: for( uint32_t i=0; i < n; i++ ) { bf("'%u': ", i*7); bf("'value %u'\n", i); } break;
	case BIG_SECTIONS: for( uint32_t i=0; i < n; i++ ) { bf("'s%u' {'i' iota 'j' ", i); bf("'%u' 'k' c[1 2 3 4]} ", i); } break;
	case BIG_WS: bp("'a'"); br(" \n", n); bp("1 "); br(",", n); bp("'b':"); br("\t", n); bp("'x'"); br(":", n); break;
	case BIG_HASH: bp("'a' 1 #"); br("c'", n); bp("\n'b' 2 #"); br("x\\", n); bp("\n\n'c' 3"); break;
	case BIG_SLASH: bp("'a' //"); br("\"{", n); bp("\n1 'b' 2 //"); br("z", n); break;
	case BIG_STAR: bp("/*"); br("* ", n); bp("*/'a' 1 /*"); br("/'", n); bp("*/ 'b' 2 "); for( uint32_t i=0; i < n; i++ ) bp("/**/"); bp("'c' 3"); break;
	case BIG_ZEROS: if( n > 300 || n==0 ) return false; bp("'a' 0b"); br("0", n); bp("101 'b' 0x"); br("0", n); bp("fF 'c' 0"); br("0", n); bp("17 'd' -"); br("0", n); bp(".5 'e' 0x"); br("0", n); bp(".8p1"); break;
	case BIG_DIGITS: if( n > 4000 || n==0 ) return false; bp("'a' "); for( uint32_t i=0; i < n && i < 18; i++ ) bf("%u", 1 + i*3 % 9); bp(" 'b' "); for( uint32_t i=0; i < n; i++ ) bf("%u", 1 + i*3 % 9); bp(". 'c' -"); for( uint32_t i=0; i < n; i++ ) bf("%u", i*7 % 9 + 1); bp("e-2 'd' 1"); for( uint32_t i=0; i < n && i < 6; i++ ) bp("'0"); break;
	case BIG_FRACTION: if( n > 300 || n==0 ) return false; bp("'a' ."); for( uint32_t i=0; i < n; i++ ) bf("%u", 1 + i*3 % 9); bp(" 'b' -3."); br("0", n); bp("1 'c' 1e-"); br("0", n < 30? n : 30); bp("5 'd' v[."); br("3", n); bp("]"); break;
	case BIG_IOTA: for( uint32_t i=0; i < n; i++ ) { bf("'i%u' iota ", i); if( i % 3==0 ) bf("'g%u' IOTA ", i); if( i % 64==5 ) bf("'s%u' {'x' iota 'y' iota 'z' IOTA} ", i); } break;
	case BIG_ENUM: for( uint32_t i=0; i < n; i++ ) { bp("'<enum>' iota "); if( i % 4==1 ) bp("'G<ENUM>' 1 "); if( i % 50==7 ) bp("'in<ENUM>' {'<enum>' 1 '<enum>' 2 'p<ENUM>' 3} "); } break;
	case BIG_ENUMKEY: if( n==0 ) return false; bp("'<enum>' 1 '"); br("<enum>", n); bp("' 2 '"); br("x<ENUM>", n); bp("' 3 'z<enum>' 4 'z<ENUM>' 5"); break;
	case BIG_MATH: bp("'k' '<math 1"); for( uint32_t i=0; i < n; i++ ) bp((char const *[]){"+2", " * 1", "-(3)", " + iota"}[i % 4]); bp(">' 'l' 1"); break;
	case BIG_MATHPOS: bp("'k' '"); br("p", n); bp("<math 2+3>"); br("q", n); bp("' '"); br("k", n); bp("<math 7>' 1"); break;
	case BIG_DEEP: if( n > 100 ) return false; br("'s'{", n); bp("'v' 'x'"); br("}", n); bp("'t' 1"); break;
	case BIG_WIDEDEEP: if( n > 60 ) return false; for( uint32_t i=0; i < n; i++ ) { bf("'a%u' iota ", i); bf("'b' 'x%u' 's' {", i); } bp("'v' 1"); for( uint32_t i=0; i < n; i++ ) { bp("} 'c' iota 'd' null "); } break;
	case BIG_COLOUR: bp("'k' c["); for( uint32_t i=0; i < n; i++ ) bf("%u,", i*37 % 256); bp("] 'l' 1"); break;
	case BIG_VECTOR: bp("'k' v["); for( uint32_t i=0; i < n; i++ ) bf("%u.5 ", i*37); bp("] 'l' 1"); break;
	case BIG_FLOATS: for( uint32_t i=0; i < n; i++ ) { bf("'f%u' ", i); bf("%u.25 ", i*11); bf("'v%u' v[1 2.5 ", i); bf("%u] ", i); } break;
	case BIG_KEYS: if( n > 1100 ) return false; for( uint32_t k=0; k < 4; k++ ) { bp("'"); for( uint32_t i=0; i < n; i++ ) bf("%c", 'a' + i % 26); bf("%u' ", k); bf("%u ", k); } break;
	/* n separated digits, all but the last few of them zero */
	case BIG_SEPARATORS: if( n > 600 || n==0 ) return false; bp("'a' 0b"); br("0'", n); bp("1'0'1 'b' 0x"); br("0'", n); bp("f'F 'c' 0"); br("'0", n); bp("'1'7 'd' -1"); for( uint32_t i=0; i < n && i < 18; i++ ) bf("'%u", (i*7 + 3) % 10); bp(" 'e' ."); br("0'", n < 300? n : 300); bp("5 'f' 0b1"); for( uint32_t i=1; i < n && i < 63; i++ ) bf("'%u", (i*5+1) % 3 % 2); bp(" 'g' v[0'0'1, 0x1'0] 'h' 0"); for( uint32_t i=0; i < n && i < 20; i++ ) bf("'%u", (i*3 + 1) % 8); bp(" 'i' +7"); break;
	/* every counter after n keys that use it */
	case BIG_ENUMS: if( n > 1100 ) return false; for( uint32_t i=0; i < n; i++ ) bf("'a<enum>%u' 'x' ", i); bp("'m<math enum>' '<math enum * 2>' "); for( uint32_t i=0; i < n; i++ ) bf("'b<ENUM>%u' null ", i); bp("'M<math ENUM>' '<math ENUM - enum>' 's' { 'q' '<math enum>' 'r' '<math ENUM>' '<enum>' '<math 3 * enum + ENUM>' }"); break;
	case BIG_IOTAS: if( n > 1100 ) return false; for( uint32_t i=0; i < n; i++ ) bf("'a%u' iota ", i); bp("'m<math iota>' '<math iota * 2>' "); for( uint32_t i=0; i < n; i++ ) bf("'b%u' IOTA ", i); bp("'M<math IOTA>' '<math IOTA - iota>' 's' { 'q' '<math iota>' 'r' '<math IOTA>' 'i' iota 't' '<math 3 * iota + IOTA>' }"); break;
	case BIG_TABS: bp("'k' 'a"); for( uint32_t i=0; i < n; i++ ) bp((char const *[]){"\t", "x", "\r\n", "\r", "\n", "\t\t", "yz", "\r\r\n"}[(i + i/8) % 8]); bp("b' 'l\t' '\t' 'm' '\r'"); break;
	case BIG_CONTROL: bp("'k' '"); for( uint32_t i=0; i < n; i++ ) { uint32_t c = (i*7 + i/32) % 33; bf("\\%03o", c==32? 127 : c); if( i % 5==2 ) bp("1"); if( i % 7==3 ) bp("\\\\"); } bp("' 'q"); for( uint32_t i=0; i < n && i < 3000; i++ ) { bf("\\%03o", (i*5 + 1) % 32); if( i % 3==1 ) bp("7"); } bp("' 1"); break;
	}
	return true;
}
static uint32_t const BIG_SZ[] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,22,24,25,30,31,32,33,40,48,50,60,63,64,65,66,72,80,96,99,100,101,110,120,126,127,128,129,130,160,192,199,200,201,250,254,255,256,257,258,280,300,383,400,500,510,511,512,513,600,1000,1022,1023,1024,1025,1026,1100,2000,2047,2048,2049,3000,4000,4094,4095,4096,4097,5000,8192,10000,20000,32768};
enum { BIG_NSZ = sizeof BIG_SZ / sizeof *BIG_SZ };
static bool big_costly(uint32_t kind, uint32_t n) { return kind==BIG_ENTRIES || kind==BIG_STRINGS || kind==BIG_SECTIONS || kind==BIG_IOTA || kind==BIG_ENUM || kind==BIG_FLOATS? n > 2100 : kind==BIG_ENUMKEY? n > 600 : n > 10000; }
