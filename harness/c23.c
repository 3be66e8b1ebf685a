/* C23: plugin life cycle under a fake loader (all reachable states), and directory scans (all small directory contents). */
#define _GNU_SOURCE
#include "vp.h"
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "plugins/plugins.h"
char const *const vp_property = "C23";
enum { LIFE1, LIFE2, HISTORIES, DIRS, DIRFAIL, NESTED, NAMES, MANY, TIMES, NCFG };
static int cfg;
int vp_nconfigs(void) { return NCFG; }
void vp_config_name(int c, char *o, size_t n) { snprintf(o, n, "%s", ((char const *[]){"one plugin, all reachable states", "two plugins, all reachable states", "one plugin, all histories", "every directory content", "every directory content with an unreadable directory", "nested directories and long paths", "every name byte and length", "many entries", "write times and long paths"})[c]); }
int vp_config_shards(int c) { return c==DIRS || c==DIRFAIL || c==NAMES? 8 : c==HISTORIES || c==MANY? 4 : 1; }

/* ---------- fake loader ---------- */
enum { NH = 64 };
static struct { bool open; char path[32]; } hnd[NH]; static int nopen;
static bool dl_fails, st_fails, sym_missing; static time_t mt[2]; static char const *const PATH[2] = {"mod/a.so", "mod/b.so"};
static int obj; static int opened_now, closed_now, closed_which; static bool faking;
void *__real_dlopen(char const *, int); int __real_dlclose(void *); void *__real_dlsym(void *, char const *); int __real_stat(char const *, struct stat *); DIR *__real_opendir(char const *); int __real_closedir(DIR *);
static char const *longpath; static time_t longtime;
static int pathno(char const *p) { if( longpath ) return strcmp(p, longpath)? -1 : 0; for( int i=0; i < 2; i++ ) if( !strcmp(p, PATH[i]) ) return i; return -1; }
void *__wrap_dlopen(char const *p, int f) {
	(void)f; CHECK(p && pathno(p) >= 0, "the loader was asked for '%s'", p? p : "(nothing)"); if( dl_fails ) return NULL;
	for( int i=0; i < NH; i++ ) if( !hnd[i].open ) { hnd[i].open = true; snprintf(hnd[i].path, sizeof hnd[i].path, "%s", p); nopen++; opened_now++; return &hnd[i]; }
	vp_fail("too many open libraries");
}
int __wrap_dlclose(void *h) { for( int i=0; i < NH; i++ ) if( h==&hnd[i] ) { CHECK(hnd[i].open, "a library was closed twice"); hnd[i].open = false; nopen--; closed_now++; closed_which = i; return 0; } vp_fail("something that is no library was closed"); }
void *__wrap_dlsym(void *h, char const *n) { for( int i=0; i < NH; i++ ) if( h==&hnd[i] ) { CHECK(hnd[i].open, "a symbol was looked up in a closed library"); return strcmp(n, "obj") || sym_missing? NULL : &obj; } vp_fail("a symbol was looked up in something that is no library"); }
int __wrap_stat(char const *p, struct stat *s) { if( !faking ) return __real_stat(p, s); int k = pathno(p); CHECK(k >= 0, "the write time of '%s' was asked for", p); if( st_fails ) return -1; memset(s, 0, sizeof *s); s->st_mtime = longpath? longtime : 1000 + mt[k]; return 0; }

/* ---------- reference ---------- */
enum { MAXP = 2 }; static int NPL;
static struct HarbolPlugin *pl[MAXP];
static struct ref { int handle; int path; int err; time_t lw; } R[MAXP];
static struct { int n; struct HarbolPlugin *p; void *ud; bool re, load; int handle; bool path_ok; } ev; static int udv[MAXP];
static int hidx(void *d) { for( int i=0; i < NH; i++ ) if( d==&hnd[i] ) return i; return -1; }
static void event(struct HarbolPlugin *p, void *ud, bool re, bool load) { ev.n++; ev.p = p; ev.ud = ud; ev.re = re; ev.load = load; ev.handle = hidx(p->dll); CHECK(ev.handle >= 0 && hnd[ev.handle].open, "the %s event ran with no library open", load? "load" : "unload"); ev.path_ok = p->path && !strcmp(p->path, hnd[ev.handle].path); if( load ) CHECK(harbol_plugin_get_obj(p, "obj")==(sym_missing? NULL : &obj), "an object can't be had in the load event"); }
static void on_load(struct HarbolPlugin *p, void *ud, bool re) { event(p, ud, re, true); }
static void on_unload(struct HarbolPlugin *p, void *ud, bool re) { event(p, ud, re, false); }
static void on_reload_out(struct HarbolPlugin *p, void *ud, bool re) { event(p, ud, re, false); ev.n += 100; }
static void begin(void) { faking = true; NPL = cfg==LIFE2? 2 : 1; nopen = 0; memset(hnd, 0, sizeof hnd); mt[0] = mt[1] = 0; for( int i=0; i < NPL; i++ ) { pl[i] = __real_malloc(sizeof *pl[i]); memset(pl[i], 0, sizeof *pl[i]); R[i] = (struct ref){-1, -1, HarbolPluginErrNone, 0}; } }
static void verify(void) {
	int o = 0; for( int i=0; i < NPL; i++ ) {
		struct HarbolPlugin *p = pl[i]; struct ref *r = &R[i];
		CHECK((p->dll != NULL)==(r->handle >= 0), "the plugin %s a library", p->dll? "has" : "has not"); if( p->dll ) { o++; CHECK(hidx(p->dll)==r->handle && hnd[r->handle].open, "the plugin's library is not the one opened for it"); }
		CHECK((p->path != NULL)==(r->path >= 0), "the plugin %s a path", p->path? "has" : "has no"); if( p->path ) CHECK(!strcmp(p->path, PATH[r->path]), "the plugin's path is '%s'", p->path);
		CHECK(p->err==r->err, "the error is %d, should be %d", p->err, r->err); if( r->path >= 0 ) CHECK(p->last_write==1000+r->lw, "write time");
		char const *e = harbol_plugin_get_err(p); CHECK(e && *e && (strstr(e, "No Error") != NULL)==(r->err==0), "the error text is '%s'", e);
	}
	CHECK(nopen==o, "%d libraries are open, %d plugins are loaded", nopen, o);
}
static void end(void) { for( int i=0; i < NPL; i++ ) { harbol_plugin_clear(pl[i], NULL, NULL); __real_free(pl[i]); } CHECK(nopen==0, "%d libraries stay open", nopen); faking = false; }
/* operation numbers, per plugin */
enum { LOAD = 0 /* path2 x fn2 x (ok, dl fails, stat fails, alloc fails) */, RELOAD = 16 /* fn4 x (ok, dl fails, stat fails) */, CLEAR = 28, CHANGED = 30, GETOBJ = 32, TOUCH = 35 /* 2 paths x 3 times */, PER = 41 };
static void opname(uint32_t o, char *b, size_t n) {
	uint32_t p = o/PER, k = o%PER;
	if( k < RELOAD ) snprintf(b, n, "load(%u, '%s', %s)%s", p, PATH[k&1], k&2? "event" : "no event", ((char const *[]){"", " the library can't be opened", " the file is gone", " no memory"})[k>>2]);
	else if( k < CLEAR ) { k -= RELOAD; snprintf(b, n, "reload(%u,%s%s)%s", p, k&1? " load event" : "", k&2? " unload event" : "", ((char const *[]){"", " the library can't be opened", " the file is gone"})[k>>2]); }
	else if( k < CHANGED ) snprintf(b, n, "clear(%u%s)", p, k-CLEAR? ", unload event" : ""); else if( k < GETOBJ ) snprintf(b, n, "changed(%u)%s", p, k-CHANGED? " the file is gone" : ""); else if( k < TOUCH ) snprintf(b, n, "get_obj(%u, %s)", p, k-GETOBJ==0? "obj" : k-GETOBJ==1? "missing obj" : "other"); else snprintf(b, n, "file %u written at %u", (k-TOUCH)/3, (k-TOUCH)%3);
}
static int apply(uint32_t o, bool check) {
	(void)check; uint32_t p = o/PER, k = o%PER; if( (int)p >= NPL ) return 0; struct HarbolPlugin *x = pl[p]; struct ref *r = &R[p];
	dl_fails = st_fails = sym_missing = false; memset(&ev, 0, sizeof ev); opened_now = closed_now = 0; int was = r->handle;
	if( k < RELOAD ) {
		if( r->path >= 0 || r->handle >= 0 ) return 0;
		int mode = (int)k>>2; dl_fails = mode==1; st_fails = mode==2; char const *src = PATH[k&1]; size_t n = strlen(src)+1; char *e = __real_malloc(n); memcpy(e, src, n);
		if( mode==3 ) vp_arm(1, 0); bool ok = harbol_plugin_load(x, e, k&2? on_load : NULL, &udv[p]); vp_disarm(); memset(e, 0x55, n); __real_free(e);
		CHECK(ok==(mode==0), "load returned %d", ok); r->err = mode==0? HarbolPluginErrNone : mode==1? HarbolPluginErrLibLoadFail : HarbolPluginErrBadPath;
		if( ok ) { CHECK(opened_now==1 && closed_now==0, "load opened %d and closed %d libraries", opened_now, closed_now); r->handle = hidx(x->dll); CHECK(r->handle >= 0, "no library after load"); CHECK(!strcmp(hnd[r->handle].path, src), "the wrong library was loaded"); r->path = (int)(k&1); r->lw = mt[k&1]; CHECK(ev.n==((k&2)? 1 : 0), "the load event ran %d times", ev.n); if( ev.n ) CHECK(ev.p==x && ev.ud==&udv[p] && !ev.re && ev.load && ev.path_ok && ev.handle==r->handle, "the load event got the wrong arguments"); if( ev.n && sym_missing ) {} }
		else CHECK(ev.n==0, "the load event ran for a failed load");
	} else if( k < CLEAR ) {
		uint32_t q = k-RELOAD; int mode = (int)q>>2; dl_fails = mode==1; st_fails = mode==2; bool lf = q&1, uf = q&2;
		/* two event functions, so order is seen: unload first (n becomes 101), load after */
		bool ok = harbol_plugin_reload(x, lf? on_load : NULL, uf? on_reload_out : NULL, &udv[p]);
		if( r->path < 0 ) { CHECK(!ok && ev.n==0 && opened_now==0 && closed_now==0, "reloading a plugin that was never loaded did something"); r->err = HarbolPluginErrNoPath; }
		else { CHECK(ok==(mode != 1), "reload returned %d", ok); CHECK(closed_now==(was >= 0) && (was < 0 || closed_which==was), "reload closed %d libraries", closed_now); CHECK(opened_now==(ok? 1 : 0), "reload opened %d libraries", opened_now);
			CHECK(ev.n/100==(was >= 0 && uf? 1 : 0), "the unload event ran %d times", ev.n/100); CHECK(ev.n%100==(was >= 0 && uf) + (ok && lf), "the load event ran %d times", ev.n%100 - ev.n/100);
			if( ev.n ) CHECK(ev.p==x && ev.ud==&udv[p] && ev.re && ev.path_ok && ev.load==(ok && lf), "the events got the wrong arguments or ran in the wrong order"); if( ok && lf ) CHECK(ev.handle==hidx(x->dll), "load event for another library");
			r->handle = ok? hidx(x->dll) : -1; r->err = ok? HarbolPluginErrNone : HarbolPluginErrCantReload; if( ok && mode==0 ) r->lw = mt[r->path]; }
	} else if( k < CHANGED ) {
		harbol_plugin_clear(x, k-CLEAR? on_unload : NULL, &udv[p]); bool ran = was >= 0 && k-CLEAR;
		CHECK(ev.n==(ran? 1 : 0), "the unload event ran %d times for a plugin that was %sloaded", ev.n, was >= 0? "" : "not "); if( ev.n ) CHECK(ev.p==x && ev.ud==&udv[p] && !ev.re && !ev.load && ev.path_ok && ev.handle==was, "the unload event got the wrong arguments");
		CHECK(closed_now==(was >= 0), "clear closed %d libraries", closed_now); *r = (struct ref){-1, -1, HarbolPluginErrNone, 0};
	} else if( k < GETOBJ ) {
		st_fails = k-CHANGED; bool c = harbol_plugin_changed(x), want = r->path >= 0 && !st_fails && mt[r->path] != r->lw; CHECK(c==want, "changed returned %d", c); if( want ) r->lw = mt[r->path]; if( r->path < 0 ) r->err = HarbolPluginErrNoPath; CHECK(!opened_now && !closed_now, "changed touched a library");
	} else if( k < TOUCH ) {
		int w = (int)(k-GETOBJ); sym_missing = w==1; void *g = harbol_plugin_get_obj(x, w==2? "other" : "obj"); CHECK(g==(r->handle >= 0 && w==0? (void*)&obj : NULL), "get_obj returned %p", g); r->err = r->handle >= 0? HarbolPluginErrNone : HarbolPluginErrNoLibLoaded;
	} else { if( p ) return 0; mt[(k-TOUCH)/3] = (time_t)((k-TOUCH)%3); }
	verify(); return 1;
}
static size_t canon(uint8_t *buf, size_t cap) { struct vp_buf b = {buf, 0, cap}; for( int i=0; i < NPL; i++ ) { vp_put64(&b, (uint64_t)(R[i].handle >= 0)); vp_put64(&b, (uint64_t)(R[i].path+1)); vp_put64(&b, (uint64_t)pl[i]->err); vp_put64(&b, (uint64_t)pl[i]->last_write); } vp_put64(&b, (uint64_t)mt[0]); vp_put64(&b, (uint64_t)mt[1]); return b.n; }
static struct vp_sys sys = {PER*MAXP, begin, apply, canon, end, opname};

/* ---------- directories ---------- */
static int ndirs; static char bad_dir[8192];
DIR *__wrap_opendir(char const *p) { if( faking ) vp_fail("a directory was opened"); char b[8200]; snprintf(b, sizeof b, "%s", p); size_t n = strlen(b); while( n > 1 && b[n-1]=='/' ) b[--n] = 0; if( bad_dir[0] && !strcmp(b, bad_dir) ) { errno = EACCES; return NULL; } DIR *d = __real_opendir(p); if( d ) ndirs++; return d; }
int __wrap_closedir(DIR *d) { ndirs--; return __real_closedir(d); }
enum { MAXF = 4000 }; static char *got[MAXF], *want[MAXF]; static int ngot, nwant; static int mark;
static void cb(char const path[], char const name[], void *ud) { CHECK(ud==&mark, "the wrong userdata"); CHECK(ngot < MAXF, "the scan does not end: '%s'", path); char const *s = strrchr(path, '/'); CHECK(s && !strcmp(s+1, name), "'%s' was reported with the name '%s'", path, name); struct stat st; CHECK(__real_stat(path, &st)==0, "'%s' was reported, it does not exist", path); got[ngot] = __real_malloc(strlen(path)+1); strcpy(got[ngot++], path); }
static int cmp(void const *a, void const *b) { return strcmp(*(char*const*)a, *(char*const*)b); }
/* independent walk */
static void walk(char const *dir, char const *ext, struct stat const *up, int nup) {
	struct stat st[200], s; if( nup >= 199 || __real_stat(dir, &s) ) return; for( int i=0; i < nup; i++ ) if( up[i].st_ino==s.st_ino && up[i].st_dev==s.st_dev ) return;
	memcpy(st, up, (size_t)nup * sizeof *st); st[nup] = s; if( bad_dir[0] && !strcmp(dir, bad_dir) ) return; DIR *d = __real_opendir(dir); if( !d ) return;
	for( struct dirent *e; (e = readdir(d)); ) {
		char p[8192]; if( snprintf(p, sizeof p, "%s/%s", dir, e->d_name) >= 4096 || __real_stat(p, &s) ) continue;
		if( S_ISDIR(s.st_mode) ) { if( e->d_name[0] != '.' ) walk(p, ext, st, nup+1); continue; }
		char const *dot = strrchr(e->d_name, '.'); if( !strcmp(dot? dot+1 : "", ext) ) { want[nwant] = __real_malloc(strlen(p)+1); strcpy(want[nwant++], p); }
	}
	__real_closedir(d);
}
static void rmrf(int at, char const *name) { int fd = openat(at, name, O_RDONLY|O_DIRECTORY|O_NOFOLLOW); if( fd >= 0 ) { DIR *d = fdopendir(fd); for( struct dirent *e; (e = readdir(d)); ) if( strcmp(e->d_name, ".") && strcmp(e->d_name, "..") ) rmrf(fd, e->d_name); __real_closedir(d); unlinkat(at, name, AT_REMOVEDIR); } else unlinkat(at, name, 0); }
static void scan(char const *arg, char const *ext, char const *full) {
	ngot = nwant = ndirs = 0; struct stat none[1]; walk(full, ext? ext : "so", none, 0);
	char *e = __real_malloc(strlen(arg)+1), *x = NULL; strcpy(e, arg); if( ext ) { x = __real_malloc(strlen(ext)+1); strcpy(x, ext); }
	bool r = harbol_plugin_dir_open(e, cb, &mark, x); __real_free(e); __real_free(x); (void)r; if( !bad_dir[0] ) CHECK(r, "scanning failed");
	CHECK(ndirs==0, "%d directories stay open", ndirs); qsort(got, (size_t)ngot, sizeof *got, cmp); qsort(want, (size_t)nwant, sizeof *want, cmp);
	for( int i=0; i < ngot || i < nwant; i++ ) { int c = i >= ngot? 1 : i >= nwant? -1 : strcmp(got[i], want[i]); CHECK(c==0, c < 0? "'%s' was reported and should not be (or twice)" : "'%s' was not reported", c < 0? got[i] : want[i]); }
	vp_outcome((uint64_t)ngot*31+7); for( int i=0; i < ngot; i++ ) __real_free(got[i]); for( int i=0; i < nwant; i++ ) __real_free(want[i]);
	if( ngot ) { ngot = 0; harbol_plugin_dir_open(arg, NULL, NULL, ext); CHECK(ndirs==0, "%d directories stay open", ndirs); }
}
static void mk(char const *p) { int fd = creat(p, 0644); if( fd >= 0 ) close(fd); }
static char cwd[4096]; enum { NITEM = 13 };
static void build(uint32_t set) { /* every entry is there or not */
	rmrf(AT_FDCWD, "w"); mkdir("w", 0755); mkdir("w/base", 0755); mk("w/o.so");
	char nm[300];
	for( int i=0; i < NITEM; i++ ) if( set & (1u << i) ) switch( i ) {
	case 0: mk("w/base/a.so"); break; case 1: mk("w/base/b.txt"); mk("w/base/noext"); break; case 2: mk("w/base/.h.so"); mk("w/base/.so"); break; case 3: mk("w/base/c.so.txt"); mk("w/base/xso"); mk("w/base/k."); break; case 4: symlink("nowhere", "w/base/dang.so"); symlink("self.so", "w/base/self.so"); break;
	case 5: symlink(".", "w/base/loop.so"); symlink(".", "w/base/loop"); break; case 6: symlink("..", "w/base/up"); break; case 7: mkdir("w/base/sub", 0755); mk("w/base/sub/s.so"); symlink("..", "w/base/sub/back"); symlink("gone", "w/base/sub/g.so"); mkdir("w/base/sub/empty", 0755); break;
	case 8: mkdir("w/base/.hid", 0755); mk("w/base/.hid/x.so"); break; case 9: mkdir("w/base/d.so", 0755); mk("w/base/d.so/y.so"); mkdir("w/base/d.so/e", 0755); mk("w/base/d.so/e/z.so"); break; case 10: symlink("../o.so", "w/base/lnk.so"); symlink("sub", "w/base/sub2"); break;
	case 11: memset(nm, 'n', 255); nm[255] = 0; memcpy(nm+252, ".so", 3); { char p[400]; snprintf(p, sizeof p, "w/base/%s", nm); mk(p); snprintf(p, sizeof p, "w/base/%.255s", nm); p[strlen(p)-3] = 'z'; mkdir(p, 0755); strcat(p, "/q.so"); mk(p); } break; case 12: mkfifo("w/base/f.so", 0644); mk("w/base/A.SO"); mk("w/base/sp ace.so"); break; }
}
static char full[8192];
static void dirs(uint32_t set, uint32_t form) {
	build(set); if( !getcwd(cwd, sizeof cwd) ) vp_fail("getcwd"); bad_dir[0] = 0; char const *arg = ((char const *[]){"w/base", "w/base", "w/base/", "./w/base", "w"})[form]; char const *ext = ((char const *[]){NULL, "so", "txt", "", "SO"})[form];
	snprintf(full, sizeof full, "%s/%s", cwd, form==2? "w/base" : arg); scan(arg, ext, full);
}
static char const *const BAD[] = {"w/base", "w/base/sub", "w/base/d.so", "w/base/d.so/e", "w/base/loop", "w/base/sub/back", "w/base/sub/empty", "w/base/up", "w/base/sub2"};
static void dirfail(uint32_t set, uint32_t bad) { int err = -1; if( bad==0 ) { fflush(stderr); err = dup(2); int nul = open("/dev/null", O_WRONLY); dup2(nul, 2); close(nul); } /* the scan complains there */ build(set); if( !getcwd(cwd, sizeof cwd) ) vp_fail("getcwd"); snprintf(full, sizeof full, "%s/w/base", cwd); snprintf(bad_dir, sizeof bad_dir, "%s/%s", cwd, BAD[bad]); scan("w/base", NULL, full); bad_dir[0] = 0; if( err >= 0 ) { fflush(stderr); dup2(err, 2); close(err); } }
static void nested(uint32_t kind, uint32_t n) {
	rmrf(AT_FDCWD, "w"); mkdir("w", 0755); if( !getcwd(cwd, sizeof cwd) ) vp_fail("getcwd"); bad_dir[0] = 0; char nm[260]; int fd = open("w", O_RDONLY|O_DIRECTORY);
	int len = kind==0? 1 : kind==1? 240 : (int)(3 + n%250), levels = kind==2? 30 : (int)n; memset(nm, 'd', (size_t)len); nm[len] = 0;
	for( int i=0; i < levels; i++ ) { int f = openat(fd, i & 1? "f.so" : "g.txt", O_CREAT|O_WRONLY, 0644); if( f >= 0 ) close(f); mkdirat(fd, nm, 0755); int d = openat(fd, nm, O_RDONLY|O_DIRECTORY); close(fd); fd = d; } { int f = openat(fd, "last.so", O_CREAT|O_WRONLY, 0644); if( f >= 0 ) close(f); } close(fd);
	snprintf(full, sizeof full, "%s/w", cwd); scan("w", "so", full); rmrf(AT_FDCWD, "w");
}
/* one name: every byte in every place, and every length */
static void names(uint32_t kind, uint32_t n) {
	rmrf(AT_FDCWD, "w"); mkdir("w", 0755); mkdir("w/base", 0755); if( !getcwd(cwd, sizeof cwd) ) vp_fail("getcwd"); bad_dir[0] = 0; snprintf(full, sizeof full, "%s/w/base", cwd);
	char nm[300], ext[300], p[800]; strcpy(ext, "so");
	if( kind < 8 ) { /* byte n */
		char c = (char)n; if( n==0 || n=='/' ) return;
		switch( kind ) { case 0: snprintf(nm, sizeof nm, "%cab.so", c); break; case 1: snprintf(nm, sizeof nm, "ab%c.so", c); break; case 2: snprintf(nm, sizeof nm, "ab.%cso", c); snprintf(ext, sizeof ext, "%cso", c); break; case 3: snprintf(nm, sizeof nm, "ab.so%c", c); snprintf(ext, sizeof ext, "so%c", c); break;
		case 4: snprintf(nm, sizeof nm, "ab.%c", c); snprintf(ext, sizeof ext, "%c", c); break; case 5: snprintf(nm, sizeof nm, "%c", c); ext[0] = 0; break; case 6: snprintf(nm, sizeof nm, "%cab", c); break; default: snprintf(nm, sizeof nm, "ab%c", c); }
		if( !strcmp(nm, ".") ) return;
	} else { /* length n */ if( n==0 || n > 255 ) return; memset(nm, 'x', n); nm[n] = 0; if( kind==8 ) { if( n < 4 ) return; memcpy(nm+n-3, ".so", 3); } else if( kind==9 ) { if( n < 3 ) return; nm[1] = '.'; strcpy(ext, nm+2); } else if( kind==10 ) { if( n < 3 ) return; memset(nm, '.', n); memcpy(nm+n-2, "so", 2); } else ext[0] = 0, kind = kind==11? 6 : 5; }
	if( kind==6 || kind==7 ) { snprintf(p, sizeof p, "w/base/%s", nm); mkdir(p, 0755); strcat(p, "/f.so"); mk(p); snprintf(p, sizeof p, "w/base/%s/%s", nm, nm); mkdir(p, 0755); strcat(p, "/g.so"); mk(p); strcpy(ext, "so"); }
	else { snprintf(p, sizeof p, "w/base/%s", nm); mk(p); mkdir("w/base/d", 0755); snprintf(p, sizeof p, "w/base/d/%s", nm); mk(p); mk("w/base/a.so"); mk("w/base/a.soo"); mk("w/base/a.s"); mk("w/base/noext");
		if( kind==9 && n < 255 ) { size_t l = strlen(nm); snprintf(p, sizeof p, "w/base/%sy", nm); mk(p); nm[l-1] = 'y'; snprintf(p, sizeof p, "w/base/%s", nm); mk(p); nm[l-1] = 0; snprintf(p, sizeof p, "w/base/%s", nm); mk(p); } } /* almost the same extension */
	scan("w/base", ext, full);
}
static uint32_t const MANYN[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 900, 1000, 1023, 1024, 1025, 1300, 1900};
static void many(uint32_t kind, uint32_t n) {
	rmrf(AT_FDCWD, "w"); mkdir("w", 0755); mkdir("w/base", 0755); if( !getcwd(cwd, sizeof cwd) ) vp_fail("getcwd"); bad_dir[0] = 0; snprintf(full, sizeof full, "%s/w/base", cwd); char p[400], q[400];
	for( uint32_t i=0; i < n; i++ ) switch( kind ) {
	case 0: snprintf(p, sizeof p, "w/base/f%u.so", i); mk(p); break;
	case 1: snprintf(p, sizeof p, "w/base/d%u", i); mkdir(p, 0755); strcat(p, "/f.so"); mk(p); break;
	case 2: if( i==0 ) mk("w/base/o.so"); snprintf(p, sizeof p, "w/base/l%u.so", i); snprintf(q, sizeof q, i & 1? "o.so" : "l%u.so", i+1); if( i & 1 ) symlink(q, p); else if( symlink("o.so", p) ) mk(p); break;
	case 3: if( i==0 ) mk("w/base/o.so"); snprintf(p, sizeof p, "w/base/h%u.so", i); if( link("w/base/o.so", p) ) mk(p); break;
	case 4: snprintf(p, sizeof p, i % 3==0? "w/base/d%u" : i % 3==1? "w/base/t%u.txt" : "w/base/s%u.so", i); if( i % 3 ) mk(p); else { mkdir(p, 0755); strcat(p, "/x.so"); mk(p); } break;
	default: if( i==0 ) { mkdir("w/t", 0755); mk("w/t/t.so"); } snprintf(p, sizeof p, "w/base/k%u", i); if( symlink("../t", p) ) mk(p); }
	scan("w/base", NULL, full);
}
/* a plugin whose file has these write times, at a path of this length */
static time_t const TV[] = {0, 1, -1, 2, 59, 60, 3600, 86400, 2147483647, -2147483648L, 2147483648L, 4294967295L, 4294967296L, 4294967297L, 8589934592L, 253402300800L, 4611686018427387904L};
enum { NTV = sizeof TV / sizeof *TV };
static void times(uint32_t a, uint32_t b) {
	struct HarbolPlugin *p = __real_malloc(sizeof *p); memset(p, 0, sizeof *p); size_t len = a < NTV? 12 : a-NTV+1; char *path = __real_malloc(len+1), *keep = __real_malloc(len+1); for( size_t i=0; i < len; i++ ) path[i] = (char)(i % 41==7? '/' : 'a'+(i*7+a)%26); path[len] = 0; strcpy(keep, path);
	faking = true; nopen = 0; memset(hnd, 0, sizeof hnd); dl_fails = st_fails = sym_missing = false; longpath = keep; time_t t0 = a < NTV? TV[a] : 5, t1 = TV[b]; longtime = t0;
	CHECK(harbol_plugin_load(p, path, NULL, NULL), "load failed"); memset(path, 'Z', len); CHECK(p->last_write==t0, "write time"); CHECK(!strcmp(p->path, keep), "the path"); CHECK(!harbol_plugin_changed(p), "changed, it was not");
	longtime = t1; CHECK(harbol_plugin_changed(p)==(t0 != t1), "write time %lld, was %lld: changed is wrong", (long long)t1, (long long)t0); CHECK(!harbol_plugin_changed(p) && p->last_write==t1, "changed twice");
	longtime = t0; CHECK(harbol_plugin_reload(p, NULL, NULL, NULL) && p->last_write==t0 && !harbol_plugin_changed(p), "reload does not take the write time"); longtime = t1; CHECK(harbol_plugin_changed(p)==(t0 != t1), "changed after reload");
	harbol_plugin_clear(p, NULL, NULL); CHECK(nopen==0, "a library stays open"); longpath = NULL; faking = false; __real_free(p); __real_free(path); __real_free(keep);
}
static uint64_t nc;
static void one(uint32_t a, uint32_t b) {
	uint32_t t[2] = {a+1, b}; if( (int)(nc++ % (uint64_t)vp_nshards) != vp_shard ) return; if( !vp_case(t, 2) ) return;
	faking = false; if( cfg==DIRS ) dirs(a, b); else if( cfg==DIRFAIL ) dirfail(a, b); else if( cfg==NAMES ) names(a, b); else if( cfg==MANY ) many(a, MANYN[b]); else if( cfg==TIMES ) times(a, b); else nested(a, b); vp_case_done();
}
void vp_explore(int c) {
	cfg = c; nc = 0;
	switch( c ) {
	case LIFE1: sys.nops = PER; vp_bfs(&sys, 1000, 1000000); break; case LIFE2: sys.nops = PER*2; vp_bfs(&sys, 1000, 1000000); break;
	case HISTORIES: sys.nops = PER; vp_dfs(&sys, vp_tier? 5 : 4); break;
	case DIRS: for( uint32_t s=0; s < 1u << NITEM; s++ ) for( uint32_t f=0; f < (vp_tier? 5u : 1u); f++ ) one(s, vp_tier? f : (s ^ s>>5 ^ s>>10)%5); break;
	case DIRFAIL: for( uint32_t s=0; s < 128; s++ ) for( uint32_t b=0; b < 9; b++ ) one((s & 1) | (s>>1 & 63) << 5, b); break;
	case NAMES: for( uint32_t k=0; k < 13; k++ ) for( uint32_t n=0; n < 256; n++ ) one(k, n); break;
	case MANY: for( uint32_t k=0; k < 6; k++ ) for( uint32_t n=0; n < sizeof MANYN/sizeof *MANYN; n++ ) one(k, n); break;
	case TIMES: for( uint32_t x=0; x < NTV + (vp_tier? 5000u : 1300u); x++ ) for( uint32_t y=0; y < (x < NTV? (uint32_t)NTV : 1u); y++ ) one(x, y); break;
	default: for( uint32_t n=0; n < 120; n++ ) one(0, n); for( uint32_t n=0; n < 22; n++ ) one(1, n); for( uint32_t n=0; n < 250; n+=vp_tier? 1 : 7 ) one(2, n); }
	rmrf(AT_FDCWD, "w");
}
void vp_replay(int c, uint32_t const *t, size_t n) { cfg = c; vp_nshards = 1; vp_shard = 0; nc = 0; if( c <= HISTORIES ) { sys.nops = PER*MAXP; vp_replay_hist(&sys, t, n); } else one(t[0]-1, t[1]); }
