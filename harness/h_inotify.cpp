// Drives FileWatcherInotify::run() on the real sources, single threaded: select() is the
// scheduler (it changes the file system, calls the API, or hands over a batch), read()
// delivers real kernel notifications plus injected ones, split at arbitrary places.
#include "fsbox.hpp"
#include <efsw/efsw.hpp>
#include <efsw/FileWatcherImpl.hpp>
#include <efsw/FileWatcherInotify.hpp>
#include <efsw/FileSystem.hpp>
#include <sys/ioctl.h>
using namespace efsw;
static const char* PROP = getenv( "HARNESS_PROP" ) ? getenv( "HARNESS_PROP" ) : "C03";
static Harness h( PROP );
typedef FileWatcherInotify FWI;
struct Skip {};
struct Ev { int wd; uint32_t mask, cookie; std::string name; };
struct W { WatcherInotify* p; int wd; WatchID id; std::string dir; FileWatchListener* l; bool rec, synth; WatcherInotify* par; };
typedef std::map<int, W> Reg;
static std::string hist;
static FWI* impl; static FileWatcher* fw; static Box* box;
static std::string pendfail, pendtag;
static bool active = false;
static std::deque<Ev> queue_;
static std::set<int> kw; static std::map<int, std::pair<dev_t, ino_t>> wdino; static std::map<int, int> fds;
static uid_t fakeuid = 0;
static size_t liveW = 0;
// ---- counting the watch records
static void* livep[4096];
extern "C" void __real__ZN4efsw14WatcherInotifyC1Ev( void* );
extern "C" void __wrap__ZN4efsw14WatcherInotifyC1Ev( void* p ) { for ( auto& x : livep ) if ( !x ) { x = p; liveW++; break; } __real__ZN4efsw14WatcherInotifyC1Ev( p ); }
static void gone( void* p ) { if ( liveW && p ) for ( auto& x : livep ) if ( x == p ) { x = 0; liveW--; break; } }
void operator delete( void* p ) noexcept { gone( p ); free( p ); }
void operator delete( void* p, size_t ) noexcept { gone( p ); free( p ); }
void* operator new( size_t n ) { return malloc( n ); }

static void bad( const std::string& tag, const std::string& what ) { if ( pendfail.empty() ) { pendfail = what; pendtag = tag; } }
static void settle() {
	if ( pendfail.empty() ) return;
	std::string f = pendfail, t = pendtag; pendfail = "";
	if ( t.find( PROP ) != std::string::npos ) h.fail( f, hist );
	if ( getenv( "HALL" ) ) printf( "OTHER %s %s | %s\n", t.c_str(), f.c_str(), hist.c_str() );
	throw Skip();
}
struct CB { FileWatchListener* l; WatchID id; std::string dir, name, old; int act; std::set<int> wds; };
static std::vector<CB> cbs;
static bool incall = false;
struct L : FileWatchListener {
	int n;
	void rec( WatchID id, const std::string& d, const std::string& f, int a, const std::string& o ) {
		CB c = { this, id, d, f, o, a, {} };
		for ( auto& x : impl->mWatches ) if ( x.second->ID == id && x.second->Directory == d && x.second->Listener == this ) c.wds.insert( x.first );
		cbs.push_back( c );
	}
	void handleFileAction( WatchID id, const std::string& d, const std::string& f, Action a, const std::string& o ) override { rec( id, d, f, a, o ); }
	void handleMissedFileActions( WatchID id, const std::string& d ) override { rec( id, d, "", 100, "" ); }
};
static L ls[3];
static const char* an( int a ) { return a == 1 ? "Add" : a == 2 ? "Delete" : a == 3 ? "Modified" : a == 4 ? "Moved" : "Missed"; }
static std::string sh( const CB& c ) { return std::string( an( c.act ) ) + " " + show( c.name ) + ( c.old.size() ? " from " + show( c.old ) : "" ) + " in " + show( c.dir ) + " (watch " + num( c.id ) + ")"; }
static std::string rel( const std::string& p ) { return p.compare( 0, box->root.size(), box->root ) == 0 ? "~/" + p.substr( box->root.size() ) : p; }
static Reg snap() {
	Reg r;
	for ( auto& x : impl->mWatches ) r[x.first] = { x.second, x.second->InotifyID, x.second->ID, x.second->Directory, x.second->Listener, x.second->Recursive, x.second->syntheticEvents, x.second->Parent };
	return r;
}
static bool under( const std::string& p, const std::string& d ) { return d.compare( 0, p.size(), p ) == 0; }
// ---- kernel side
extern "C" {
int __real_inotify_add_watch( int, const char*, uint32_t );
int __real_inotify_rm_watch( int, int );
ssize_t __real_read( int, void*, size_t );
int __real_select( int, fd_set*, fd_set*, fd_set*, struct timeval* );
uid_t __real_getuid();
int __real_statfs( const char*, struct statfs* );
}
static std::vector<std::pair<std::string, int>> asked;
static size_t asked0 = 0; // those before the batch being checked
static int failadd = 0;
extern "C" int __wrap_inotify_add_watch( int fd, const char* p, uint32_t m ) {
	if ( failadd ) { errno = failadd; return -1; }
	int r = __real_inotify_add_watch( fd, p, m );
	asked.push_back( { p, r } );
	if ( r >= 0 ) {
		struct stat st; if ( stat( p, &st ) == 0 ) wdino[r] = { st.st_dev, st.st_ino };
		kw.insert( r );
		const uint32_t need = IN_CLOSE_WRITE | IN_MOVED_TO | IN_CREATE | IN_MOVED_FROM | IN_DELETE | IN_MODIFY;
		if ( ( m & need ) != need ) bad( "C03", "the kernel is not asked for all kinds of notifications on " + rel( p ) );
	}
	return r;
}
extern "C" int __wrap_inotify_rm_watch( int fd, int wd ) { kw.erase( wd ); return __real_inotify_rm_watch( fd, wd ); }
extern "C" uid_t __wrap_getuid() { return fakeuid; }
extern "C" int __wrap_statfs( const char* p, struct statfs* b ) {
	int r = __real_statfs( p, b );
	if ( r == 0 && strstr( p, "/remote" ) ) b->f_type = 0x6969;
	return r;
}
static void drain() {
	char buf[65536];
	for ( ;; ) {
		int n = 0;
		if ( ioctl( impl->mFD, FIONREAD, &n ) || n <= 0 ) return;
		ssize_t k = __real_read( impl->mFD, buf, sizeof buf );
		for ( ssize_t i = 0; i < k; ) {
			inotify_event* e = (inotify_event*)( buf + i );
			Ev v = { e->wd, e->mask, e->cookie, e->len ? std::string( e->name ) : "" };
			if ( v.mask & IN_IGNORED ) kw.erase( v.wd );
			queue_.push_back( v );
			i += sizeof( inotify_event ) + e->len;
		}
	}
}
static std::string mn( uint32_t m ) {
	std::string s; struct { uint32_t b; const char* n; } T[] = { { IN_CREATE, "CREATE" }, { IN_DELETE, "DELETE" }, { IN_MODIFY, "MODIFY" }, { IN_CLOSE_WRITE, "CLOSE_WRITE" }, { IN_MOVED_FROM, "MOVED_FROM" }, { IN_MOVED_TO, "MOVED_TO" }, { IN_IGNORED, "IGNORED" }, { IN_Q_OVERFLOW, "OVERFLOW" }, { IN_UNMOUNT, "UNMOUNT" } };
	for ( auto& t : T ) if ( m & t.b ) s += ( s.empty() ? "" : "|" ) + std::string( t.n );
	return s.empty() ? num( m ) : s;
}
static std::string se( const Ev& e ) { return mn( e.mask ) + "(wd " + num( e.wd ) + ( e.cookie ? " cookie " + num( e.cookie ) : "" ) + ( e.name.size() ? " " + show( e.name ) : "" ) + ")"; }
// ---- oracle for a delivered batch
static std::vector<Ev> batch; static Reg S0; static std::vector<std::string> userRemoved;
struct X { int wd; int act; std::string name, old; bool opt; };
static bool isdir( const std::string& p ) { struct stat st; return stat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ); }
static bool isreg( const std::string& p ) { struct stat st; return stat( p.c_str(), &st ) == 0 && S_ISREG( st.st_mode ); }
static std::vector<std::string> ents( const std::string& d ) {
	std::vector<std::string> r; DIR* p = opendir( d.c_str() ); if ( !p ) return r;
	while ( dirent* e = readdir( p ) ) { std::string n = e->d_name; if ( n != "." && n != ".." ) r.push_back( n ); }
	closedir( p ); return r;
}
static std::string base( std::string p ) { if ( p.size() > 1 && p.back() == '/' ) p.pop_back(); return p.substr( p.rfind( '/' ) + 1 ); }
static void checkbatch() {
	if ( batch.empty() && cbs.empty() ) { asked0 = asked.size(); return; }
	Reg S1 = snap();
	auto known = [&]( int wd ) { return ( S0.count( wd ) ? 1 : 0 ) + ( S1.count( wd ) ? 1 : 0 ); };
	std::vector<X> ex; std::vector<std::pair<X, std::string>> late; // late: required or optional deletes
	bool P = false; Ev p; bool popt = false;
	std::string lateTag = "C04";
	auto flush = [&]() {
		if ( !P ) return;
		P = false;
		ex.push_back( { p.wd, Actions::Delete, p.name, "", popt || known( p.wd ) < 2 || S0[p.wd].p != S1[p.wd].p } );
		for ( auto* S : { &S0, &S1 } ) if ( S->count( p.wd ) ) {
			std::string top = ( *S )[p.wd].dir + p.name + "/";
			for ( auto* R : { &S0, &S1 } ) for ( auto& x : *R ) if ( under( top, x.second.dir ) && x.second.dir != top ) {
				std::string par = Box::parent( x.second.dir );
				for ( auto* Q : { &S0, &S1 } ) for ( auto& y : *Q ) if ( y.second.dir == par ) {
					bool dup = false; for ( auto& z : late ) if ( z.first.wd == y.first && z.first.name == base( x.second.dir ) && z.first.opt ) dup = true;
					if ( !dup ) late.push_back( { { y.first, Actions::Delete, base( x.second.dir ), "", true }, "" } );
				}
			}
		}
	};
	for ( auto& e : batch ) {
		if ( e.mask & IN_Q_OVERFLOW ) {
			flush();
			for ( auto& r : S0 ) if ( !r.second.par ) ex.push_back( { r.first, 100, "", "", S1.count( r.first ) == 0 || S1[r.first].p != r.second.p } );
			continue;
		}
		bool o = known( e.wd ) < 2 || S0[e.wd].p != S1[e.wd].p;
		bool match = P && ( e.mask & IN_MOVED_TO ) && e.cookie == p.cookie && known( e.wd );
		if ( P && !match ) flush();
		if ( !known( e.wd ) ) continue;
		if ( e.mask & ( IN_CLOSE_WRITE | IN_MODIFY ) ) ex.push_back( { e.wd, Actions::Modified, e.name, "", o } );
		else if ( e.mask & IN_MOVED_TO ) {
			if ( match && p.wd == e.wd ) ex.push_back( { e.wd, Actions::Moved, e.name, p.name, o } );
			else {
				ex.push_back( { e.wd, Actions::Add, e.name, "", o } );
				ex.push_back( { e.wd, Actions::Modified, e.name, "", o } );
				if ( match ) ex.push_back( { p.wd, Actions::Delete, p.name, "", o || popt || known( p.wd ) < 2 || S0[p.wd].p != S1[p.wd].p } );
			}
			P = false;
		} else if ( e.mask & IN_CREATE ) ex.push_back( { e.wd, Actions::Add, e.name, "", o } );
		else if ( e.mask & IN_MOVED_FROM ) { P = true; p = e; popt = o; }
		else if ( e.mask & IN_DELETE ) ex.push_back( { e.wd, Actions::Delete, e.name, "", o } );
	}
	flush();
	// synthetic reports: every entry of every directory that got watched by an event
	std::set<std::pair<int, std::string>> synth, synthopt;
	for ( auto& x : S1 ) {
		bool isnew = true; for ( auto& y : S0 ) if ( y.second.p == x.second.p ) isnew = false;
		if ( isnew && x.second.par && x.second.rec && x.second.synth )
			for ( auto& n : ents( x.second.dir ) ) if ( isdir( x.second.dir + n ) || isreg( x.second.dir + n ) ) synth.insert( { x.first, n } ); else synthopt.insert( { x.first, n } );
	}
	// a directory that was watched, and given up or asked for again, within the batch: its contents may have been reported
	std::set<std::string> passing;
	{
		bool any = false; for ( auto* S : { &S0, &S1 } ) for ( auto& x : *S ) if ( x.second.rec && x.second.synth ) any = true;
		std::map<int, int> times; for ( size_t k = asked0; k < asked.size(); k++ ) times[asked[k].second]++;
		for ( size_t k = asked0; any && k < asked.size(); k++ ) {
			int wd = asked[k].second; if ( wd < 0 ) continue;
			bool plain = times[wd] == 1 && S1.count( wd ); if ( plain ) for ( auto& y : S0 ) if ( y.second.p == S1[wd].p ) plain = false;
			if ( plain ) continue;
			std::string q = asked[k].first; if ( q.empty() || q.back() != '/' ) q += "/";
			passing.insert( q ); for ( auto* S : { &S0, &S1 } ) if ( S->count( wd ) ) passing.insert( ( *S )[wd].dir );
		}
		asked0 = asked.size();
	}
	size_t i = 0; int miss = 0;
	for ( auto& c : cbs ) {
		if ( c.act == Actions::Add && c.old.empty() && c.wds.empty() && passing.count( c.dir ) ) continue;
		if ( c.wds.empty() ) { bad( c.act == 100 ? "C15 C03" : "C03 C06 C05", "callback for a watch that is not registered: " + sh( c ) ); return; }
		bool ok = false;
		if ( c.act == 100 ) miss++;
		size_t j = i;
		if ( c.act == 100 ) { // one notice per user watch in any order
			for ( auto it = ex.begin() + i; it != ex.end(); ++it ) if ( it->act == 100 && c.wds.count( it->wd ) && !S1[it->wd].par ) { while ( i < ex.size() && ex[i].opt && ex[i].act != 100 ) { size_t d = &*it - &ex[0]; if ( d <= i ) break; ex.erase( ex.begin() + i ); it--; } size_t d = &*it - &ex[0]; bool clear = true; for ( size_t q = i; q < d; q++ ) if ( ex[q].act != 100 ) clear = false; if ( !clear ) break; ex.erase( it ); ok = true; break; }
			if ( !ok ) { bad( "C15", "unexpected missed-events notice: " + sh( c ) ); return; }
			continue;
		}
		for ( ; j < ex.size(); j++ ) {
			if ( ex[j].act == c.act && ex[j].name == c.name && ex[j].old == c.old && c.wds.count( ex[j].wd ) ) { ok = true; break; }
			if ( !ex[j].opt ) break;
		}
		if ( ok ) { i = j + 1; continue; }
		if ( c.act == Actions::Add && c.old.empty() ) for ( int w : c.wds ) if ( synth.count( { w, c.name } ) ) { synth.erase( { w, c.name } ); ok = true; break; } else if ( synthopt.count( { w, c.name } ) ) { synthopt.erase( { w, c.name } ); ok = true; break; }
		if ( ok ) continue;
		if ( c.act == Actions::Delete && c.old.empty() ) for ( auto it = late.begin(); it != late.end(); ++it ) if ( it->first.name == c.name && c.wds.count( it->first.wd ) ) { late.erase( it ); ok = true; break; }
		if ( ok ) continue;
		if ( c.act == Actions::Add && c.old.empty() && passing.count( c.dir ) ) continue;
		std::string want = i < ex.size() ? std::string( an( ex[i].act ) ) + " " + show( ex[i].name ) + ( ex[i].old.size() ? " from " + show( ex[i].old ) : "" ) + " on wd " + num( ex[i].wd ) : late.empty() ? "nothing" : "Delete " + show( late[0].first.name ) + " on wd " + num( late[0].first.wd );
		bool mv = c.act == Actions::Moved || c.act == Actions::Delete || ( i < ex.size() && ( ex[i].act == Actions::Moved || ex[i].act == Actions::Delete ) );
		bool anymove = false; for ( auto& e : batch ) if ( e.mask & IN_MOVE ) anymove = true;
		bool onsynth = false; for ( int w : c.wds ) if ( c.act == Actions::Add && ( S1.count( w ) && S1[w].par && S1[w].rec ) ) onsynth = true;
		bad( std::string( "C03" ) + ( mv && anymove ? " C04" : "" ) + ( onsynth ? " C16" : "" ), "callback " + sh( c ) + ", expected " + want ); return;
	}
	for ( ; i < ex.size(); i++ ) if ( !ex[i].opt ) { bad( ex[i].act == 100 ? "C15" : ex[i].act == Actions::Moved || ex[i].act == Actions::Delete ? "C03 C04" : "C03", "missing callback " + std::string( an( ex[i].act ) ) + " " + show( ex[i].name ) + " on wd " + num( ex[i].wd ) ); return; }
	for ( auto& l : late ) if ( !l.first.opt ) { bad( "C04", "move-out of " + show( l.first.name ) + " on wd " + num( l.first.wd ) + " is never reported as deleted" ); return; }
	if ( !synth.empty() ) { bad( "C16", "entry " + show( synth.begin()->second ) + " of the newly watched directory of wd " + num( synth.begin()->first ) + " is not reported as added" ); return; }
}
// ---- registry consistency
static bool follow, scope;
static void newcheck( const Reg& a, const Reg& b ) {
	for ( auto& x : b ) {
		bool isnew = true; for ( auto& y : a ) if ( y.second.p == x.second.p ) isnew = false;
		if ( !isnew || !x.second.par ) continue;
		WatcherInotify* q = x.second.par;
		bool qok = false; for ( auto& y : b ) if ( y.second.p == q ) qok = true;
		if ( !qok ) continue;
		bool vialink = Box::parent( x.second.dir ) != q->Directory;
		if ( vialink && !follow ) bad( "C08", "watching " + rel( x.second.dir ) + " through a link below " + rel( q->Directory ) + " although links are not followed" );
		if ( vialink && !scope && !under( q->Directory, x.second.dir ) ) bad( "C08", "watching " + rel( x.second.dir ) + ", outside " + rel( q->Directory ) + ", although out-of-scope links are not allowed" );
		if ( x.second.id != q->ID || x.second.l != q->Listener || x.second.rec != q->Recursive || x.second.synth != q->syntheticEvents ) bad( "C16 C05", "the watch of " + rel( x.second.dir ) + " does not inherit from its parent" );
		if ( !q->Recursive ) bad( "C16 C07", "a subdirectory of a non-recursive watch is watched: " + rel( x.second.dir ) );
	}
}
static void invariants() {
	drain();
	std::set<WatcherInotify*> all;
	for ( auto& x : impl->mWatches ) {
		if ( !all.insert( x.second ).second ) bad( "C05", "one watch is filed under two ids" );
		if ( x.second->InotifyID != x.first ) bad( "C05", "watch " + num( x.second->InotifyID ) + " is filed under id " + num( x.first ) );
	}
	for ( auto& x : impl->mWatches ) {
		WatcherInotify* w = x.second;
		bool real = impl->mRealWatches.count( x.first ) && impl->mRealWatches[x.first] == w;
		if ( ( w->Parent == NULL ) != real ) bad( "C05", rel( w->Directory ) + ( real ? " is listed as a user watch but has a parent" : " has no parent but is not listed as a user watch" ) );
		if ( w->Parent ) {
			if ( !all.count( w->Parent ) ) { bad( "C05", "the parent of " + rel( w->Directory ) + " is not registered" ); return; }
			if ( w->Parent->ID != w->ID ) bad( "C05", "the parent of " + rel( w->Directory ) + " belongs to another user watch" );
			int n = 0; for ( WatcherInotify* q = w->Parent; q; q = q->Parent ) { if ( !all.count( q ) ) return; if ( ++n > 1000 ) { bad( "C05", "parents form a cycle at " + rel( w->Directory ) ); return; } }
		} else if ( w->ID != w->InotifyID ) bad( "C05", "user watch " + rel( w->Directory ) + " has id " + num( w->ID ) + " but descriptor " + num( w->InotifyID ) );
		auto r = impl->mWatchesRef.find( w->Directory );
		bool other = false; for ( auto& y : impl->mWatches ) if ( y.second != w && y.second->Directory == w->Directory ) other = true;
		if ( !other && ( r == impl->mWatchesRef.end() || r->second != x.first ) ) bad( "C05 C06", rel( w->Directory ) + " is not filed under its current path" );
		// a user watch whose directory is gone stays listed until the user removes it
		if ( other ) { int live = 0; for ( auto& y : impl->mWatches ) if ( y.second->Directory == w->Directory && kw.count( y.first ) ) live++; other = live > 1; }
		if ( other ) bad( "C05", "two watches are filed under " + rel( w->Directory ) );
	}
	for ( auto& r : impl->mRealWatches ) if ( !all.count( r.second ) ) { bad( "C05 C06", "a user watch is listed but not registered" ); return; }
	for ( auto& r : impl->mWatchesRef ) if ( !impl->mWatches.count( r.second ) || impl->mWatches[r.second]->Directory != r.first ) bad( "C05", "path " + rel( r.first ) + " refers to no registered watch of that directory" );
	for ( int k : kw ) if ( !impl->mWatches.count( k ) ) bad( "C05 C06", "the kernel still watches descriptor " + num( k ) + " (" + ( asked.empty() ? "" : rel( asked.back().first ) ) + "), which is not registered" );
}
static std::set<std::string> exempt; static std::set<std::pair<dev_t, ino_t>> userino; // directories the user watches or watched themselves
 static std::map<int, std::string> deadroot;
static bool inoeq( const std::string& p, int wd ) { struct stat st; return stat( p.c_str(), &st ) == 0 && wdino.count( wd ) && wdino[wd] == std::make_pair( st.st_dev, st.st_ino ); }
static bool chainok( WatcherInotify* w ) { for ( WatcherInotify* q = w; q; q = q->Parent ) if ( !inoeq( q->Directory, q->InotifyID ) || !kw.count( q->InotifyID ) ) return false; return true; }
static bool settled; // every change is handled completely before the next one
static void quiescent() {
	if ( !settled ) return;
	drain(); if ( !queue_.empty() ) return;
	for ( auto& x : impl->mWatches ) {
		WatcherInotify* w = x.second;
		if ( !w->Parent || !chainok( w->Parent ) || Box::parent( w->Directory ) != w->Parent->Directory ) continue; // notifications about it reach its parent only
		if ( !kw.count( x.first ) ) { bad( "C05", "the registered watch of " + rel( w->Directory ) + " is dead in the kernel" ); return; }
		if ( !inoeq( w->Directory, x.first ) ) { bad( "C05", "watch wd " + num( x.first ) + " is filed under " + rel( w->Directory ) + ", which is not its directory any more" ); return; }
	}
	for ( auto& x : impl->mWatches ) {
		WatcherInotify* w = x.second;
		if ( !w->Recursive || !chainok( w ) ) continue;
		for ( auto& n : ents( w->Directory ) ) {
			std::string p = w->Directory + n; struct stat st;
			if ( lstat( p.c_str(), &st ) || !S_ISDIR( st.st_mode ) || exempt.count( p + "/" ) || userino.count( { st.st_dev, st.st_ino } ) || n.find( "remote" ) == 0 ) continue;
			if ( fakeuid && !( st.st_mode & S_IRUSR ) ) continue;
			bool have = false; for ( auto& y : impl->mWatches ) if ( y.second->Directory == p + "/" || ( kw.count( y.first ) && inoeq( p, y.first ) ) ) have = true;
			if ( !have ) { bad( "C16", rel( p ) + " appeared below a recursive watch but is not watched" ); return; }
		}
	}
}
// ---- user calls with their own oracle
static std::string slash( const std::string& d ) { return d.empty() || d.back() == '/' ? d : d + "/"; }
static bool sameW( const W& a, const W& b ) { return a.p == b.p && a.id == b.id && a.dir == b.dir && a.l == b.l && a.rec == b.rec && a.synth == b.synth; }
static void useradd( const std::string& path, int li, bool rec, int opt ) {
	std::vector<WatcherOption> o;
	if ( opt & 4 ) o.push_back( WatcherOption( Options::WinBufferSize, 1 ) );
	if ( opt & 1 ) o.push_back( WatcherOption( Options::LinuxProduceSyntheticEvents, opt & 2 ? 1 : 0 ) );
	if ( ( opt & 1 ) && ( opt & 8 ) ) o.push_back( WatcherOption( Options::LinuxProduceSyntheticEvents, opt & 2 ? 0 : 1 ) );
	bool syn = ( opt & 1 ) && ( opt & 2 );
	hist += "add " + rel( path ) + ( rec ? " recursive" : "" ) + ( opt ? " opt" + num( opt ) : "" ) + ( failadd ? " (kernel refuses " + num( failadd ) + ")" : "" );
	Reg a = snap(); auto reals = impl->mRealWatches; std::vector<std::string> dirs = fw->directories(); auto kw0 = kw;
	int want = 0; std::string dir = slash( path ), rd = dir;
	struct stat st;
	bool remote = false; { struct statfs b; remote = __wrap_statfs( path.c_str(), &b ) == 0 && b.f_type == 0x6969; }
	std::string np = path; while ( np.size() > 1 && np.back() == '/' ) np.pop_back();
	struct stat ls_;
	auto listed = [&]( const std::string& d ) { for ( auto& x : reals ) if ( x.second->Directory == d ) return true; return false; };
	bool inoroot = false; 
	if ( stat( np.c_str(), &st ) == 0 ) for ( auto& x : reals ) if ( wdino[x.first] == std::make_pair( st.st_dev, st.st_ino ) && kw.count( x.first ) ) inoroot = true;
	if ( remote ) want = Errors::FileRemote;
	else if ( stat( np.c_str(), &st ) || !S_ISDIR( st.st_mode ) ) want = Errors::FileNotFound;
	else if ( fakeuid && !( st.st_mode & S_IRUSR ) ) want = Errors::FileNotReadable;
	else if ( listed( dir ) ) want = Errors::FileRepeated;
	else if ( lstat( np.c_str(), &ls_ ) == 0 && S_ISLNK( ls_.st_mode ) ) {
		char* r = realpath( np.c_str(), 0 ); rd = slash( r ); free( r );
		if ( listed( rd ) ) want = Errors::FileRepeated;
		else if ( !( follow && scope ) && !under( Box::parent( np ), rd ) ) want = Errors::FileOutOfScope;
	}
	if ( !want && failadd ) want = failadd == ENOENT ? Errors::FileNotFound : Errors::Unspecified;
	if ( !want && inoroot ) want = Errors::FileRepeated;
	cbs.clear();
	WatchID r = fw->addWatch( path, &ls[li], rec, o );
	{ struct stat su; if ( r > 0 && stat( path.c_str(), &su ) == 0 ) userino.insert( { su.st_dev, su.st_ino } ); }
	hist += " -> " + num( r ) + "; ";
	h.eval( hist );
	Reg b = snap();
	for ( auto& c : cbs ) bad( "C16 C03", "adding a watch produced the callback " + sh( c ) );
	cbs.clear();
	if ( want ) {
		if ( r != want ) bad( "C07", "addWatch returned " + num( r ) + ", expected error " + num( want ) );
		if ( Errors::Log::getLastErrorCode() != r ) bad( "C07 C10", "last error is not the returned one" );
		bool eq = a.size() == b.size(); for ( auto& x : a ) if ( !b.count( x.first ) || !sameW( b[x.first], x.second ) ) eq = false;
		if ( !eq || dirs != fw->directories() ) bad( "C07", "a refused addWatch changed the registered watches" );
	} else {
		if ( r <= 0 ) { bad( "C07", "addWatch returned " + num( r ) + ", expected success" ); return; }
		if ( !b.count( r ) ) { bad( "C07", "the new id " + num( r ) + " is not registered" ); return; }
		W& n = b[r];
		if ( reals.count( r ) ) bad( "C07", "the new id " + num( r ) + " is in use by another watch" );
		if ( n.id != r || n.l != &ls[li] || n.rec != rec || n.par || n.dir != rd || n.synth != syn ) bad( "C07", "the new watch is registered with other data: " + rel( n.dir ) + " id " + num( n.id ) + " rec " + num( n.rec ) + " synth " + num( n.synth ) );
		if ( !impl->mRealWatches.count( r ) ) bad( "C07 C05", "the new watch is not listed" );
		for ( auto& x : reals ) if ( !impl->mRealWatches.count( x.first ) || impl->mRealWatches[x.first] != x.second ) bad( "C07", "adding a watch dropped user watch " + num( x.first ) );
		for ( auto& x : b ) { bool nw = true; for ( auto& y : a ) if ( y.second.p == x.second.p ) nw = false; if ( nw && x.second.id != r ) bad( "C07", "addWatch registered a watch with another id" ); }
		if ( rec ) { // every readable subdirectory found is covered
			std::vector<std::string> todo( 1, rd );
			while ( !todo.empty() ) {
				std::string d = todo.back(); todo.pop_back();
				for ( auto& e : ents( d ) ) {
					std::string p = d + e; struct stat s2;
					if ( lstat( p.c_str(), &s2 ) || !S_ISDIR( s2.st_mode ) || ( fakeuid && !( s2.st_mode & S_IRUSR ) ) || e.find( "remote" ) == 0 ) continue;
					bool have = false, root = false; for ( auto& y : b ) if ( y.second.dir == p + "/" ) { have = true; root = y.second.par == NULL && y.second.p->InotifyID != r; }
					for ( auto& y : reals ) if ( wdino[y.first] == std::make_pair( s2.st_dev, s2.st_ino ) ) have = root = true;
					if ( !have ) bad( "C07 C16", "subdirectory " + rel( p ) + " of a recursive watch is not covered" );
					exempt.erase( p + "/" );
					if ( !root ) todo.push_back( p + "/" );
				}
			}
		} else for ( auto& x : b ) { bool nw = true; for ( auto& y : a ) if ( y.second.p == x.second.p ) nw = false; if ( nw && x.first != r ) bad( "C07 C16", "a non-recursive watch covers " + rel( x.second.dir ) ); }
		exempt.erase( rd );
	}
	newcheck( a, b );
	invariants();
}
static void userremove( bool byid, int id, const std::string& path ) {
	hist += byid ? "remove id " + num( id ) + "; " : "remove " + rel( path ) + "; ";
	h.eval( hist );
	Reg a = snap(); std::vector<std::string> dirs = fw->directories();
	int wd = -1;
	if ( byid ) { if ( a.count( id ) ) wd = id; }
	else for ( auto& x : a ) if ( x.second.dir == slash( path ) && ( wd < 0 || impl->mWatchesRef[x.second.dir] == x.first ) ) wd = x.first;
	std::set<int> gone;
	if ( wd >= 0 ) {
		gone.insert( wd );
		W& w = a[wd];
		if ( !w.par ) for ( auto& x : a ) for ( WatcherInotify* q = x.second.par; q; q = q->Parent ) if ( q == w.p ) gone.insert( x.first );
		for ( int g : gone ) { exempt.insert( a[g].dir ); if ( wdino.count( g ) ) userino.insert( wdino[g] ); }
	}
	std::string wdir = wd >= 0 ? a[wd].dir : ""; bool wroot = wd >= 0 && !a[wd].par;
	cbs.clear();
	if ( byid ) fw->removeWatch( (WatchID)id ); else fw->removeWatch( path );
	for ( auto& c : cbs ) bad( "C06", "removing a watch produced the callback " + sh( c ) );
	cbs.clear();
	Reg b = snap();
	for ( auto& x : a ) {
		bool g = gone.count( x.first ), have = b.count( x.first ) && b[x.first].p == x.second.p;
		if ( g && b.count( x.first ) ) bad( "C06", rel( x.second.dir ) + " is still registered after its removal" );
		if ( g && kw.count( x.first ) ) bad( "C06 C05", "the kernel still watches the removed " + rel( x.second.dir ) );
		if ( !g && ( !have || !sameW( b[x.first], x.second ) ) ) bad( "C06", "removing another watch affected " + rel( x.second.dir ) );
	}
	for ( auto& x : b ) if ( !a.count( x.first ) ) bad( "C06", "removing a watch registered one" );
	std::multiset<std::string> ed( dirs.begin(), dirs.end() ); if ( wroot ) ed.erase( ed.find( wdir ) );
	std::vector<std::string> now = fw->directories();
	if ( std::multiset<std::string>( now.begin(), now.end() ) != ed ) bad( "C06", "the list of watched directories is not the previous one without the removed watch" );
	invariants();
}
// ---- the scheduler
static int steps, idle; static uint32_t cook = 5000; static bool synthetic;
static const char* N[] = { "a", "b", "c", "remote1" };
static std::string rndpath( int depth ) {
	std::string p = box->root + "w";
	int d = h.rnd( depth + 1 );
	for ( int i = 0; i < d; i++ ) p += std::string( "/" ) + N[h.rnd( 3 )];
	return p;
}
static void fsop() {
	static const char* R[] = { "w", "w", "w", "x" };
	std::string p = box->root + R[h.rnd( 4 )], q = box->root + R[h.rnd( 4 )];
	for ( int d = h.rnd( 3 ), i = 0; i <= d; i++ ) p += std::string( "/" ) + N[h.rnd( 3 )];
	for ( int d = h.rnd( 3 ), i = 0; i <= d; i++ ) q += std::string( "/" ) + N[h.rnd( 3 )];
	bool r = false; std::string s;
	switch ( h.rnd( 13 ) ) {
		case 12: {
			// a tree built elsewhere arrives at once
			std::string t = box->root + "x/" + N[h.rnd( 3 )], u = t + "/" + N[h.rnd( 3 )];
			mkdir( t.c_str(), 0755 ); mkdir( u.c_str(), 0755 ); box->write( t + "/" + N[h.rnd( 3 )], "x" ); box->write( u + "/" + N[h.rnd( 3 )], "x" );
			hist += "mktree " + rel( u ) + "; ";
			if ( h.rnd( 3 ) ) { q = box->root + "w/" + N[h.rnd( 3 )]; r = rename( t.c_str(), q.c_str() ) == 0; s = "mv " + rel( t ) + " " + rel( q ); }
			break; }
		case 0: case 1: case 2: r = mkdir( p.c_str(), h.rnd( 8 ) ? 0755 : 0300 ) == 0; s = "mkdir " + rel( p ); break;
		case 3: r = box->write( p, h.rnd( 2 ) ? "x" : "" ); s = "write " + rel( p ); break;
		case 4: case 5: r = box->rm( p ); s = "rm -r " + rel( p ); break;
		case 6: case 7: case 8: case 9: r = rename( p.c_str(), q.c_str() ) == 0; s = "mv " + rel( p ) + " " + rel( q ); break;
		case 10: { static const char* T[] = { "..", ".", "a", "../x", "b" }; std::string t = h.rnd( 2 ) ? q : T[h.rnd( 5 )]; r = symlink( t.c_str(), p.c_str() ) == 0; s = "symlink " + rel( t ) + " " + rel( p ); break; }
		case 11: if ( ( r = symlink( q.c_str(), p.c_str() ) == 0 ) ) s = "symlink " + rel( q ) + " " + rel( p ); break;
	}
	if ( r ) hist += s + "; ";
}
static void inject() {
	std::vector<int> wds; for ( auto& x : impl->mWatches ) wds.push_back( x.first );
	int n = 1 + h.rnd( 4 );
	for ( int i = 0; i < n; i++ ) {
		Ev e; e.cookie = 0; e.wd = wds.empty() || h.rnd( 10 ) == 0 ? 77777 : wds[h.rnd( wds.size() )];
		static const char* M[] = { "n1", "n2", "n3", "nolonger" };
		e.name = M[h.rnd( 3 )];
		switch ( h.rnd( 9 ) ) {
			case 0: e.mask = IN_CREATE; break; case 1: e.mask = IN_MODIFY; break; case 2: e.mask = IN_DELETE; break; case 3: e.mask = IN_CLOSE_WRITE; break;
			case 4: case 5: e.mask = IN_MOVED_FROM; e.cookie = ++cook; break;
			case 6: case 7: e.mask = IN_MOVED_TO; e.cookie = h.rnd( 4 ) ? cook : ++cook; break;
			case 8: if ( h.rnd( 2 ) ) { e.mask = IN_Q_OVERFLOW; e.wd = -1; e.name = ""; } else { e.mask = IN_IGNORED; e.wd = 77777; e.name = ""; } break;
		}
		queue_.push_back( e );
	}
}
static Reg pre;
extern "C" int __wrap_select( int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t ) {
	if ( !active ) return __real_select( n, r, w, e, t );
	checkbatch(); cbs.clear(); batch.clear();
	settle();
	newcheck( S0, snap() ); invariants(); settle();
	if ( idle ) { quiescent(); settle(); }
	for ( ;; ) {
		if ( steps <= 0 ) {
			drain();
			if ( queue_.empty() ) { if ( idle++ >= 2 ) { impl->mInitOK = false; return 0; } S0 = snap(); return 0; }
		}
		steps--;
		int k = steps < 0 ? 90 : h.rnd( 100 );
		if ( settled ) { drain(); if ( !queue_.empty() ) k = 90; }
		if ( k < 40 ) { fsop(); continue; }
		if ( k < 46 ) { useradd( rndpath( 2 ), h.rnd( 3 ), h.rnd( 3 ) > 0, h.rnd( 2 ) ? 0 : h.rnd( 16 ) ); settle(); continue; }
		if ( k < 52 ) {
			int id = 0; if ( !impl->mRealWatches.empty() && h.rnd( 4 ) ) { auto it = impl->mRealWatches.begin(); std::advance( it, h.rnd( impl->mRealWatches.size() ) ); id = it->first; } else id = h.rnd( 12 );
			if ( h.rnd( 2 ) ) userremove( true, id, "" );
			else { std::string p = rndpath( 2 ); if ( h.rnd( 2 ) && impl->mWatches.count( id ) ) { p = impl->mWatches[id]->Directory; if ( h.rnd( 2 ) ) p.pop_back(); } userremove( false, 0, p ); }
			settle(); continue;
		}
		if ( k < 66 && synthetic ) { drain(); inject(); continue; }
		if ( k < 70 ) { hist += "[idle]; "; h.eval( hist ); S0 = snap(); drain(); idle = queue_.empty() ? 1 : 0; return 0; }
		drain();
		if ( queue_.empty() ) continue;
		idle = 0; S0 = snap(); asked0 = asked.size();
		size_t m = h.rnd( 2 ) ? queue_.size() : 1 + h.rnd( queue_.size() );
		hist += "[";
		for ( size_t i = 0; i < m; i++ ) { batch.push_back( queue_.front() ); hist += ( i ? " " : "" ) + se( queue_.front() ); queue_.pop_front(); }
		hist += "]; ";
		h.eval( hist );
		if ( getenv( "HTRACE" ) ) { printf( "CASE %s\n", hist.c_str() ); fflush( stdout ); }
		return 1;
	}
}
extern "C" ssize_t __wrap_read( int fd, void* b, size_t n ) {
	if ( !active ) return __real_read( fd, b, n );
	char* p = (char*)b; size_t o = 0;
	for ( auto& e : batch ) {
		inotify_event* v = (inotify_event*)( p + o );
		size_t l = e.name.empty() ? 0 : ( e.name.size() / 16 + 1 ) * 16;
		v->wd = e.wd; v->mask = e.mask; v->cookie = e.cookie; v->len = l;
		memset( v->name, 0, l ); memcpy( v->name, e.name.data(), e.name.size() );
		o += sizeof( inotify_event ) + l;
	}
	return o;
}
extern "C" void __asan_on_error() { printf( "CASE %s\n", hist.c_str() ); fflush( stdout ); }
static void scenario() {
	Box b; box = &b; hist = ""; queue_.clear(); kw.clear(); wdino.clear(); cbs.clear(); batch.clear(); exempt.clear(); userino.clear(); asked.clear(); asked0 = 0; pendfail = ""; failadd = 0; cook = 5000;
	const size_t live0 = 0; liveW = 0; memset( livep, 0, sizeof livep );
	fakeuid = 1000; // the code asks only once per process
	mkdir( b.at( "w" ).c_str(), 0755 ); mkdir( b.at( "x" ).c_str(), 0755 );
	int np = h.rnd( 7 );
	fw = new FileWatcher(); impl = (FWI*)fw->mImpl;
	if ( fw->followSymlinks() || fw->allowOutOfScopeLinks() ) h.fail( "the link settings are not off by default", "new FileWatcher" );
	follow = h.rnd( 2 ); scope = h.rnd( 2 ); fw->followSymlinks( follow ); if ( fw->allowOutOfScopeLinks() && PROP == std::string( "C08" ) ) h.fail( "following links switched on out-of-scope links", "followSymlinks(true)" );
	fw->allowOutOfScopeLinks( scope );
	if ( ( fw->followSymlinks() != follow || fw->allowOutOfScopeLinks() != scope ) && PROP == std::string( "C08" ) ) h.fail( "the link settings are not independent", num( follow ) + " " + num( scope ) );
	hist += std::string( "follow=" ) + num( follow ) + " scope=" + num( scope ) + " uid=" + num( fakeuid ) + "; ";
	for ( int i = 0; i < np; i++ ) fsop();
	if ( h.rnd( 10 ) == 0 && mkdir( b.at( "w/remote1" ).c_str(), 0755 ) == 0 ) hist += "mkdir ~/w/remote1; ";
	synthetic = h.rnd( 2 ); settled = h.rnd( 3 ) > 0;
	int mode = h.rnd( 4 );
	steps = mode == 0 ? 4 + h.rnd( 6 ) : 6 + h.rnd( 25 ); idle = 0;
	active = true;
	try {
		int na = 1 + h.rnd( 3 );
		if ( h.rnd( 12 ) == 0 ) failadd = h.rnd( 2 ) ? ENOENT : ENOSPC;
		for ( int i = 0; i < na; i++ ) { useradd( i == 0 ? b.at( "w" ) : rndpath( 2 ), h.rnd( 3 ), h.rnd( 3 ) > 0, h.rnd( 2 ) ? 0 : h.rnd( 16 ) ); settle(); failadd = 0; }
		S0 = snap();
		impl->run();
		if ( !pendfail.empty() ) settle();
	} catch ( Skip& ) { impl->mInitOK = false; }
	active = false; impl->mIsTakingAction = false;
	delete fw;
	if ( liveW != live0 && pendfail.empty() && std::string( PROP ) == "C05" ) h.fail( num( (long long)liveW - (long long)live0 ) + " watch records are not released (or twice)", hist );
	liveW = 0; memset( livep, 0, sizeof livep );
}
int main() {
	for ( int i = 0; i < 3; i++ ) ls[i].n = i;
	while ( h.time_left() ) scenario();
	return h.done();
}
