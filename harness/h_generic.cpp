// Drives FileWatcherGeneric over real directories: edits, API calls and polls in random
// order; an independent model of the tracked tree predicts the callbacks of every poll.
#include "fsbox.hpp"
#include <efsw/efsw.hpp>
#include <efsw/FileSystem.hpp>
#include <efsw/FileWatcherGeneric.hpp>
#include <efsw/DirWatcherGeneric.hpp>
using namespace efsw;
static const char* PROP = getenv( "HARNESS_PROP" ) ? getenv( "HARNESS_PROP" ) : "C02";
static Harness h( PROP );
struct Skip {};
// ---- live tracker objects
static long liveN = 0;
static bool counting = false;
static std::set<void*>* livep() { static std::set<void*>* s = new std::set<void*>; return s; }
static const size_t SZ1 = sizeof( DirWatcherGeneric ), SZ2 = sizeof( WatcherGeneric );
void* operator new( size_t n ) {
	void* p = malloc( n ? n : 1 );
	if ( counting && ( n == SZ1 || n == SZ2 ) ) { counting = false; livep()->insert( p ); liveN++; counting = true; }
	return p;
}
static void gone( void* p ) { if ( counting && p ) { counting = false; if ( livep()->erase( p ) ) liveN--; counting = true; } }
void operator delete( void* p ) noexcept { gone( p ); free( p ); }
void operator delete( void* p, size_t ) noexcept { gone( p ); free( p ); }

extern "C" {
uid_t __real_getuid();
int __real_statfs( const char*, struct statfs* );
}
static uid_t fakeuid = 0;
extern "C" uid_t __wrap_getuid() { return fakeuid; }
extern "C" int __wrap_statfs( const char* p, struct statfs* b ) {
	int r = __real_statfs( p, b );
	if ( r == 0 && strstr( p, "/remote" ) ) b->f_type = 0x6969;
	return r;
}
static std::string hist;
static Box* box;
static std::string rel( const std::string& p ) { return p.compare( 0, box->root.size(), box->root ) == 0 ? "~/" + p.substr( box->root.size() ) : p; }
static void bad( const std::string& tag, const std::string& what ) {
	if ( tag.find( PROP ) != std::string::npos ) h.fail( what, hist );
	if ( getenv( "HALL" ) ) printf( "OTHER %s %s | %s\n", tag.c_str(), what.c_str(), hist.c_str() );
	throw Skip();
}
static FileWatcher* fw; static FileWatcherGeneric* impl;
struct CB { int l; WatchID id; std::string dir, name, old; int act; };
static std::vector<CB> cbs;
struct L : FileWatchListener {
	int n;
	void handleFileAction( WatchID id, const std::string& d, const std::string& f, Action a, const std::string& o ) override { bool k = counting; counting = false; cbs.push_back( { n, id, d, f, o, a } ); counting = k; }
	void handleMissedFileActions( WatchID id, const std::string& d ) override { cbs.push_back( { n, id, d, "", "", 100 } ); }
};
static L ls[3];
static const char* an( int a ) { return a == 1 ? "Add" : a == 2 ? "Delete" : a == 3 ? "Modified" : a == 4 ? "Moved" : "Missed"; }
static std::string sh( const CB& c ) { return std::string( an( c.act ) ) + " " + show( c.name ) + ( c.old.size() ? " from " + show( c.old ) : "" ) + " in " + rel( c.dir ) + " (watch " + num( c.id ) + ")"; }
// ---- the model
struct Meta {
	uint64_t mt = 0, sz = 0, ino = 0; uint32_t uid = 0, gid = 0, mode = 0; bool ok = false;
	bool operator==( const Meta& o ) const { return mt == o.mt && sz == o.sz && ino == o.ino && uid == o.uid && gid == o.gid && mode == o.mode; }
	bool dir() const { return S_ISDIR( mode ); }
	bool reg() const { return S_ISREG( mode ); }
};
static std::string strip( std::string p ) { while ( p.size() > 1 && p.back() == '/' ) p.pop_back(); return p; }
static std::string slash( const std::string& d ) { return d.empty() || d.back() == '/' ? d : d + "/"; }
static Meta meta( const std::string& p ) {
	Meta m; struct stat st;
	if ( stat( strip( p ).c_str(), &st ) == 0 ) { m.mt = st.st_mtime; m.sz = st.st_size; m.ino = st.st_ino; m.uid = st.st_uid; m.gid = st.st_gid; m.mode = st.st_mode; m.ok = true; }
	return m;
}
static std::map<std::string, Meta> listing( const std::string& d ) {
	std::map<std::string, Meta> m; DIR* dp = opendir( d.c_str() ); if ( !dp ) return m;
	while ( dirent* e = readdir( dp ) ) { std::string n = e->d_name; if ( n != "." && n != ".." ) m[n] = meta( d + n ); }
	closedir( dp ); return m;
}
struct Node { std::string path; Meta own; std::map<std::string, Meta> O; std::map<std::string, Node*> ch; ~Node() { for ( auto& c : ch ) delete c.second; } };
struct MW { WatchID id; std::string dir; int l; bool rec; Node* root; };
static std::vector<MW*> mws;
static bool follow, scope;
static bool inTree( Node* n, const std::string& p ) { if ( n->path == p ) return true; for ( auto& c : n->ch ) if ( inTree( c.second, p ) ) return true; return false; }
static bool inWatches( const std::string& p, MW* extra = 0 ) {
	if ( extra && extra->root && inTree( extra->root, p ) ) return true;
	for ( auto* w : mws ) if ( w->dir == p || inTree( w->root, p ) ) return true;
	return false;
}
static bool readable( const std::string& p ) { struct stat st; if ( stat( strip( p ).c_str(), &st ) ) return false; return fakeuid == 0 || ( st.st_mode & S_IRUSR ); }
static bool under( const std::string& p, const std::string& d ) { return d.compare( 0, p.size(), p ) == 0; }
static bool linkOK( const std::string& cur, const std::string& link ) { return ( follow && scope ) || under( cur, link ); }
static Node* mknode( const std::string& path ) {
	Node* n = new Node; n->path = path; n->own = meta( path );
	for ( auto& e : listing( path ) ) if ( e.second.dir() || e.second.reg() ) n->O[e.first] = e.second;
	return n;
}
static Node* track( MW* w, Node* n, const std::string& name, bool isnew );
static void trackAll( MW* w, Node* n ) { auto o = n->O; for ( auto& e : o ) if ( e.second.dir() ) track( w, n, e.first, false ); }
static Node* track( MW* w, Node* n, const std::string& name, bool isnew ) {
	if ( !w->rec ) return 0;
	std::string p = n->path + name;
	if ( !meta( p ).dir() || !readable( p ) || p.find( "/remote" ) != std::string::npos ) return 0;
	struct stat st; std::string path = p + "/";
	if ( lstat( p.c_str(), &st ) == 0 && S_ISLNK( st.st_mode ) ) {
		char* r = realpath( p.c_str(), 0 ); path = slash( r ); free( r );
		if ( !follow || inWatches( path, w ) || !linkOK( n->path, path ) ) return 0;
	} else if ( isnew && inWatches( path, w ) ) return 0; // two nested user watches may both track a directory
	Node* c = mknode( path );
	n->ch[name] = c;
	trackAll( w, c );
	return c;
}
struct Exp { CB c; bool opt; };
static std::vector<Exp> ex;
static void want( MW* w, const std::string& dir, const std::string& name, int act, const std::string& old = "", bool opt = false ) { ex.push_back( { { w->l, w->id, dir, name, old, act }, opt } ); }
static void optAdds( MW* w, Node* n ) { for ( auto& e : n->O ) want( w, n->path, e.first, Actions::Add, "", true ); for ( auto& c : n->ch ) optAdds( w, c.second ); }
static void lostNode( MW* w, Node* n ) {
	if ( !meta( n->path ).ok ) for ( auto& e : n->O ) want( w, n->path, e.first, Actions::Delete );
	for ( auto& c : n->ch ) lostNode( w, c.second );
}
static void repath( Node* n, const std::string& from, const std::string& to ) {
	if ( n->path != from ) return; // reached through a link: stays where it is
	n->path = to;
	for ( auto& c : n->ch ) repath( c.second, from + c.first + "/", to + c.first + "/" );
}
static void poll( MW* w, Node* n ) {
	Meta cur = meta( n->path ); bool changed = !( cur == n->own ); n->own = cur;
	std::map<std::string, Meta> Lst; if ( cur.ok ) Lst = listing( n->path );
	auto O = n->O; std::set<std::string> consumed; std::vector<std::string> created; std::vector<std::pair<std::string, std::string>> moved;
	for ( auto& e : Lst ) {
		if ( O.count( e.first ) ) { if ( !( O[e.first] == e.second ) ) { want( w, n->path, e.first, Actions::Modified ); n->O[e.first] = e.second; } continue; }
		if ( !e.second.dir() && !e.second.reg() ) continue;
		std::string src; bool f = false;
		for ( auto& o : O ) if ( !f && !Lst.count( o.first ) && !consumed.count( o.first ) && o.second.ino == e.second.ino && o.second.dir() == e.second.dir() ) { f = true; src = o.first; }
		n->O[e.first] = e.second;
		if ( f ) { consumed.insert( src ); n->O.erase( src ); want( w, n->path, e.first, Actions::Moved, src ); if ( e.second.dir() ) moved.push_back( { src, e.first } ); }
		else { want( w, n->path, e.first, Actions::Add ); if ( e.second.dir() ) created.push_back( e.first ); }
	}
	std::vector<std::string> deleted;
	if ( changed || !cur.ok ) for ( auto& o : O ) if ( !Lst.count( o.first ) && !consumed.count( o.first ) ) { want( w, n->path, o.first, Actions::Delete ); n->O.erase( o.first ); if ( o.second.dir() ) deleted.push_back( o.first ); }
	for ( auto& c : created ) { Node* t = track( w, n, c, true ); if ( t ) optAdds( w, t ); }
	for ( auto& d : deleted ) if ( n->ch.count( d ) ) { lostNode( w, n->ch[d] ); delete n->ch[d]; n->ch.erase( d ); }
	for ( auto& m : moved ) if ( n->ch.count( m.first ) ) {
		Node* c = n->ch[m.first]; n->ch.erase( m.first ); n->ch[m.second] = c;
		repath( c, n->path + m.first + "/", n->path + m.second + "/" );
	}
	for ( auto& c : n->ch ) poll( w, c.second );
}
static void tracked( DirWatcherGeneric* d, std::multiset<std::string>& s ) { s.insert( slash( d->DirSnap.DirectoryInfo.Filepath ) ); for ( auto& c : d->Directories ) tracked( c.second, s ); }
static void mtracked( Node* n, std::multiset<std::string>& s ) { s.insert( n->path ); for ( auto& c : n->ch ) mtracked( c.second, s ); }
static std::string listS( const std::multiset<std::string>& s ) { std::string r; for ( auto& x : s ) r += rel( x ) + " "; return r; }
static void checktree( const char* tag ) {
	if ( impl->mWatches.size() != mws.size() ) bad( "C06 C07", "there are " + num( impl->mWatches.size() ) + " watches, expected " + num( mws.size() ) );
	for ( auto* m : mws ) {
		WatcherGeneric* g = 0; for ( auto* x : impl->mWatches ) if ( x->ID == m->id ) g = x;
		if ( !g ) bad( "C06 C07", "watch " + num( m->id ) + " is not registered" );
		if ( g->Directory != m->dir || g->Listener != &ls[m->l] || g->Recursive != m->rec ) bad( "C06 C07", "watch " + num( m->id ) + " has other data: " + rel( g->Directory ) );
		std::multiset<std::string> a, b; tracked( g->DirWatch, a ); mtracked( m->root, b );
		if ( a != b ) bad( tag, "tracked directories are " + listS( a ) + "expected " + listS( b ) );
	}
}
static void dopoll() {
	hist += "poll; ";
	if ( getenv( "HTRACE" ) ) fprintf( stderr, "CASE %s\n", hist.c_str() );
	h.eval( hist );
	ex.clear(); cbs.clear();
	for ( auto* w : mws ) poll( w, w->root );
	counting = true;
	impl->mInitOK = false; impl->run(); impl->mInitOK = true;
	counting = false;
	for ( auto& c : cbs ) {
		int best = -1;
		for ( size_t i = 0; i < ex.size(); i++ ) {
			CB& e = ex[i].c;
			if ( e.id == c.id && e.l == c.l && slash( e.dir ) == slash( c.dir ) && e.name == c.name && e.old == c.old && e.act == c.act && ( best < 0 || ( ex[best].opt && !ex[i].opt ) ) ) best = i;
		}
		bool alive = false; for ( auto* w : mws ) if ( w->id == c.id ) alive = true;
		if ( best < 0 ) bad( alive ? "C02" : "C02 C06", "unexpected callback " + sh( c ) );
		if ( c.dir != ex[best].c.dir ) bad( "C02", "callback with the directory " + rel( c.dir ) + " instead of " + rel( ex[best].c.dir ) );
		ex.erase( ex.begin() + best );
	}
	for ( auto& e : ex ) if ( !e.opt ) bad( "C02 C06", "missing callback " + sh( e.c ) );
	checktree( "C02 C08 C06" );
}
static void useradd( const std::string& path, int li, bool rec ) {
	std::string dir = slash( path ), np = strip( path ), rd = dir; int e = 0; struct stat st;
	if ( !meta( np ).dir() ) e = Errors::FileNotFound;
	else if ( !readable( np ) ) e = Errors::FileNotReadable;
	else if ( inWatches( dir ) ) e = Errors::FileRepeated;
	else if ( lstat( np.c_str(), &st ) == 0 && S_ISLNK( st.st_mode ) ) {
		char* r = realpath( np.c_str(), 0 ); rd = slash( r ); free( r );
		if ( inWatches( rd ) ) e = Errors::FileRepeated;
		else if ( !linkOK( Box::parent( np ), rd ) ) e = Errors::FileOutOfScope;
	}
	std::vector<std::string> before = fw->directories(); size_t n0 = cbs.size();
	counting = e == 0; // the error log keeps its text
	WatchID r = fw->addWatch( path, &ls[li], rec );
	counting = false;
	hist += "add " + rel( path ) + ( rec ? " recursive" : "" ) + " -> " + num( r ) + "; ";
	h.eval( hist );
	if ( cbs.size() != n0 ) bad( "C02", "adding a watch produced a callback" );
	if ( e ) {
		if ( r != e ) bad( ( e == Errors::FileOutOfScope || r == Errors::FileOutOfScope || ( e == Errors::FileRepeated && !inWatches( dir ) ) ) ? "C07 C08" : "C07", "addWatch returned " + num( r ) + ", expected error " + num( e ) );
		if ( Errors::Log::getLastErrorCode() != r ) bad( "C07 C10", "last error is not the returned one" );
		if ( before != fw->directories() ) bad( "C07", "a refused addWatch changed the list of directories" );
		checktree( "C07" );
		return;
	}
	if ( r <= 0 ) bad( "C07 C08", "addWatch returned " + num( r ) + ", expected success" );
	for ( auto* w : mws ) if ( w->id == r ) bad( "C07", "the new id " + num( r ) + " is in use" );
	MW* w = new MW{ r, rd, li, rec, 0 }; w->root = mknode( rd );
	trackAll( w, w->root );
	mws.push_back( w );
	before.push_back( rd ); auto after = fw->directories();
	std::sort( before.begin(), before.end() ); std::sort( after.begin(), after.end() );
	if ( before != after ) bad( "C07 C06", "the list of directories is not the previous one and the new one" );
	checktree( "C02 C07 C08" );
}
static void userdel( bool byid ) {
	size_t k = mws.empty() ? 0 : h.rnd( mws.size() );
	auto before = fw->directories();
	MW* gone = 0; cbs.clear(); counting = true;
	if ( byid ) {
		WatchID id = mws.empty() || h.rnd( 6 ) == 0 ? (WatchID)( h.rnd( 2 ) ? 77 : -3 ) : mws[k]->id;
		hist += "remove " + num( id ) + "; ";
		for ( auto* w : mws ) if ( w->id == id ) gone = w;
		fw->removeWatch( id );
	} else {
		std::string d = mws.empty() || h.rnd( 6 ) == 0 ? box->at( "w/d" ) : mws[k]->dir;
		switch ( h.rnd( 8 ) ) { case 0: d = Box::parent( strip( d ) ); break; case 1: d = slash( d ) + "d"; break; case 2: d = strip( d ); d.pop_back(); break; }
		if ( h.rnd( 2 ) ) d = strip( d );
		hist += "remove " + rel( d ) + "; ";
		for ( auto* w : mws ) if ( w->dir == slash( d ) ) gone = w;
		fw->removeWatch( d );
	}
	counting = false;
	h.eval( hist );
	if ( gone ) { before.erase( std::find( before.begin(), before.end(), gone->dir ) ); mws.erase( std::find( mws.begin(), mws.end(), gone ) ); delete gone->root; delete gone; }
	if ( before != fw->directories() ) bad( "C06", "the list of directories is not the previous one without the removed watch" );
	if ( !cbs.empty() ) { cbs.clear(); bad( "C06", "removing a watch produced a callback" ); }
	checktree( "C06" );
}
static void run( int len ) {
	Box b; box = &b; hist = "";
	for ( auto* w : mws ) { delete w->root; delete w; }
	mws.clear(); cbs.clear(); liveN = 0; livep()->clear();
	fakeuid = 1000; // the code asks only once per process
	follow = h.rnd( 3 ) == 0; scope = h.rnd( 3 ) == 0;
	mkdir( b.at( "w" ).c_str(), 0755 ); mkdir( b.at( "out" ).c_str(), 0755 ); mkdir( b.at( "out/d" ).c_str(), 0755 );
	b.write( b.at( "out/f" ), "x" );
	fw = new FileWatcher( true, 1 ); impl = (FileWatcherGeneric*)fw->mImpl;
	if ( follow || h.rnd( 2 ) ) fw->followSymlinks( follow );
	if ( scope || h.rnd( 2 ) ) fw->allowOutOfScopeLinks( scope );
	if ( fw->followSymlinks() != follow || fw->allowOutOfScopeLinks() != scope ) bad( "C08", "link settings do not hold" );
	hist = std::string( follow ? "follow " : "" ) + ( scope ? "outofscope " : "" ) + ( fakeuid ? "user; " : "root; " );
	static const char* DN[] = { "d", "e", "c" }; static const char* FN[] = { "f", "g" }; static const char* LN[] = { "l", "a" };
	auto rdir = [&]() { std::string d = b.at( "w/" ); for ( int i = h.rnd( 3 ); i > 0; i-- ) { std::string n = d + DN[h.rnd( 3 )]; struct stat st; if ( lstat( n.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) d = n + "/"; } return d; };
	int pre = h.rnd( 5 );
	bool ok = false;
	try {
		for ( int i = 0; i < len; i++ ) {
			if ( i >= pre && mws.empty() ) { useradd( b.at( "w" ) + ( h.rnd( 2 ) ? "/" : "" ), h.rnd( 3 ), h.rnd( 4 ) != 0 ); continue; }
			std::string d = rdir(), o = rdir(), x = DN[h.rnd( 3 )], y = DN[h.rnd( 3 )], f = FN[h.rnd( 2 )], g = FN[h.rnd( 2 )], l = LN[h.rnd( 2 )];
			switch ( h.rnd( 22 ) ) {
				case 0: case 1: b.write( d + f, std::string( h.rnd( 3 ), 'x' ) ); hist += "write " + rel( d + f ) + "; "; break;
				case 2: case 3: case 4: b.mk( d + x ); hist += "mkdir " + rel( d + x ) + "; "; break;
				case 5: b.rm( d + x ); hist += "rm -r " + rel( d + x ) + "; "; break;
				case 6: b.rm( d + f ); hist += "rm " + rel( d + f ) + "; "; break;
				case 7: case 8: b.mv( d + x, d + y ); hist += "mv " + rel( d + x ) + " " + y + "; "; break;
				case 9: b.mv( d + x, o + y ); hist += "mv " + rel( d + x ) + " " + rel( o + y ) + "; "; break;
				case 10: b.mv( d + f, h.rnd( 2 ) ? d + g : o + g ); hist += "mv " + rel( d + f ) + " " + rel( o + g ) + "; "; break;
				case 11: { std::string t = h.rnd( 3 ) == 0 ? b.at( "out" ) : h.rnd( 3 ) == 0 ? d : h.rnd( 2 ) ? rdir() : b.at( "out/d" ); t = strip( t ); if ( b.sym( t, d + l ) ) hist += "ln -s " + rel( t ) + " " + rel( d + l ) + "; "; break; }
				case 12: { struct stat st; if ( lstat( ( d + l ).c_str(), &st ) == 0 ) { unlink( ( d + l ).c_str() ); b.bump( d ); hist += "rm " + rel( d + l ) + "; "; } break; }
				case 13: { b.mv( d + LN[0], d + LN[1] ); hist += "mv " + rel( d + LN[0] ) + " " + LN[1] + "; "; break; }
				case 14: if ( h.rnd( 2 ) ) { int m = h.rnd( 2 ) ? 0755 : 0; if ( chmod( ( d + x ).c_str(), m ) == 0 ) hist += "chmod " + rel( d + x ) + ( m ? " +r; " : " -r; " ); } break;
				case 15: if ( b.mk( d + "remote" ) ) hist += "mkdir " + rel( d + "remote" ) + "; "; break;
				case 16: { static const char* T[] = { "out", "out/d", "w", "w/d", "w/e", "w/l", "w/a", "none", "out/f", "out/" }; if ( i >= pre ) useradd( b.at( T[h.rnd( 10 )] ), h.rnd( 3 ), h.rnd( 2 ) ); break; }
				case 17: if ( mws.size() > 1 || h.rnd( 6 ) == 0 ) userdel( h.rnd( 2 ) ); break;
				case 18: b.write( b.at( "out/d/" ) + f, "y" ); hist += "write " + rel( b.at( "out/d/" ) + f ) + "; "; break;
				default: if ( !mws.empty() ) dopoll(); break;
			}
		}
		if ( !mws.empty() ) dopoll();
		counting = true; delete fw; fw = 0; counting = false;
		if ( liveN ) bad( "C06", num( liveN ) + " watch objects are never released" );
		ok = true;
	} catch ( Skip& ) { counting = false; }
	if ( !ok && fw ) { cbs.clear(); try { delete fw; } catch ( ... ) {} fw = 0; }
	cbs.clear();
}
// the background thread of a real watcher polls as well: an edit is reported to the listener
int main() {
	for ( int i = 0; i < 3; i++ ) ls[i].n = i;
	while ( h.time_left() ) run( 6 + h.rnd( 25 ) );
	return h.done();
}
