// Random histories of the C API; the backend of every watcher is a recording stand-in.
#include "common.hpp"
#include <efsw/efsw.h>
#include <efsw/efsw.hpp>
#include <efsw/FileWatcherImpl.hpp>
static Harness h( "C09" );
static std::string hist;
static void bad( const std::string& w ) { h.fail( w, hist ); }
// ---- which listeners handed to a backend have been destroyed
struct Rec { void* l; bool dead; };
static Rec recs[4096]; static int nrec = 0;
void operator delete( void* p ) noexcept { for ( int i = 0; i < nrec; i++ ) if ( recs[i].l == p ) recs[i].dead = true; free( p ); }
void operator delete( void* p, size_t ) noexcept { operator delete( p ); }
void* operator new( size_t n ) { void* p = malloc( n ? n : 1 ); return p; }
static bool dead( void* l ) { for ( int i = nrec - 1; i >= 0; i-- ) if ( recs[i].l == l ) return recs[i].dead; return false; }
static void seen( void* l ) { for ( int i = 0; i < nrec; i++ ) if ( recs[i].l == l ) { recs[i].dead = false; return; } if ( nrec < 4096 ) recs[nrec++] = { l, false }; }

struct Call { std::string kind, dir; efsw::FileWatchListener* l; bool rec; std::vector<std::pair<int, int>> opts; long id; };
static std::vector<Call> calls;
static long nextret = 1;
struct Watch { long id; std::string dir; efsw::FileWatchListener* l; int fn; void* param; int missed; };
struct WModel { efsw_watcher w; std::vector<Watch> ws; std::set<void*> ls; bool follow = false, scope = false, stopped = false; };
static std::vector<WModel*> wm;
static int destroyed = 0; static efsw_watcher releasing = 0;
struct Stub : efsw::FileWatcherImpl {
	WModel* m;
	Stub( efsw::FileWatcher* f, WModel* m_ ) : efsw::FileWatcherImpl( f ), m( m_ ) { mInitOK = true; mIsGeneric = true; }
	~Stub() {
		destroyed++;
		if ( m->stopped ) bad( "a watcher is stopped twice" );
		m->stopped = true;
		// the background thread may deliver events until here
		for ( auto& w : m->ws ) if ( dead( w.l ) ) bad( "the callback record of a watch is destroyed before the watcher is stopped" );
		if ( !m->ws.empty() ) { Watch& w = m->ws.back(); w.l->handleFileAction( w.id, w.dir, "last", efsw::Actions::Modified, "" ); }
	}
	efsw::WatchID addWatch( const std::string& d, efsw::FileWatchListener* l, bool rec, const std::vector<efsw::WatcherOption>& o ) override {
		Call c = { "add", d, l, rec, {}, 0 }; for ( auto& x : o ) c.opts.push_back( { (int)x.mOption, x.mValue } );
		calls.push_back( c ); if ( l ) seen( l ); return nextret;
	}
	void removeWatch( const std::string& d ) override { calls.push_back( { "removedir", d, 0, false, {}, 0 } ); }
	void removeWatch( efsw::WatchID i ) override { calls.push_back( { "removeid", "", 0, false, {}, i } ); }
	void watch() override { calls.push_back( { "watch", "", 0, false, {}, 0 } ); }
	void handleAction( efsw::Watcher*, const std::string&, unsigned long, const std::string& ) override {}
	std::vector<std::string> directories() override { return {}; }
	bool pathInWatches( const std::string& ) override { return false; }
};
struct Got { int fn; efsw_watcher w; long id; std::string dir, name, old; int act; void* param; bool missed; };
static std::vector<Got> got;
template <int N> static void cb( efsw_watcher w, efsw_watchid id, const char* d, const char* f, enum efsw_action a, const char* o, void* p ) { got.push_back( { N, w, id, d, f, o, (int)a, p, false } ); }
template <int N> static void ms( efsw_watcher w, efsw_watchid id, const char* d ) { got.push_back( { N, w, id, d, "", "", 0, 0, true } ); }
static efsw_pfn_fileaction_callback CBS[] = { cb<0>, cb<1>, cb<2> };
static efsw_pfn_handle_missed_fileactions MSS[] = { nullptr, ms<1>, ms<2> };
static int params[3];
static std::string rs() { static const char* T[] = { "", "a", "/tmp/x/", "dir with space", "\xc3\xa9t\xc3\xa9/", "../b", "a_rather_long_name_that_does_not_fit_into_a_short_string.txt" }; return T[h.rnd( 7 )]; }
static void release( size_t k ) {
	WModel* m = wm[k]; hist += "release " + num( k ) + "; "; calls.clear(); got.clear();
	std::vector<std::pair<void*, bool>> others;
	for ( auto* o : wm ) if ( o != m ) for ( void* l : o->ls ) if ( dead( l ) ) bad( "a callback record of another watcher is gone" );
	int d0 = destroyed;
	efsw_release( m->w );
	if ( destroyed != d0 + 1 ) bad( "releasing a watcher did not stop it" );
	for ( void* l : m->ls ) if ( !dead( l ) ) bad( "a callback record of the released watcher is never destroyed" );
	for ( auto* o : wm ) if ( o != m ) for ( void* l : o->ls ) if ( dead( l ) ) bad( "releasing a watcher destroyed a callback record of another one" );
	wm.erase( wm.begin() + k ); delete m;
}
static void run( int len ) {
	hist = ""; nrec = 0;
	for ( int i = 0; i < len; i++ ) {
		if ( wm.empty() || ( wm.size() < 3 && h.rnd( 8 ) == 0 ) ) {
			int mode = h.rnd( 3 ) == 0 ? 0 : h.rnd( 2 ) ? 1 : 256;
			efsw_watcher w = efsw_create( mode ); hist += "create " + num( mode ) + "; ";
			efsw::FileWatcher* f = (efsw::FileWatcher*)w;
			if ( mode && !f->mImpl->mIsGeneric ) bad( "the generic mode was not passed on" );
			if ( !mode && f->mImpl->mIsGeneric ) bad( "the native backend was not used" );
			WModel* m = new WModel; m->w = w; delete f->mImpl; f->mImpl = new Stub( f, m ); wm.push_back( m );
			if ( efsw_follow_symlinks_isenabled( w ) || efsw_outofscopelinks_isallowed( w ) ) bad( "link settings are not off by default" );
			continue;
		}
		size_t k = h.rnd( wm.size() ); WModel* m = wm[k]; efsw::FileWatcher* f = (efsw::FileWatcher*)m->w;
		calls.clear(); got.clear();
		switch ( h.rnd( 12 ) ) {
			case 0: case 1: case 2: {
				int fn = h.rnd( 3 ), ps = h.rnd( 3 ), mi = h.rnd( 3 ), rec = h.rnd( 4 ) == 0 ? 0 : h.rnd( 2 ) ? 1 : 512, no = h.rnd( 4 ); bool simple = h.rnd( 3 ) == 0;
				void* pa = h.rnd( 3 ) ? &params[ps] : NULL; std::string d = rs(); nextret = h.rnd( 4 ) ? (long)h.rnd( 1000 ) + 1 : -(long)h.rnd( 8 );
				std::vector<efsw_watcher_option> o; for ( int j = 0; j < no; j++ ) { efsw_watcher_option x; x.option = (efsw_option)( 1 + h.rnd( 5 ) ); x.value = (int)h.rnd( 1000 ) - 500; o.push_back( x ); }
				if ( simple ) { mi = 0; no = 0; }
				hist += "addwatch on " + num( k ) + " dir " + show( d ) + " callback " + num( fn ) + " missed " + num( mi ) + " param " + num( pa ? ps : -1 ) + " recursive " + num( rec ) + " options " + num( no ) + "; ";
				h.eval( hist );
				long r = simple ? efsw_addwatch( m->w, d.c_str(), CBS[fn], rec, pa ) : efsw_addwatch_withoptions( m->w, d.c_str(), CBS[fn], rec, o.data(), no, pa, MSS[mi] );
				if ( r != nextret ) bad( "addwatch returned " + num( r ) + " instead of " + num( nextret ) );
				if ( calls.size() != 1 || calls[0].kind != "add" ) bad( "addwatch made " + num( calls.size() ) + " calls" );
				Call& c = calls[0];
				if ( c.dir != d ) bad( "directory passed on as " + show( c.dir ) );
				if ( c.rec != ( rec != 0 ) ) bad( "recursion flag passed on as " + num( c.rec ) );
				if ( c.opts.size() != (size_t)no ) bad( num( c.opts.size() ) + " options passed on instead of " + num( no ) );
				for ( int j = 0; j < no; j++ ) if ( c.opts[j].first != (int)o[j].option || c.opts[j].second != o[j].value ) bad( "option " + num( j ) + " passed on as " + num( c.opts[j].first ) + "=" + num( c.opts[j].second ) );
				if ( !c.l ) bad( "no listener was passed on" );
				m->ls.insert( c.l );
				m->ws.push_back( { r, d, c.l, fn, pa, mi } );
				break;
			}
			case 3: case 4: case 5: case 6: {
				if ( m->ws.empty() ) break;
				Watch& w = m->ws[h.rnd( m->ws.size() )]; std::string n = rs(), o = rs(); int a = 1 + h.rnd( 4 ); bool missed = h.rnd( 3 ) == 0;
				hist += std::string( missed ? "missed" : "event" ) + " on watch " + num( w.id ) + " of " + num( k ) + "; "; h.eval( hist );
				if ( dead( w.l ) ) bad( "the callback record of a watch is destroyed while its watcher is alive" );
				if ( missed ) w.l->handleMissedFileActions( w.id, w.dir ); else w.l->handleFileAction( w.id, w.dir, n, (efsw::Action)a, o );
				if ( missed && !w.missed ) { if ( !got.empty() ) bad( "a missed-event notice was delivered although no such callback was given" ); break; }
				if ( got.size() != 1 ) bad( num( got.size() ) + " callbacks for one event" );
				Got& g = got[0];
				if ( g.missed != missed || g.fn != ( missed ? w.missed : w.fn ) ) bad( "the event went to another callback" );
				if ( g.w != m->w || g.id != w.id || g.dir != w.dir ) bad( "the event arrived with another watcher, id or directory" );
				if ( !missed && ( g.name != n || g.old != o || g.act != a || g.param != w.param ) ) bad( "the event arrived changed: " + show( g.name ) + " " + num( g.act ) + " " + show( g.old ) );
				break;
			}
			case 7: {
				std::string d = rs(); long id = (long)h.rnd( 2000 ) - 1000; bool byid = h.rnd( 2 ); hist += "remove; "; h.eval( hist );
				if ( byid ) efsw_removewatch_byid( m->w, id ); else efsw_removewatch( m->w, d.c_str() );
				if ( calls.size() != 1 || calls[0].kind != ( byid ? "removeid" : "removedir" ) || ( byid ? calls[0].id != id : calls[0].dir != d ) ) bad( "removal passed on wrongly" );
				break;
			}
			case 8: hist += "watch; "; efsw_watch( m->w ); if ( calls.size() != 1 || calls[0].kind != "watch" ) bad( "efsw_watch was not passed on" ); break;
			case 9: {
				bool on = h.rnd( 2 ); int v = on ? ( h.rnd( 2 ) ? 1 : 256 ) : 0; bool fl = h.rnd( 2 ); hist += std::string( fl ? "follow" : "scope" ) + " " + num( v ) + " on " + num( k ) + "; ";
				if ( fl ) { efsw_follow_symlinks( m->w, v ); m->follow = on; } else { efsw_allow_outofscopelinks( m->w, v ); m->scope = on; }
				break;
			}
			case 10: {
				if ( h.rnd( 3 ) == 0 ) { hist += "clear error; "; efsw_clearlasterror(); if ( efsw::Errors::Log::getLastErrorCode() != 0 || efsw_getlasterror()[0] ) bad( "the last error was not cleared" ); break; }
				std::string t = rs(); hist += "error; "; efsw::Errors::Log::createLastError( (efsw::Errors::Error)( -1 - (int)h.rnd( 7 ) ), t );
				if ( efsw::Errors::Log::getLastErrorLog() != efsw_getlasterror() ) bad( "the last error text is another one" );
				break;
			}
			case 11: if ( h.rnd( 3 ) == 0 ) release( k ); break;
		}
		for ( auto* o : wm ) {
			efsw::FileWatcher* x = (efsw::FileWatcher*)o->w;
			if ( x->followSymlinks() != o->follow || ( efsw_follow_symlinks_isenabled( o->w ) != 0 ) != o->follow ) bad( "following links is not as set through the C API" );
			if ( x->allowOutOfScopeLinks() != o->scope || ( efsw_outofscopelinks_isallowed( o->w ) != 0 ) != o->scope ) bad( "allowing out-of-scope links is not as set through the C API" );
		}
		(void)f;
	}
	while ( !wm.empty() ) release( h.rnd( wm.size() ) );
}
int main() {
	while ( h.time_left() ) run( 4 + h.rnd( 40 ) );
	return h.done();
}
