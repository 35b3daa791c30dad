#include "fsbox.hpp"
#include <efsw/DirectorySnapshot.hpp>
#include <efsw/FileSystem.hpp>
using namespace efsw;
static Harness h( "C01" );
static bool same( const FileInfo& a, const FileInfo& b ) {
	return a.ModificationTime == b.ModificationTime && a.Size == b.Size && a.OwnerId == b.OwnerId && a.GroupId == b.GroupId && a.Permissions == b.Permissions && a.Inode == b.Inode;
}
static FileInfo info( const std::string& p ) {
	FileInfo f; f.Filepath = p; f.ModificationTime = f.Size = f.OwnerId = f.GroupId = f.Permissions = f.Inode = 0;
	struct stat st;
	if ( stat( p.c_str(), &st ) == 0 ) { f.ModificationTime = st.st_mtime; f.Size = st.st_size; f.OwnerId = st.st_uid; f.GroupId = st.st_gid; f.Permissions = st.st_mode; f.Inode = st.st_ino; }
	return f;
}
typedef std::map<std::string, FileInfo> M;
static M listing( const std::string& d ) {
	M m; DIR* dp = opendir( d.c_str() ); if ( !dp ) return m;
	while ( dirent* e = readdir( dp ) ) { std::string n = e->d_name; if ( n != "." && n != ".." ) m[n] = info( d + n ); }
	closedir( dp ); return m;
}
static std::string nm( const FileInfo& f ) { std::string p = f.Filepath; if ( p.size() > 1 && p.back() == '/' ) p.pop_back(); return p.substr( p.rfind( '/' ) + 1 ); }
static std::string hist;
static void bad( const std::string& w ) { h.fail( w, hist ); }
static bool dir( const FileInfo& f ) { return S_ISDIR( f.Permissions ); }
static bool reg( const FileInfo& f ) { return S_ISREG( f.Permissions ); }
static void check( DirectorySnapshot& s, const std::string& d ) {
	M O = s.Files; FileInfo od = s.DirectoryInfo;
	FileInfo cd = info( od.Filepath.back() == '/' ? od.Filepath.substr( 0, od.Filepath.size() - 1 ) : od.Filepath );
	bool ex = cd.Inode != 0;
	M L = ex ? listing( d ) : M();
	bool changed = !same( od, cd );
	DirectorySnapshotDiff D = s.scan();
	if ( D.DirChanged != changed ) bad( "DirChanged is " + num( D.DirChanged ) );
	std::map<std::string, std::string> cls; std::map<std::string, std::string> movedTo, movedFrom;
	auto put = [&]( const std::string& n, const std::string& c, const FileInfo& f, bool isdir ) {
		if ( cls.count( n ) ) bad( "entry " + n + " is reported as " + cls[n] + " and as " + c );
		cls[n] = c;
		if ( dir( f ) != isdir ) bad( "entry " + n + " is in the wrong list (" + c + ")" );
	};
	for ( auto& f : D.FilesCreated ) put( nm( f ), "created", f, false );
	for ( auto& f : D.DirsCreated ) put( nm( f ), "created", f, true );
	for ( auto& f : D.FilesModified ) put( nm( f ), "modified", f, false );
	for ( auto& f : D.DirsModified ) put( nm( f ), "modified", f, true );
	for ( auto& f : D.FilesDeleted ) put( nm( f ), "deleted", f, false );
	for ( auto& f : D.DirsDeleted ) put( nm( f ), "deleted", f, true );
	for ( int k = 0; k < 2; k++ ) for ( auto& m : ( k ? D.DirsMoved : D.FilesMoved ) ) {
		put( nm( m.second ), "move target", m.second, k );
		put( m.first, "move source", m.second, k );
		if ( L.count( m.first ) ) bad( "a move is reported from " + m.first + ", which is still there" );
		if ( !O.count( m.first ) ) bad( "a move is reported from the unknown name " + m.first );
		if ( dir( O[m.first] ) != dir( m.second ) ) bad( "a move pairs a directory with a file: " + m.first + " to " + nm( m.second ) );
		if ( O[m.first].Inode != m.second.Inode ) bad( "a move pairs different inodes: " + m.first + " to " + nm( m.second ) );
	}
	M exp = O;
	for ( auto& e : L ) {
		std::string c = cls.count( e.first ) ? cls[e.first] : "";
		if ( O.count( e.first ) ) {
			bool m = !same( O[e.first], e.second );
			if ( c != ( m ? "modified" : "" ) ) bad( "surviving entry " + e.first + ( m ? " changed" : " did not change" ) + " but is reported as '" + c + "'" );
			if ( m ) exp[e.first] = e.second;
		} else if ( reg( e.second ) || dir( e.second ) ) {
			if ( c != "created" && c != "move target" ) bad( "new entry " + e.first + " is reported as '" + c + "'" );
			if ( c == "created" )
				for ( auto& o : O ) if ( !L.count( o.first ) && o.second.Inode == e.second.Inode && dir( o.second ) == dir( e.second ) && ( !cls.count( o.first ) || cls[o.first] == "deleted" ) )
					bad( "new entry " + e.first + " has the inode of the vanished " + o.first + " but is reported as created" );
			exp[e.first] = e.second;
		} else if ( c != "" ) bad( "special file " + e.first + " is reported as " + c );
	}
	for ( auto& o : O ) if ( !L.count( o.first ) ) {
		std::string c = cls.count( o.first ) ? cls[o.first] : "";
		if ( changed ? ( c != "deleted" && c != "move source" ) : ( c != "" && c != "move source" ) ) bad( "missing entry " + o.first + " is reported as '" + c + "'" );
		if ( c != "" || !ex ) exp.erase( o.first );
	}
	for ( auto& c : cls ) if ( !O.count( c.first ) && !L.count( c.first ) ) bad( "unknown entry " + c.first + " reported as " + c.second );
	if ( s.Files.size() != exp.size() ) bad( "remembered state has " + num( s.Files.size() ) + " entries, expected " + num( exp.size() ) );
	for ( auto& e : exp ) {
		if ( !s.Files.count( e.first ) ) bad( "entry " + e.first + " is not remembered" );
		if ( !same( s.Files[e.first], e.second ) || nm( s.Files[e.first] ) != e.first ) bad( "entry " + e.first + " is remembered with other metadata" );
	}
	if ( !same( s.DirectoryInfo, cd ) ) bad( "the directory's own metadata is not remembered" );
	DirectorySnapshotDiff E = s.scan();
	if ( E.changed() || E.DirChanged ) bad( "a second poll of the unchanged directory reports something" );
}
static void run( int len, bool quick ) {
	Box b; hist = "";
	std::string d = b.at( "w" ); mkdir( d.c_str(), 0755 ); d += "/";
	b.bump( d );
	static const char* N[] = { "a", "b", "c", "d", "e" };
	DirectorySnapshot s;
	s.setDirectoryInfo( h.rnd( 2 ) ? d : d.substr( 0, d.size() - 1 ) );
	int pre = h.rnd( 6 );
	for ( int i = 0; i < len; i++ ) {
		std::string x = N[h.rnd( 5 )], y = N[h.rnd( 5 )];
		struct stat st; bool gone = stat( d.c_str(), &st ) != 0;
		switch ( h.rnd( gone ? 2 : 17 ) ) {
			case 0: if ( gone ) { mkdir( d.c_str(), 0755 ); b.bump( d ); hist += "mkdir .; "; break; }
			case 1: if ( !gone ) { b.write( d + x, std::string( h.rnd( 3 ), 'x' ) ); hist += "write " + x + "; "; } break;
			case 2: b.mk( d + x ); hist += "mkdir " + x + "; "; break;
			case 3: case 4: b.rm( d + x ); hist += "rm " + x + "; "; break;
			case 5: case 6: case 7: b.mv( d + x, d + y ); hist += "mv " + x + " " + y + "; "; break;
			case 8: b.ln( d + x, d + y ); hist += "ln " + x + " " + y + "; "; break;
			case 9: chmod( ( d + x ).c_str(), h.rnd( 2 ) ? 0600 : 0755 ); hist += "chmod " + x + "; "; break;
			case 10: if ( b.exists( d + x ) ) b.bump( d + x ); hist += "touch " + x + "; "; break;
			case 11: if ( mkfifo( ( d + x ).c_str(), 0600 ) == 0 ) { b.bump( d + x ); b.bump( d ); } hist += "mkfifo " + x + "; "; break;
			case 12: b.sym( h.rnd( 2 ) ? "a" : "nowhere", d + x ); hist += "symlink " + x + "; "; break;
			case 13: if ( lchown( ( d + x ).c_str(), h.rnd( 3 ), h.rnd( 3 ) ) ) {} hist += "chown " + x + "; "; break;
			case 15: case 16: {
				// another file with the same metadata takes the place of x
				struct stat sx; if ( lstat( ( d + x ).c_str(), &sx ) || !S_ISREG( sx.st_mode ) ) break;
				std::string t = d + "~"; b.write( t, std::string( sx.st_size, 'y' ) ); chmod( t.c_str(), sx.st_mode & 07777 ); if ( lchown( t.c_str(), sx.st_uid, sx.st_gid ) ) {}
				b.settime( t, sx.st_mtime ); rename( t.c_str(), ( d + x ).c_str() ); b.bump( d ); hist += "replace " + x + "; "; break; }
			case 14: if ( h.rnd( 6 ) == 0 ) { b.wipe( d ); hist += "rm -r .; "; } break;
		}
		if ( i >= pre && h.rnd( 3 ) == 0 ) {
			if ( h.rnd( 4 ) == 0 && stat( d.c_str(), &st ) == 0 && s.DirectoryInfo.ModificationTime ) { b.settime( d, s.DirectoryInfo.ModificationTime ); hist += "(same dir mtime) "; }
			hist += "poll; ";
			h.eval( hist );
			check( s, d );
		}
	}
	hist += "poll; "; h.eval( hist ); check( s, d );
}
int main() {
	while ( h.time_left() ) run( 3 + h.rnd( 12 ), true );
	return h.done();
}
