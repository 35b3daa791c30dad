From 4d3063b80ecf0ceef45b432d3fe56e6a079ccd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 01/26] fix: record the error code in Log::createLastError

createLastError() only set the message, so getLastErrorCode() always
returned NoError.
---
 src/efsw/Log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/efsw/Log.cpp b/src/efsw/Log.cpp
index 6f32df7..4150500 100644
--- a/src/efsw/Log.cpp
+++ b/src/efsw/Log.cpp
@@ -20,6 +20,8 @@ void Log::clearLastError() {
 }
 
 Error Log::createLastError( Error err, std::string log ) {
+	LastErrorCode = err;
+
 	switch ( err ) {
 		case FileNotFound:
 			LastError = "File not found ( " + log + " )";
-- 
2.43.0


From d3bd82bc5ca69a7c4d1ff885e5266a9bff9f6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 02/26] fix: don't report a move from a name that is still
 present

nodeInFiles() paired a new entry with any remembered entry with the same
inode, so creating a hard link was reported as a move of the other name,
which was also dropped from the snapshot while still present.
---
 src/efsw/DirectorySnapshot.cpp | 8 +++++---
 src/efsw/DirectorySnapshot.hpp | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index f78475f..72e7322 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -126,7 +126,7 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 			std::string oldFile = "";
 
 			/// Check if the same inode already existed
-			if ( ( fit = nodeInFiles( fi ) ) != Files.end() ) {
+			if ( ( fit = nodeInFiles( fi, files ) ) != Files.end() ) {
 				oldFile = fit->first;
 
 				/// Avoid firing a Delete event
@@ -171,12 +171,14 @@ DirectorySnapshotDiff DirectorySnapshot::scan() {
 	return Diff;
 }
 
-FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi ) {
+FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi, const FileInfoMap& files ) {
 	FileInfoMap::iterator it;
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath ) {
+			/// A name that is still present in the directory ( hard link ) wasn't moved
+			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath &&
+				 files.find( it->first ) == files.end() ) {
 				return it;
 			}
 		}
diff --git a/src/efsw/DirectorySnapshot.hpp b/src/efsw/DirectorySnapshot.hpp
index 0e60542..8f894f8 100644
--- a/src/efsw/DirectorySnapshot.hpp
+++ b/src/efsw/DirectorySnapshot.hpp
@@ -24,7 +24,7 @@ class DirectorySnapshot {
 
 	DirectorySnapshotDiff scan();
 
-	FileInfoMap::iterator nodeInFiles( FileInfo& fi );
+	FileInfoMap::iterator nodeInFiles( FileInfo& fi, const FileInfoMap& files );
 
 	void addFile( std::string path );
 
-- 
2.43.0


From fb60147b2b1773dfcfe26e7b1ed12b35c8daa261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 03/26] fix: initialise FileInfo::Size

The record of a path that can't be examined kept an indeterminate size, so
two such records could compare different on every poll.
---
 src/efsw/FileInfo.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 4dcbd7d..2600ddf 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -56,11 +56,12 @@ bool FileInfo::inodeSupported() {
 }
 
 FileInfo::FileInfo() :
-	ModificationTime( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
+	ModificationTime( 0 ), Size( 0 ), OwnerId( 0 ), GroupId( 0 ), Permissions( 0 ), Inode( 0 ) {}
 
 FileInfo::FileInfo( const std::string& filepath ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
@@ -71,6 +72,7 @@ FileInfo::FileInfo( const std::string& filepath ) :
 FileInfo::FileInfo( const std::string& filepath, bool linkInfo ) :
 	Filepath( filepath ),
 	ModificationTime( 0 ),
+	Size( 0 ),
 	OwnerId( 0 ),
 	GroupId( 0 ),
 	Permissions( 0 ),
-- 
2.43.0


From a8ca13d48b4d7b4fb9878b71511eac305441d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 04/26] fix: examine the root directory

FileInfo stripped the separator of "/", examined the empty path and kept
it, so the root directory had no metadata and couldn't be watched.
---
 src/efsw/FileInfo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileInfo.cpp b/src/efsw/FileInfo.cpp
index 2600ddf..65b0514 100644
--- a/src/efsw/FileInfo.cpp
+++ b/src/efsw/FileInfo.cpp
@@ -93,7 +93,7 @@ void FileInfo::getInfo() {
 
 	/// Why i'm doing this? stat in mingw32 doesn't work for directories if the dir path ends with a
 	/// path slash
-	bool slashAtEnd = FileSystem::slashAtEnd( Filepath );
+	bool slashAtEnd = Filepath.size() > 1 && FileSystem::slashAtEnd( Filepath );
 
 	if ( slashAtEnd ) {
 		FileSystem::dirRemoveSlashAtEnd( Filepath );
@@ -122,7 +122,7 @@ void FileInfo::getInfo() {
 }
 
 void FileInfo::getRealInfo() {
-	bool slashAtEnd = FileSystem::slashAtEnd( Filepath );
+	bool slashAtEnd = Filepath.size() > 1 && FileSystem::slashAtEnd( Filepath );
 
 	if ( slashAtEnd ) {
 		FileSystem::dirRemoveSlashAtEnd( Filepath );
@@ -199,7 +199,7 @@ std::string FileInfo::linksTo() {
 }
 
 bool FileInfo::exists() {
-	bool slashAtEnd = FileSystem::slashAtEnd( Filepath );
+	bool slashAtEnd = Filepath.size() > 1 && FileSystem::slashAtEnd( Filepath );
 
 	if ( slashAtEnd ) {
 		FileSystem::dirRemoveSlashAtEnd( Filepath );
-- 
2.43.0


From 238956f94fe783b052f3eebf5f0e7ce2a5abf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 05/26] fix: don't classify a path that can't be examined as
 remote

isRemoteFS() read an uninitialised buffer when statfs() failed, so adding a
watch on a missing directory could fail as remote instead of not found.
---
 src/efsw/platform/posix/FileSystemImpl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/platform/posix/FileSystemImpl.cpp b/src/efsw/platform/posix/FileSystemImpl.cpp
index 92eeb47..9819afa 100644
--- a/src/efsw/platform/posix/FileSystemImpl.cpp
+++ b/src/efsw/platform/posix/FileSystemImpl.cpp
@@ -204,7 +204,9 @@ bool FileSystem::isRemoteFS( const std::string& directory ) {
 	EFSW_OS == EFSW_OS_SOLARIS || EFSW_OS == EFSW_OS_ANDROID || EFSW_OS == EFSW_OS_IOS
 	struct statfs statfsbuf;
 
-	statfs( directory.c_str(), &statfsbuf );
+	if ( 0 != statfs( directory.c_str(), &statfsbuf ) ) {
+		return false;
+	}
 
 	switch ( statfsbuf.f_type | 0UL ) {
 		case S_MAGIC_FUSEBLK: /* 0x65735546 remote */
-- 
2.43.0


From 403bac989ffe57741d6a593f4905612f636ad171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 06/26] fix: report a queue overflow to every user added watch

---
 src/efsw/FileWatcherInotify.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 7f5fde4..0844969 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -328,6 +328,23 @@ void FileWatcherInotify::run() {
 					{
 						curWatcher = NULL;
 
+						/// The kernel queue overflowed, every user added watch missed events
+						if ( pevent->mask & IN_Q_OVERFLOW ) {
+							std::vector<WatcherInotify*> realWatches;
+
+							{
+								Lock lock( mRealWatchesLock );
+
+								for ( WatchMap::iterator it = mRealWatches.begin();
+									  it != mRealWatches.end(); ++it )
+									realWatches.push_back( it->second );
+							}
+
+							for ( std::vector<WatcherInotify*>::iterator it = realWatches.begin();
+								  it != realWatches.end(); ++it )
+								handleAction( *it, "", IN_Q_OVERFLOW );
+						}
+
 						{
 							Lock lock( mWatchesLock );
 
-- 
2.43.0


From 8c572414a47bf8347d9169641c093df1056373c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:05 +0000
Subject: [PATCH 07/26] fix: only pair a move-in with the move-out directly
 before it

---
 src/efsw/FileWatcherInotify.cpp | 108 +++++++++-----------------------
 src/efsw/FileWatcherInotify.hpp |   4 ++
 2 files changed, 35 insertions(+), 77 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0844969..fa7b064 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -296,6 +296,22 @@ Watcher* FileWatcherInotify::watcherContainsDirectory( std::string dir ) {
 	return NULL;
 }
 
+bool FileWatcherInotify::isWatching( WatcherInotify* watch ) {
+	Lock lock( mWatchesLock );
+	WatchMap::iterator it = mWatches.find( watch->InotifyID );
+	return it != mWatches.end() && it->second == watch;
+}
+
+void FileWatcherInotify::movedOutside( WatcherInotify* watch ) {
+	Lock lock( mWatchesLock );
+
+	/// The watch could have been removed since the IN_MOVED_FROM
+	if ( isWatching( watch ) )
+		mMovedOutsideWatches.push_back( std::make_pair( watch, watch->OldFileName ) );
+
+	watch->OldFileName = "";
+}
+
 void FileWatcherInotify::run() {
 	char* buff = new char[BUFF_SIZE];
 	memset( buff, 0, BUFF_SIZE );
@@ -303,8 +319,6 @@ void FileWatcherInotify::run() {
 	WatcherInotify* curWatcher = NULL;
 	WatcherInotify* currentMoveFrom = NULL;
 	uint32_t currentMoveCookie = -1;
-	bool lastWasMovedFrom = false;
-	std::string prevOldFileName;
 
 	do {
 		fd_set rfds;
@@ -354,19 +368,27 @@ void FileWatcherInotify::run() {
 								curWatcher = wit->second;
 						}
 
+						/// A move is only completed by the IN_MOVED_TO that directly follows it
+						if ( currentMoveFrom &&
+							 !( curWatcher && ( pevent->mask & IN_MOVED_TO ) &&
+								pevent->cookie == currentMoveCookie ) ) {
+							movedOutside( currentMoveFrom );
+							currentMoveFrom = NULL;
+						}
+
 						if ( curWatcher ) {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
 							// Check if this is the destination of a move
-							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom &&
-								 pevent->cookie == currentMoveCookie ) {
+							if ( ( pevent->mask & IN_MOVED_TO ) && currentMoveFrom ) {
 
 								// If the move happened between TWO DIFFERENT watched directories
 								if ( curWatcher != currentMoveFrom ) {
 									// We need to simulate a delete event, the IN_MOVED_TO will
 									// generate an add event after
-									handleAction( currentMoveFrom, currentMoveFrom->OldFileName,
-												  IN_DELETE );
+									if ( isWatching( currentMoveFrom ) )
+										handleAction( currentMoveFrom,
+													  currentMoveFrom->OldFileName, IN_DELETE );
 
 									// Clear the state on the source watcher so it doesn't
 									// get processed again or stuck with stale data.
@@ -378,85 +400,22 @@ void FileWatcherInotify::run() {
 
 								/// Pair processed successfully
 								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
 							} else if ( pevent->mask & IN_MOVED_FROM ) {
-								// Previous event was moved from and current event is moved from
-								// Treat it as a DELETE or moved outside watches
-								if ( lastWasMovedFrom && currentMoveFrom ) {
-									mMovedOutsideWatches.push_back(
-										std::make_pair( currentMoveFrom, prevOldFileName ) );
-								}
-
 								currentMoveFrom = curWatcher;
 								currentMoveCookie = pevent->cookie;
-							} else {
-								/// Keep track of the IN_MOVED_FROM events to know
-								/// if the IN_MOVED_TO event is also fired
-								if ( currentMoveFrom ) {
-									if ( std::find_if( mMovedOutsideWatches.begin(),
-													   mMovedOutsideWatches.end(),
-													   [currentMoveFrom](
-														   const std::pair<WatcherInotify*,
-																		   std::string>& moved ) {
-														   return moved.first == currentMoveFrom;
-													   } ) == mMovedOutsideWatches.end() ) {
-										mMovedOutsideWatches.push_back(
-											std::make_pair( currentMoveFrom, prevOldFileName ) );
-									} else {
-										efDEBUG( "Info: Tried to add watch to the moved outside "
-												 "watches but it was already there, Watch ID: %d - "
-												 "Address: %p - Path: \"%s\" - prevOldFileName: "
-												 "\"%s\"\n",
-												 pevent->wd, currentMoveFrom,
-												 currentMoveFrom->Directory.c_str(),
-												 prevOldFileName.c_str() );
-									}
-								}
-
-								currentMoveFrom = NULL;
-								currentMoveCookie = -1;
 							}
 						}
-
-						lastWasMovedFrom = ( pevent->mask & IN_MOVED_FROM ) != 0;
-						if ( pevent->mask & IN_MOVED_FROM )
-							prevOldFileName = std::string( (char*)pevent->name );
 					}
 
 					i += sizeof( struct inotify_event ) + pevent->len;
 				}
 			}
 
-			// If the last event was also IN_MODEV_FROM we didn't generate any event for that one
-			// Treat it as a DELETE or moved outside watches
-			if ( lastWasMovedFrom && currentMoveFrom ) {
-				mMovedOutsideWatches.push_back(
-					std::make_pair( currentMoveFrom, prevOldFileName ) );
-				currentMoveFrom = NULL;
-				lastWasMovedFrom = false;
-				prevOldFileName.clear();
-			}
-		} else {
-			// Here means no event received
-			// If last event is IN_MOVED_FROM, we assume no IN_MOVED_TO
+			// If the last event was IN_MOVED_FROM treat it as a DELETE or moved outside watches
 			if ( currentMoveFrom ) {
-				if ( std::find_if(
-						 mMovedOutsideWatches.begin(), mMovedOutsideWatches.end(),
-						 [currentMoveFrom]( const std::pair<WatcherInotify*, std::string>& moved ) {
-							 return moved.first == currentMoveFrom;
-						 } ) == mMovedOutsideWatches.end() &&
-					 !currentMoveFrom->OldFileName.empty() ) {
-					mMovedOutsideWatches.push_back(
-						std::make_pair( currentMoveFrom, currentMoveFrom->OldFileName ) );
-				} else {
-					efDEBUG( "Warning: Tried to add watch to the moved outside "
-							 "watches but it was already there, Watch Address: %p\n",
-							 currentMoveFrom );
-				}
+				movedOutside( currentMoveFrom );
+				currentMoveFrom = NULL;
 			}
-
-			currentMoveFrom = NULL;
-			currentMoveCookie = -1;
 		}
 
 		if ( !mMovedOutsideWatches.empty() ) {
@@ -488,11 +447,6 @@ void FileWatcherInotify::run() {
 
 				Watcher* watch = it->first;
 
-				// Clear the stale OldFileName.
-				// Since this move is considered complete (moved outside),
-				// the watcher should not be waiting for a pair anymore.
-				watch->OldFileName = "";
-
 				const std::string& oldFileName = it->second;
 
 				/// Check if the file move was a folder already being watched
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 3b58a21..025366e 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -78,6 +78,10 @@ class FileWatcherInotify : public FileWatcherImpl {
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
+
+	bool isWatching( WatcherInotify* watch );
+
+	void movedOutside( WatcherInotify* watch );
 };
 
 } // namespace efsw
-- 
2.43.0


From be093f37d380e2c3ef1e959ce21d59cfc3fa60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 08/26] fix: don't take the watch descriptor of an user added
 or containing watch

---
 src/efsw/FileWatcherInotify.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index fa7b064..367206c 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -137,8 +137,13 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	{
 		Lock lock( mWatchesLock );
 		auto watchIdExists = mWatches.find( wd );
-		if ( watchIdExists != mWatches.end() )
+		if ( watchIdExists != mWatches.end() ) {
+			// Never take it from an user added watch, or from a directory containing this one
+			if ( NULL == watchIdExists->second->Parent || watchIdExists->second == parent ||
+				 ( NULL != parent && parent->inParentTree( watchIdExists->second ) ) )
+				return Errors::Log::createLastError( Errors::FileRepeated, directory );
 			removeWatchLocked( wd, true );
+		}
 	}
 
 	efDEBUG( "Added watch %s with id: %d\n", dir.c_str(), wd );
-- 
2.43.0


From 04c42323f7cd6415003c669b44d9fd6abf00d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:59 +0000
Subject: [PATCH 09/26] fix: leave nothing behind that refers to a removed
 inotify watch

---
 src/efsw/FileWatcherInotify.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 367206c..afb95fa 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -209,11 +209,11 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
 			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ++itm ) {
-		if ( itm->first == watch ) {
-			mMovedOutsideWatches.erase( itm );
-			break;
-		}
+		  mMovedOutsideWatches.end() != itm; ) {
+		if ( itm->first == watch )
+			itm = mMovedOutsideWatches.erase( itm );
+		else
+			++itm;
 	}
 
 	if ( watch->Recursive && NULL == watch->Parent ) {
@@ -230,10 +230,19 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	mWatchesRef.erase( watch->Directory );
+	/// The directory could be referring to another watch by now
+	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( watch->Directory );
+	if ( ref != mWatchesRef.end() && ref->second == watchid )
+		mWatchesRef.erase( ref );
 	mWatches.erase( iter );
 
+	/// The watches added through this one are kept
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( it->second->Parent == watch )
+			it->second->Parent = watch->Parent;
+
 	if ( NULL == watch->Parent ) {
+		Lock l( mRealWatchesLock );
 		WatchMap::iterator eraseit = mRealWatches.find( watch->InotifyID );
 
 		if ( eraseit != mRealWatches.end() ) {
-- 
2.43.0


From 97777e1c57d2ba11ab967d4050088cd2e4dff152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:38 +0000
Subject: [PATCH 10/26] fix: report a move-out once, whatever is watched below
 it

---
 src/efsw/FileWatcherInotify.cpp | 54 ++++++++++++++-------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index afb95fa..631eb78 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -432,12 +432,16 @@ void FileWatcherInotify::run() {
 			}
 		}
 
-		if ( !mMovedOutsideWatches.empty() ) {
-			// We need to make a copy since the element mMovedOutsideWatches could be modified
-			// during the iteration.
-			std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches(
-				mMovedOutsideWatches );
+		// We need to make a copy since the element mMovedOutsideWatches could be modified
+		// during the iteration.
+		std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches;
 
+		{
+			Lock lock( mWatchesLock );
+			movedOutsideWatches = mMovedOutsideWatches;
+		}
+
+		if ( !movedOutsideWatches.empty() ) {
 			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
 			/// folder
 			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
@@ -445,19 +449,8 @@ void FileWatcherInotify::run() {
 				  it != movedOutsideWatches.end(); ++it ) {
 
 				// Skip if the watch has already being removed
-				if ( mMovedOutsideWatches.size() != movedOutsideWatches.size() ) {
-					bool found = false;
-					for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-							  mMovedOutsideWatches.begin();
-						  mMovedOutsideWatches.end() != itm; ++itm ) {
-						if ( itm->first == it->first ) {
-							found = true;
-							break;
-						}
-					}
-					if ( !found )
-						continue;
-				}
+				if ( !isWatching( it->first ) )
+					continue;
 
 				Watcher* watch = it->first;
 
@@ -473,6 +466,7 @@ void FileWatcherInotify::run() {
 						Watcher* oldWatch = wit.second;
 
 						if ( oldWatch != watch &&
+							 watch->Directory + oldFileName + "/" != oldWatch->Directory &&
 							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
 														  oldWatch->Directory ) ) {
 							eraseWatches.push_back( oldWatch );
@@ -486,23 +480,21 @@ void FileWatcherInotify::run() {
 									  return left->Directory < right->Directory;
 								  } );
 
-				if ( eraseWatches.empty() ) {
-					handleAction( watch, oldFileName, IN_DELETE );
-				} else {
-					for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-						  eit != eraseWatches.rend(); ++eit ) {
-						Watcher* rmWatch = *eit;
-
-						/// Create Delete event for removed watches that have been moved too
-						if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-							handleAction( cntWatch,
-										  FileSystem::fileNameFromPath( rmWatch->Directory ),
-										  IN_DELETE );
-						}
+				for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+					  eit != eraseWatches.rend(); ++eit ) {
+					Watcher* rmWatch = *eit;
+
+					/// Create Delete event for removed watches that have been moved too
+					if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+						handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+									  IN_DELETE );
 					}
 				}
+
+				handleAction( watch, oldFileName, IN_DELETE );
 			}
 
+			Lock lock( mWatchesLock );
 			mMovedOutsideWatches.clear();
 		}
 
-- 
2.43.0


From 437db9c481ca3a563c5c685afa3881993b7beb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 11/26] fix: remove the watches below a deleted directory

---
 src/efsw/FileWatcherInotify.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 631eb78..cca5137 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -604,13 +604,19 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 		/// If the file erased is a directory and recursive is enabled, removes the directory erased
 		if ( watch->Recursive ) {
 			Lock l( mWatchesLock );
+			std::vector<WatchID> eraseWatches;
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
-				if ( it->second->Directory == fpath ) {
-					removeWatchLocked( it->second->InotifyID );
-					break;
+				if ( it->second->Directory == fpath ||
+					 ( NULL != it->second->Parent &&
+					   -1 != String::strStartsWith( fpath, it->second->Directory ) ) ) {
+					eraseWatches.push_back( it->second->InotifyID );
 				}
 			}
+
+			for ( std::vector<WatchID>::iterator it = eraseWatches.begin();
+				  it != eraseWatches.end(); ++it )
+				removeWatchLocked( *it );
 		}
 	}
 	mIsTakingAction = false;
-- 
2.43.0


From 0cf4da50dd115216fac39bd308135b558a09f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 12/26] fix: file a renamed directory only under its new path,
 and watch it

---
 src/efsw/FileWatcherInotify.cpp | 33 +++++++++++++++++++++++++++++++--
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index cca5137..f9c7ac6 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -156,6 +156,7 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	pWatch->Recursive = recursive;
 	pWatch->Parent = parent;
 	pWatch->syntheticEvents = syntheticEvents;
+	pWatch->DirInfo = FileInfo( dir );
 
 	{
 		Lock lock( mWatchesLock );
@@ -512,6 +513,20 @@ void FileWatcherInotify::run() {
 	delete[] buff;
 }
 
+void FileWatcherInotify::removeReplacedWatch( const std::string& dir ) {
+	FileInfo fi( dir );
+	std::vector<WatchID> replaced;
+	Lock lock( mWatchesLock );
+
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
+		if ( NULL != it->second->Parent && it->second->Directory == dir &&
+			 it->second->DirInfo.Inode != fi.Inode )
+			replaced.push_back( it->first );
+
+	for ( std::vector<WatchID>::iterator it = replaced.begin(); it != replaced.end(); ++it )
+		removeWatchLocked( *it );
+}
+
 void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath ) {
 	FileSystem::dirAddSlashAtEnd( fpath );
 
@@ -519,6 +534,8 @@ void FileWatcherInotify::checkForNewWatcher( Watcher* watch, std::string fpath )
 	if ( watch->Recursive && FileSystem::isDirectory( fpath ) ) {
 		bool found = false;
 
+		removeReplacedWatch( fpath );
+
 		{
 			Lock lock( mWatchesLock );
 
@@ -563,8 +580,6 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Modified );
-
-			checkForNewWatcher( watch, fpath );
 		} else {
 			watch->Listener->handleFileAction( watch->ID, watch->Directory, filename,
 											   Actions::Moved, watch->OldFileName );
@@ -576,19 +591,33 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 			FileSystem::dirAddSlashAtEnd( opath );
 			FileSystem::dirAddSlashAtEnd( fpath );
 
+			removeReplacedWatch( fpath );
+
 			Lock lock( mWatchesLock );
 
 			for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+				std::string odir( it->second->Directory );
+
 				if ( it->second->Directory == opath ) {
 					it->second->Directory = fpath;
 					it->second->DirInfo = FileInfo( fpath );
 				} else if ( -1 != String::strStartsWith( opath, it->second->Directory ) ) {
 					it->second->Directory = fpath + it->second->Directory.substr( opath.size() );
 					it->second->DirInfo.Filepath = it->second->Directory;
+				} else {
+					continue;
 				}
+
+				/// The directory is found by its new path from now on
+				std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( odir );
+				if ( ref != mWatchesRef.end() && ref->second == it->first )
+					mWatchesRef.erase( ref );
+				mWatchesRef[it->second->Directory] = it->first;
 			}
 		}
 
+		checkForNewWatcher( watch, fpath );
+
 		watch->OldFileName = "";
 	} else if ( IN_CREATE & action ) {
 		watch->Listener->handleFileAction( watch->ID, watch->Directory, filename, Actions::Add );
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 025366e..80c8b7a 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -75,6 +75,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	void removeReplacedWatch( const std::string& dir );
+
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
 
 	Watcher* watcherContainsDirectory( std::string dir );
-- 
2.43.0


From 4b30a0aef8d93beee7f8d8a3f0fc2958eb1f3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 13/26] fix: report an unpaired move-out before the
 notifications that follow it

---
 src/efsw/FileWatcherInotify.cpp | 138 ++++++++++++--------------------
 src/efsw/FileWatcherInotify.hpp |   1 -
 2 files changed, 51 insertions(+), 88 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index f9c7ac6..0903267 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -208,15 +208,6 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 
 	WatcherInotify* watch = iter->second;
 
-	for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator itm =
-			  mMovedOutsideWatches.begin();
-		  mMovedOutsideWatches.end() != itm; ) {
-		if ( itm->first == watch )
-			itm = mMovedOutsideWatches.erase( itm );
-		else
-			++itm;
-	}
-
 	if ( watch->Recursive && NULL == watch->Parent ) {
 		WatchMap::iterator it = mWatches.begin();
 		std::vector<WatchID> eraseWatches;
@@ -318,13 +309,49 @@ bool FileWatcherInotify::isWatching( WatcherInotify* watch ) {
 }
 
 void FileWatcherInotify::movedOutside( WatcherInotify* watch ) {
-	Lock lock( mWatchesLock );
+	std::string oldFileName( watch->OldFileName );
+	watch->OldFileName = "";
 
 	/// The watch could have been removed since the IN_MOVED_FROM
-	if ( isWatching( watch ) )
-		mMovedOutsideWatches.push_back( std::make_pair( watch, watch->OldFileName ) );
+	if ( !isWatching( watch ) )
+		return;
 
-	watch->OldFileName = "";
+	/// Check if the file move was a folder already being watched
+	std::vector<Watcher*> eraseWatches;
+
+	{
+		Lock lock( mWatchesLock );
+
+		for ( auto wit : mWatches ) {
+			Watcher* oldWatch = wit.second;
+
+			if ( oldWatch != watch &&
+				 watch->Directory + oldFileName + "/" != oldWatch->Directory &&
+				 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
+											  oldWatch->Directory ) ) {
+				eraseWatches.push_back( oldWatch );
+			}
+		}
+	}
+
+	/// Remove invalid watches
+	std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
+					  []( const Watcher* left, const Watcher* right ) {
+						  return left->Directory < right->Directory;
+					  } );
+
+	for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
+		  eit != eraseWatches.rend(); ++eit ) {
+		Watcher* rmWatch = *eit;
+
+		/// Create Delete event for removed watches that have been moved too
+		if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
+			handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
+						  IN_DELETE );
+		}
+	}
+
+	handleAction( watch, oldFileName, IN_DELETE );
 }
 
 void FileWatcherInotify::run() {
@@ -357,6 +384,13 @@ void FileWatcherInotify::run() {
 					{
 						curWatcher = NULL;
 
+						/// A move is only completed by the IN_MOVED_TO that directly follows it
+						if ( currentMoveFrom && !( ( pevent->mask & IN_MOVED_TO ) &&
+												   pevent->cookie == currentMoveCookie ) ) {
+							movedOutside( currentMoveFrom );
+							currentMoveFrom = NULL;
+						}
+
 						/// The kernel queue overflowed, every user added watch missed events
 						if ( pevent->mask & IN_Q_OVERFLOW ) {
 							std::vector<WatcherInotify*> realWatches;
@@ -383,14 +417,6 @@ void FileWatcherInotify::run() {
 								curWatcher = wit->second;
 						}
 
-						/// A move is only completed by the IN_MOVED_TO that directly follows it
-						if ( currentMoveFrom &&
-							 !( curWatcher && ( pevent->mask & IN_MOVED_TO ) &&
-								pevent->cookie == currentMoveCookie ) ) {
-							movedOutside( currentMoveFrom );
-							currentMoveFrom = NULL;
-						}
-
 						if ( curWatcher ) {
 							handleAction( curWatcher, (char*)pevent->name, pevent->mask );
 
@@ -419,6 +445,10 @@ void FileWatcherInotify::run() {
 								currentMoveFrom = curWatcher;
 								currentMoveCookie = pevent->cookie;
 							}
+						} else if ( currentMoveFrom ) {
+							/// The destination of the move is not being watched
+							movedOutside( currentMoveFrom );
+							currentMoveFrom = NULL;
 						}
 					}
 
@@ -433,72 +463,6 @@ void FileWatcherInotify::run() {
 			}
 		}
 
-		// We need to make a copy since the element mMovedOutsideWatches could be modified
-		// during the iteration.
-		std::vector<std::pair<WatcherInotify*, std::string>> movedOutsideWatches;
-
-		{
-			Lock lock( mWatchesLock );
-			movedOutsideWatches = mMovedOutsideWatches;
-		}
-
-		if ( !movedOutsideWatches.empty() ) {
-			/// In case that the IN_MOVED_TO is never fired means that the file was moved to other
-			/// folder
-			for ( std::vector<std::pair<WatcherInotify*, std::string>>::iterator it =
-					  movedOutsideWatches.begin();
-				  it != movedOutsideWatches.end(); ++it ) {
-
-				// Skip if the watch has already being removed
-				if ( !isWatching( it->first ) )
-					continue;
-
-				Watcher* watch = it->first;
-
-				const std::string& oldFileName = it->second;
-
-				/// Check if the file move was a folder already being watched
-				std::vector<Watcher*> eraseWatches;
-
-				{
-					Lock lock( mWatchesLock );
-
-					for ( auto wit : mWatches ) {
-						Watcher* oldWatch = wit.second;
-
-						if ( oldWatch != watch &&
-							 watch->Directory + oldFileName + "/" != oldWatch->Directory &&
-							 -1 != String::strStartsWith( watch->Directory + oldFileName + "/",
-														  oldWatch->Directory ) ) {
-							eraseWatches.push_back( oldWatch );
-						}
-					}
-				}
-
-				/// Remove invalid watches
-				std::stable_sort( eraseWatches.begin(), eraseWatches.end(),
-								  []( const Watcher* left, const Watcher* right ) {
-									  return left->Directory < right->Directory;
-								  } );
-
-				for ( std::vector<Watcher*>::reverse_iterator eit = eraseWatches.rbegin();
-					  eit != eraseWatches.rend(); ++eit ) {
-					Watcher* rmWatch = *eit;
-
-					/// Create Delete event for removed watches that have been moved too
-					if ( Watcher* cntWatch = watcherContainsDirectory( rmWatch->Directory ) ) {
-						handleAction( cntWatch, FileSystem::fileNameFromPath( rmWatch->Directory ),
-									  IN_DELETE );
-					}
-				}
-
-				handleAction( watch, oldFileName, IN_DELETE );
-			}
-
-			Lock lock( mWatchesLock );
-			mMovedOutsideWatches.clear();
-		}
-
 		{
 			Lock lock( mWatchesLock );
 			if ( !mDeletedWatches.empty() ) {
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 80c8b7a..646437b 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -61,7 +61,6 @@ class FileWatcherInotify : public FileWatcherImpl {
 	Mutex mRealWatchesLock;
 	Mutex mInitLock;
 	bool mIsTakingAction;
-	std::vector<std::pair<WatcherInotify*, std::string>> mMovedOutsideWatches;
 	std::vector<WatcherInotify*> mDeletedWatches;
 
 	WatchID addWatch( const std::string& directory, FileWatchListener* watcher, bool recursive,
-- 
2.43.0


From 63e57fd84c6c3065b0c6f39952e6d56fb8a8c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 14/26] fix: don't encode low surrogates as UTF-8

---
 src/efsw/Utf.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/Utf.inl b/src/efsw/Utf.inl
index ef71bc8..ac29339 100644
--- a/src/efsw/Utf.inl
+++ b/src/efsw/Utf.inl
@@ -58,7 +58,7 @@ template <typename Out> Out Utf<8>::Encode( Uint32 input, Out output, Uint8 repl
 	static const Uint8 firstBytes[7] = { 0x00, 0x00, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
 
 	// Encode the character
-	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDBFF ) ) ) {
+	if ( ( input > 0x0010FFFF ) || ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) ) {
 		// Invalid character
 		if ( replacement )
 			*output++ = replacement;
-- 
2.43.0


From aedb6cefaa329980b631814534ab49e48b51a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 15/26] fix: encode U+FFFF as one UTF-16 element

---
 src/efsw/Utf.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/Utf.inl b/src/efsw/Utf.inl
index ac29339..e856f6d 100644
--- a/src/efsw/Utf.inl
+++ b/src/efsw/Utf.inl
@@ -245,7 +245,7 @@ template <typename In> In Utf<16>::Decode( In begin, In end, Uint32& output, Uin
 }
 
 template <typename Out> Out Utf<16>::Encode( Uint32 input, Out output, Uint16 replacement ) {
-	if ( input < 0xFFFF ) {
+	if ( input <= 0xFFFF ) {
 		// The character can be copied directly, we just need to check if it's in the valid range
 		if ( ( input >= 0xD800 ) && ( input <= 0xDFFF ) ) {
 			// Invalid character (this range is reserved)
-- 
2.43.0


From 18b6e28d21e8463242968b1f1ea9d4f483ac1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 16/26] fix: count UTF-32 elements forwards

---
 src/efsw/Utf.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/efsw/Utf.inl b/src/efsw/Utf.inl
index e856f6d..487013a 100644
--- a/src/efsw/Utf.inl
+++ b/src/efsw/Utf.inl
@@ -390,7 +390,7 @@ template <typename In> In Utf<32>::Next( In begin, In end ) {
 }
 
 template <typename In> std::size_t Utf<32>::Count( In begin, In end ) {
-	return begin - end;
+	return end - begin;
 }
 
 template <typename In, typename Out>
-- 
2.43.0


From e3a052b16a17eb1e6a307b8aae7c57dc1b6caea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 17/26] fix: report every new directory, and track it only
 below a recursive watch

---
 src/efsw/DirWatcherGeneric.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fee82ea..2cfba3b 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -277,6 +277,12 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	handleAction( newdir, Actions::Add );
+
+	if ( !Recursive ) {
+		return NULL;
+	}
+
 	FileInfo fi( dir );
 
 	if ( !fi.isDirectory() || !fi.isReadable() || FileSystem::isRemoteFS( dir ) ) {
@@ -308,8 +314,6 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 	}
 
 	if ( !skip ) {
-		handleAction( newdir, Actions::Add );
-
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
 
-- 
2.43.0


From 87e9904885626e2ba1f12baf05ee71418cb48f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 18/26] fix: know a symlinked directory by the name of its
 entry

---
 src/efsw/DirWatcherGeneric.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 2cfba3b..80f6239 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -127,13 +127,14 @@ void DirWatcherGeneric::addChildren( bool reportNewFiles ) {
 				}
 
 				if ( reportNewFiles ) {
-					handleAction( dir, Actions::Add );
+					handleAction( it->first, Actions::Add );
 				}
 
-				Directories[dir] =
+				/// The directory is known by the name of its entry, a symlink too
+				Directories[it->first] =
 					new DirWatcherGeneric( this, Watch, dir, Recursive, reportNewFiles );
 
-				Directories[dir]->addChildren( reportNewFiles );
+				Directories[it->first]->addChildren( reportNewFiles );
 			}
 		}
 	}
-- 
2.43.0


From 89df86f2942c244b6dcda50100f2c99756200fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 19/26] fix: don't recurse endlessly into a new directory with
 a link to itself

---
 src/efsw/DirWatcherGeneric.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index 80f6239..fd83094 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -318,12 +318,12 @@ DirWatcherGeneric* DirWatcherGeneric::createDirectory( std::string newdir ) {
 		/// Creates the new directory watcher of the subfolder and check for new files
 		dw = new DirWatcherGeneric( this, Watch, dir, Recursive );
 
+		/// Add it to the list of directories before looking inside, a link back to it is watched
+		Directories[newdir] = dw;
+
 		dw->addChildren();
 
 		dw->watch();
-
-		/// Add it to the list of directories
-		Directories[newdir] = dw;
 	}
 
 	return dw;
-- 
2.43.0


From af8da6c14edaa3d4672b96ae62fb3b60460a051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 20/26] fix: a directory moved during polling keeps its known
 state, a linked one its path

---
 src/efsw/DirWatcherGeneric.cpp | 22 ++++++++++++++++++++--
 src/efsw/DirWatcherGeneric.hpp |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/efsw/DirWatcherGeneric.cpp b/src/efsw/DirWatcherGeneric.cpp
index fd83094..090f8a0 100644
--- a/src/efsw/DirWatcherGeneric.cpp
+++ b/src/efsw/DirWatcherGeneric.cpp
@@ -78,9 +78,22 @@ void DirWatcherGeneric::resetDirectory( std::string directory ) {
 	}
 
 	DirSnap.setDirectoryInfo( dir );
+}
+
+void DirWatcherGeneric::changePath( const std::string& oldPath, const std::string& newPath ) {
+	/// A directory reached through a symlink stays where it is
+	if ( DirSnap.DirectoryInfo.Filepath != oldPath ) {
+		return;
+	}
+
+	/// Only the path changed: what is known about the directory is still to be compared
+	DirSnap.DirectoryInfo.Filepath = newPath;
 
 	for ( auto& child : Directories ) {
-		child.second->resetDirectory( child.first );
+		std::string name( child.first );
+		FileSystem::dirAddSlashAtEnd( name );
+
+		child.second->changePath( oldPath + name, newPath + name );
 	}
 }
 
@@ -376,7 +389,12 @@ void DirWatcherGeneric::moveDirectory( std::string oldDir, std::string newDir )
 
 		Directories[newDir] = dw;
 
-		dw->resetDirectory( newDir );
+		std::string parentPath( DirSnap.DirectoryInfo.Filepath );
+		FileSystem::dirAddSlashAtEnd( parentPath );
+		FileSystem::dirAddSlashAtEnd( oldDir );
+		FileSystem::dirAddSlashAtEnd( newDir );
+
+		dw->changePath( parentPath + oldDir, parentPath + newDir );
 	}
 }
 
diff --git a/src/efsw/DirWatcherGeneric.hpp b/src/efsw/DirWatcherGeneric.hpp
index c1f7135..e0326a6 100644
--- a/src/efsw/DirWatcherGeneric.hpp
+++ b/src/efsw/DirWatcherGeneric.hpp
@@ -48,6 +48,8 @@ class DirWatcherGeneric {
 
 	void resetDirectory( std::string directory );
 
+	void changePath( const std::string& oldPath, const std::string& newPath );
+
 	void handleAction( const std::string& filename, unsigned long action,
 					   const std::string& oldFilename = "" );
 };
-- 
2.43.0


From b853b815c10a827c6d64c75b51ce2df8e9996fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 21/26] fix: search and edit the polling watcher's list of
 watches under its lock

---
 src/efsw/FileWatcherGeneric.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/efsw/FileWatcherGeneric.cpp b/src/efsw/FileWatcherGeneric.cpp
index 165fafa..c4ce70c 100644
--- a/src/efsw/FileWatcherGeneric.cpp
+++ b/src/efsw/FileWatcherGeneric.cpp
@@ -38,6 +38,8 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	FileInfo fi( dir );
 
+	Lock lock( mWatchesLock );
+
 	if ( !fi.isDirectory() ) {
 		return Errors::Log::createLastError( Errors::FileNotFound, dir );
 	} else if ( !fi.isReadable() ) {
@@ -63,7 +65,6 @@ WatchID FileWatcherGeneric::addWatch( const std::string& directory, FileWatchLis
 
 	WatcherGeneric* pWatch = new WatcherGeneric( mLastWatchID, dir, watcher, this, recursive );
 
-	Lock lock( mWatchesLock );
 	mWatches.push_back( pWatch );
 
 	return pWatch->ID;
@@ -73,14 +74,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 	std::string dir( directory );
 	FileSystem::dirAddSlashAtEnd( dir );
 
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->Directory == dir ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -91,14 +92,14 @@ void FileWatcherGeneric::removeWatch( const std::string& directory ) {
 }
 
 void FileWatcherGeneric::removeWatch( WatchID watchid ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
 		if ( ( *it )->ID == watchid ) {
 			WatcherGeneric* watch = ( *it );
 
-			Lock lock( mWatchesLock );
-
 			mWatches.erase( it );
 
 			efSAFE_DELETE( watch );
@@ -154,6 +155,8 @@ std::vector<std::string> FileWatcherGeneric::directories() {
 }
 
 bool FileWatcherGeneric::pathInWatches( const std::string& path ) {
+	Lock lock( mWatchesLock );
+
 	WatchList::iterator it = mWatches.begin();
 
 	for ( ; it != mWatches.end(); ++it ) {
-- 
2.43.0


From 8818253864155f8987189a3032238c99bf6f1a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 22/26] fix: give each C API watch its own missed-event
 callback

---
 src/efsw/FileWatcherCWrapper.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 4a82dfc..57e0b0f 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -40,10 +40,12 @@ class Watcher_CAPI : public efsw::FileWatchListener {
 static std::vector<Watcher_CAPI*> g_callbacks;
 static efsw::Mutex g_callbacksMutex;
 
-Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param ) {
+Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback fn, void* param,
+							 efsw_pfn_handle_missed_fileactions fnfa ) {
 	efsw::Lock l( g_callbacksMutex );
 	for ( Watcher_CAPI* callback : g_callbacks ) {
-		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param )
+		if ( callback->mFn == fn && callback->mWatcher == watcher && callback->mParam == param &&
+			 callback->mFnMissedFa == fnfa )
 			return callback;
 	}
 	return NULL;
@@ -91,7 +93,8 @@ efsw_addwatch_withoptions( efsw_watcher watcher, const char* directory,
 						   efsw_pfn_fileaction_callback callback_fn, int recursive,
 						   efsw_watcher_option* options, int options_number, void* param,
 						   efsw_pfn_handle_missed_fileactions callback_fn_missed_file_actions ) {
-	Watcher_CAPI* callback = find_callback( watcher, callback_fn, param );
+	Watcher_CAPI* callback =
+		find_callback( watcher, callback_fn, param, callback_fn_missed_file_actions );
 
 	if ( callback == NULL ) {
 		callback = new Watcher_CAPI( watcher, callback_fn, param, callback_fn_missed_file_actions );
-- 
2.43.0


From f9e1b24c248f4ba4c17f291fb09dd2d06320a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 23/26] fix: release the C API callbacks of a watcher once it's
 stopped, all of them

---
 src/efsw/FileWatcherCWrapper.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/efsw/FileWatcherCWrapper.cpp b/src/efsw/FileWatcherCWrapper.cpp
index 57e0b0f..133efaa 100644
--- a/src/efsw/FileWatcherCWrapper.cpp
+++ b/src/efsw/FileWatcherCWrapper.cpp
@@ -1,4 +1,3 @@
-#include <algorithm>
 #include <efsw/Lock.hpp>
 #include <efsw/Mutex.hpp>
 #include <efsw/efsw.h>
@@ -51,15 +50,18 @@ Watcher_CAPI* find_callback( efsw_watcher watcher, efsw_pfn_fileaction_callback
 	return NULL;
 }
 
-void remove_callback( efsw_watcher watcher ) {
+std::vector<Watcher_CAPI*> take_callbacks( efsw_watcher watcher ) {
 	efsw::Lock l( g_callbacksMutex );
-	auto found = std::find_if( g_callbacks.begin(), g_callbacks.end(),
-							   [watcher]( Watcher_CAPI* cb ) { return cb->mWatcher == watcher; } );
-	if ( found != g_callbacks.end() ) {
-		Watcher_CAPI* callback = *found;
-		delete callback;
-		g_callbacks.erase( found );
+	std::vector<Watcher_CAPI*> taken;
+	for ( size_t i = 0; i < g_callbacks.size(); ) {
+		if ( g_callbacks[i]->mWatcher == watcher ) {
+			taken.push_back( g_callbacks[i] );
+			g_callbacks.erase( g_callbacks.begin() + i );
+		} else {
+			i++;
+		}
 	}
+	return taken;
 }
 
 /*************************************************************************************************/
@@ -68,8 +70,12 @@ efsw_watcher efsw_create( int generic_mode ) {
 }
 
 void efsw_release( efsw_watcher watcher ) {
-	remove_callback( watcher );
+	std::vector<Watcher_CAPI*> callbacks = take_callbacks( watcher );
+	/// The watcher uses its callbacks until it's stopped
 	delete (efsw::FileWatcher*)watcher;
+	for ( Watcher_CAPI* callback : callbacks ) {
+		delete callback;
+	}
 }
 
 const char* efsw_getlasterror() {
-- 
2.43.0


From 387fbf4bde0c208bf3821a857f462168a5d3bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 24/26] fix: don't pair a vanished directory with a new file
 that got its inode number

---
 src/efsw/DirectorySnapshot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/efsw/DirectorySnapshot.cpp b/src/efsw/DirectorySnapshot.cpp
index 72e7322..b62d0e5 100644
--- a/src/efsw/DirectorySnapshot.cpp
+++ b/src/efsw/DirectorySnapshot.cpp
@@ -176,8 +176,10 @@ FileInfoMap::iterator DirectorySnapshot::nodeInFiles( FileInfo& fi, const FileIn
 
 	if ( FileInfo::inodeSupported() ) {
 		for ( it = Files.begin(); it != Files.end(); it++ ) {
-			/// A name that is still present in the directory ( hard link ) wasn't moved
+			/// A name that is still present in the directory ( hard link ) wasn't moved, and a
+			/// file isn't a moved directory, its inode number is being reused
 			if ( it->second.sameInode( fi ) && it->second.Filepath != fi.Filepath &&
+				 it->second.isDirectory() == fi.isDirectory() &&
 				 files.find( it->first ) == files.end() ) {
 				return it;
 			}
-- 
2.43.0


From e61a1b187cd2b399c30162ba13dfeb9b54393b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 25/26] fix: wait for the inotify thread before taking the
 locks it may be waiting for

---
 src/efsw/FileWatcherInotify.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 0903267..47bbb21 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -42,10 +42,10 @@ FileWatcherInotify::~FileWatcherInotify() {
 		// implementation so we just skip and sleep while for that to avoid deadlock.
 		usleep( 1000 );
 	};
-	Lock initLock( mInitLock );
-
+	/// The thread may be waiting for any of the locks
 	efSAFE_DELETE( mThread );
 
+	Lock initLock( mInitLock );
 	Lock l( mWatchesLock );
 	Lock l2( mRealWatchesLock );
 
-- 
2.43.0


From fbb4d563243ceec84fd9427f8c000545d94e84ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:02 +0000
Subject: [PATCH 26/26] fix: a replaced user watch can still be removed by its
 path

When a directory was moved over a watched one, both watches had the same
path; removing or moving the new one dropped the path from mWatchesRef, and
removeWatch( path ) could not find the user watch any more.
---
 src/efsw/FileWatcherInotify.cpp | 26 +++++++++++++++++++-------
 src/efsw/FileWatcherInotify.hpp |  2 ++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/efsw/FileWatcherInotify.cpp b/src/efsw/FileWatcherInotify.cpp
index 47bbb21..2a40051 100644
--- a/src/efsw/FileWatcherInotify.cpp
+++ b/src/efsw/FileWatcherInotify.cpp
@@ -201,6 +201,23 @@ WatchID FileWatcherInotify::addWatch( const std::string& directory, FileWatchLis
 	return wd;
 }
 
+void FileWatcherInotify::forgetDirectory( WatchID watchid, const std::string& dir ) {
+	/// The directory could be referring to another watch by now
+	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( dir );
+	if ( ref == mWatchesRef.end() || ref->second != watchid )
+		return;
+
+	mWatchesRef.erase( ref );
+
+	/// The watch of a replaced directory is still found by the path it was added with
+	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it ) {
+		if ( it->first != watchid && it->second->Directory == dir ) {
+			mWatchesRef[dir] = it->first;
+			break;
+		}
+	}
+}
+
 void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRemove ) {
 	WatchMap::iterator iter = mWatches.find( watchid );
 	if ( iter == mWatches.end() )
@@ -222,11 +239,8 @@ void FileWatcherInotify::removeWatchLocked( WatchID watchid, bool skipInotifyRem
 		}
 	}
 
-	/// The directory could be referring to another watch by now
-	std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( watch->Directory );
-	if ( ref != mWatchesRef.end() && ref->second == watchid )
-		mWatchesRef.erase( ref );
 	mWatches.erase( iter );
+	forgetDirectory( watchid, watch->Directory );
 
 	/// The watches added through this one are kept
 	for ( WatchMap::iterator it = mWatches.begin(); it != mWatches.end(); ++it )
@@ -573,9 +587,7 @@ void FileWatcherInotify::handleAction( Watcher* watch, const std::string& filena
 				}
 
 				/// The directory is found by its new path from now on
-				std::unordered_map<std::string, WatchID>::iterator ref = mWatchesRef.find( odir );
-				if ( ref != mWatchesRef.end() && ref->second == it->first )
-					mWatchesRef.erase( ref );
+				forgetDirectory( it->first, odir );
 				mWatchesRef[it->second->Directory] = it->first;
 			}
 		}
diff --git a/src/efsw/FileWatcherInotify.hpp b/src/efsw/FileWatcherInotify.hpp
index 646437b..b32d0f4 100644
--- a/src/efsw/FileWatcherInotify.hpp
+++ b/src/efsw/FileWatcherInotify.hpp
@@ -74,6 +74,8 @@ class FileWatcherInotify : public FileWatcherImpl {
 
 	void removeWatchLocked( WatchID watchid, bool skipInotifyRemove = false );
 
+	void forgetDirectory( WatchID watchid, const std::string& dir );
+
 	void removeReplacedWatch( const std::string& dir );
 
 	void checkForNewWatcher( Watcher* watch, std::string fpath );
-- 
2.43.0

