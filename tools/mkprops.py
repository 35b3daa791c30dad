import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,title
    P.append(d)

p("C01","A poll's comparison of two directory listings is exact",
 "For any remembered state of a directory and any listing a poll observes, the polling watcher classifies every entry exactly once: a new regular file or directory as created or as the target of a move, a surviving entry whose size, modification time, owner, group, permissions or inode differ as modified and, when the directory's own metadata changed or the directory vanished, a missing entry as deleted or as the source of exactly one move; nothing else is reported. A move is only ever reported from a name that disappeared to a new name with the same inode and kind. Afterwards the remembered state is the observed one, so polling an unchanged directory again reports nothing.",
 ["inputs","histories"],"every remembered snapshot, every observed listing and every file metadata value, any number of entries",
 "The unit tests poll a handful of directories holding one or two files; the claim ranges over all pairs of listings (hard links, replaced types, many simultaneous renames, vanished directories).",
 ["src/efsw/DirectorySnapshot.cpp","src/efsw/DirectorySnapshotDiff.cpp","src/efsw/FileInfo.cpp"],
 [("DirectorySnapshot::scan","src/efsw/DirectorySnapshot.cpp"),("DirectorySnapshot::nodeInFiles","src/efsw/DirectorySnapshot.cpp"),("DirectorySnapshot::deleteAll","src/efsw/DirectorySnapshot.cpp"),("FileInfo::operator==","src/efsw/FileInfo.cpp")],
 [("Files","name to metadata map of the last observed listing","DirectorySnapshot")],["the diff returned by a scan","the snapshot left behind"])

p("C02","Every difference a poll finds reaches the listener exactly once",
 "For every poll of a directory, each created, modified, deleted or moved entry found produces exactly one callback on that watch's listener, carrying the watch's id, the directory's path, the bare entry name, the matching action and, for a move, the old name. Subdirectories that appear are reported and, only when the watch is recursive, tracked from then on; subdirectories that vanish or are renamed are untracked or re-keyed under their new name, and every tracked subdirectory is polled in every poll.",
 ["inputs","histories"],"every diff, every tracked tree shape, recursive or not",
 "Tests wait for one expected callback among others with timeouts; they never check that nothing else is delivered nor that ids, directories and old names agree for arbitrary diffs.",
 ["src/efsw/DirWatcherGeneric.cpp","src/efsw/WatcherGeneric.cpp"],
 [("DirWatcherGeneric::watch","src/efsw/DirWatcherGeneric.cpp"),("DirWatcherGeneric::handleAction","src/efsw/DirWatcherGeneric.cpp"),("DirWatcherGeneric::createDirectory/removeDirectory/moveDirectory","src/efsw/DirWatcherGeneric.cpp")],
 [("Directories","tracked subdirectories by name","DirWatcherGeneric")],["FileWatchListener callbacks"])

p("C03","Each kernel notification becomes exactly the documented callbacks",
 "With the inotify watcher, for every notification the kernel delivers on a watched directory the listener receives exactly the documented callbacks and no others: close-after-write or modify gives Modified; create gives Add; an unpaired move-in gives Add then Modified; a paired rename gives one Moved carrying the old name; delete gives Delete. Every callback carries the id of the user's watch, the path of the directory containing the entry and the bare entry name.",
 ["inputs","histories"],"every notification mask and name on every watch in every registry state",
 "Tests exercise one event kind at a time with one file and only look for the presence of an expected callback.",
 ["src/efsw/FileWatcherInotify.cpp"],
 [("FileWatcherInotify::handleAction","src/efsw/FileWatcherInotify.cpp"),("FileWatcherInotify::checkForNewWatcher","src/efsw/FileWatcherInotify.cpp")],None,["FileWatchListener callbacks"])

p("C04","Rename halves are paired by cookie; unpaired halves are not lost",
 "For every sequence of notifications, in every split into batches, a Moved callback is delivered only when a move-out is directly followed by the move-in with the same cookie on the same watch. When the two halves hit different watches the source gets exactly one Delete and the destination an Add; a move-out that is never paired yields exactly one Delete of that name on its watch, or of the watched subdirectories that left with it.",
 ["histories","inputs"],"all sequences of kernel notifications, cookies, names and watches, and all batch boundaries",
 "Tests perform a single rename or move at a time; interleavings of several renames, unmatched halves, and batch boundaries never occur in them.",
 ["src/efsw/FileWatcherInotify.cpp"],
 [("FileWatcherInotify::run","src/efsw/FileWatcherInotify.cpp"),("FileWatcherInotify::handleAction","src/efsw/FileWatcherInotify.cpp")],
 [("pending move","watch, name and cookie of the last unmatched move-out","FileWatcherInotify::run"),("mMovedOutsideWatches","move-outs to be reported as Delete","FileWatcherInotify")],["FileWatchListener callbacks"])

p("C05","The inotify watch registry stays consistent and never dangles",
 "After any sequence of adding and removing watches and of directory creations, deletions and renames, every registered watch is alive and filed under its own id and current path, the user-added watches are exactly the registered watches without a parent, and every other watch's parent is itself registered and belongs to the same user watch. A removed watch is released exactly once, and no registered or pending entry refers to a released one. The kernel is watching no descriptor that the registry has forgotten.",
 ["histories"],"all histories of public calls and kernel notifications",
 "Tests use one or two watches and never remove, replace or rename nested watched directories in combination.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/WatcherInotify.cpp"],
 [("FileWatcherInotify::addWatch","src/efsw/FileWatcherInotify.cpp"),("FileWatcherInotify::removeWatchLocked","src/efsw/FileWatcherInotify.cpp"),("WatcherInotify::inParentTree","src/efsw/WatcherInotify.cpp")],
 [("mWatches, mRealWatches, mWatchesRef, mDeletedWatches","the registry","FileWatcherInotify")],["directories()","callbacks","memory errors"])

p("C06","Removing a watch removes exactly that watch",
 "With either backend, removing a watch by id or by path unregisters exactly that watch together with the subdirectories it alone was tracking, and the list of watched directories afterwards is the previous one without it. All other watches keep their id, path and listener, and removing an unknown id or path changes nothing. No callback for the removed watch is produced from notifications handled after the removal.",
 ["inputs","histories"],"all registries, ids and paths",
 "The only removal test removes the single existing watch; removal next to other watches, nested watches or unknown keys is never tried.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/FileWatcherGeneric.cpp","src/efsw/FileWatcher.cpp"],
 [("FileWatcherInotify::removeWatch","src/efsw/FileWatcherInotify.cpp"),("FileWatcherGeneric::removeWatch","src/efsw/FileWatcherGeneric.cpp"),("FileWatcherInotify::directories","src/efsw/FileWatcherInotify.cpp")],None,["directories()","callbacks"])

p("C07","Adding a watch gives the right id or the right error, and nothing else",
 "With either backend, adding a watch on a path that is not a directory, not readable, already watched, on a remote file system (native backend) or an out-of-scope symbolic link returns the corresponding negative error code and leaves the registered watches unchanged. Otherwise it returns a positive id, not in use by another watch, registered with the given listener, recursion flag and resolved path ending in a separator; a recursive inotify watch also covers every readable subdirectory found. Options are looked up by key with the documented default.",
 ["inputs","configurations"],"all paths, file metadata, option lists, registry states and symlink settings",
 "Tests only add watches on existing readable directories and check that the id is positive.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/FileWatcherGeneric.cpp","src/efsw/FileWatcher.cpp","src/efsw/FileWatcherImpl.cpp"],
 [("FileWatcher::addWatch","src/efsw/FileWatcher.cpp"),("FileWatcherInotify::addWatch","src/efsw/FileWatcherInotify.cpp"),("FileWatcherGeneric::addWatch","src/efsw/FileWatcherGeneric.cpp"),("FileWatcherImpl::getOptionValue","src/efsw/FileWatcherImpl.cpp")],None,["addWatch() result","directories()"])

p("C08","Symbolic links are followed only as far as the settings allow",
 "A recursive watch never starts watching the target of a symbolic link found below it unless following links is enabled, and never a target outside the directory holding the link unless out-of-scope links are allowed as well; both settings are off by default and independent of each other. A path that is itself a link may be watched only under the same scope rule, and a link whose target is already watched by the user is never watched again.",
 ["inputs","configurations"],"all link locations, targets and all four combinations of the settings",
 "Two symlink tests exist; they cover one followed link and one out-of-scope link on one directory layout.",
 ["src/efsw/FileWatcherImpl.cpp","src/efsw/FileWatcherInotify.cpp","src/efsw/DirWatcherGeneric.cpp","src/efsw/FileWatcherGeneric.cpp","src/efsw/FileWatcher.cpp"],
 [("FileWatcherImpl::linkAllowed","src/efsw/FileWatcherImpl.cpp"),("DirWatcherGeneric::createDirectory/addChildren","src/efsw/DirWatcherGeneric.cpp"),("FileWatcherInotify::addWatch","src/efsw/FileWatcherInotify.cpp"),("FileSystem::getLinkRealPath","src/efsw/FileSystem.cpp")],None,["which directories get watched"])

p("C09","The C API is a faithful wrapper of the C++ API",
 "Every C call behaves as the corresponding C++ call: directory, recursion flag and every option are passed on unchanged, results come back unchanged, and each event is delivered to the C callback registered for that watch with the same watcher, id, directory, name, action, old name and user parameter. Missed-event notices go to the missed-event callback given for that watch. Releasing a watcher stops it before any of its callback records is destroyed and destroys all of them, and none of another watcher's.",
 ["inputs","histories"],"all argument values, option arrays and sequences of add/release over several watchers",
 "No unit test uses the C API at all.",
 ["src/efsw/FileWatcherCWrapper.cpp","include/efsw/efsw.h"],
 [("efsw_addwatch_withoptions","src/efsw/FileWatcherCWrapper.cpp"),("efsw_release, find_callback, remove_callback","src/efsw/FileWatcherCWrapper.cpp"),("Watcher_CAPI","src/efsw/FileWatcherCWrapper.cpp")],None,["C callbacks","return values"])

p("C10","The error log reports the last error",
 "Recording an error returns that same error and makes it, until the next one or a reset, both the last error code and, with a message containing the given details, the last error text. Resetting yields no error and an empty text.",
 ["inputs","histories"],"all error codes and detail strings, any history of errors and resets",
 "No unit test reads the error log.",
 ["src/efsw/Log.cpp"],[("Errors::Log","src/efsw/Log.cpp")],None,["getLastErrorCode()","getLastErrorLog()"])

p("C11","UTF conversions are exact, bounded and reversible",
 "For every Unicode scalar value, encoding it as UTF-8 or UTF-16 yields the standard byte or unit sequence and decoding that sequence yields the value back; values that are not scalar values encode to the replacement only. For every input sequence, valid or not, each decode step consumes at least one element and never reads past the end, and whole-string conversions and counts are the concatenation and number of the steps. Converting valid text between UTF-8, UTF-16 and UTF-32 in any direction is therefore lossless.",
 ["inputs"],"all 2^32 code values and all byte/unit sequences of any length",
 "No unit test covers text conversion.",
 ["src/efsw/Utf.inl","src/efsw/Utf.hpp","src/efsw/String.cpp"],
 [("Utf<8>/Utf<16>/Utf<32> Decode, Encode","src/efsw/Utf.inl"),("conversion loops","src/efsw/Utf.inl")],None,["conversion results"])

p("C12","Path helpers normalise and split paths consistently",
 "For every path string, adding a trailing separator makes a non-empty path end in exactly one more separator only if it had none, removing strips at most one, both are idempotent and leave the rest untouched. The file name of a path contains no separator and the parent part followed by the file name is the path without its trailing separator. Prefix tests answer exactly whether the first string is a non-empty prefix of the second, and splitting on a separator returns in order exactly the non-empty pieces (or all terminated pieces when asked to).",
 ["inputs"],"all strings",
 "Never unit-tested directly; event tests only use a few absolute paths.",
 ["src/efsw/FileSystem.cpp","src/efsw/String.cpp"],
 [("FileSystem::dirAddSlashAtEnd/dirRemoveSlashAtEnd/slashAtEnd/fileNameFromPath/pathRemoveFileName","src/efsw/FileSystem.cpp"),("String::strStartsWith/split","src/efsw/String.cpp")],None,["return values"])

p("C13","File metadata snapshots are complete and deterministic",
 "A metadata record taken for a path holds exactly the values the operating system reported for it (of the link itself when asked), or all zeros when the path cannot be examined, never stale or indeterminate values, and keeps the path as given (a doubled trailing separator may be reduced to one). Two records compare equal exactly when all of modification time, size, owner, group, permissions and inode agree; copying preserves everything. Listing a directory yields exactly its entries except the two dot entries, each with the metadata of its own path, and a path that cannot be examined is never classified as remote.",
 ["inputs","fault_sequences"],"all paths, all metadata values, all failures of the underlying system calls",
 "Tests never make a metadata call fail and never compare records that differ in one field only.",
 ["src/efsw/FileInfo.cpp","src/efsw/FileSystem.cpp","src/efsw/platform/posix/FileSystemImpl.cpp"],
 [("FileInfo::getInfo/getRealInfo/operator==/operator=","src/efsw/FileInfo.cpp"),("Platform::FileSystem::filesInfoFromPath/isRemoteFS","src/efsw/platform/posix/FileSystemImpl.cpp")],None,["FileInfo values"])

p("C14","Shared watch lists are only touched under their lock",
 "Whatever the interleaving of user calls on a watcher with its background thread, every read or write of the lists of registered watches happens while the lock protecting that list is held, for both backends. Locks are taken in one global order, every path releases what it acquired, and the steps of adding or removing an inotify watch and of handling one notification run under the initialisation lock, so they never interleave.",
 ["schedules"],"all interleavings of API calls from several threads with the watcher thread",
 "Data races need particular interleavings; the tests call the API from one thread with sleeps in between.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/FileWatcherGeneric.cpp","src/efsw/FileWatcherCWrapper.cpp"],
 [("mWatchesLock, mRealWatchesLock, mInitLock","src/efsw/FileWatcherInotify.cpp"),("mWatchesLock","src/efsw/FileWatcherGeneric.cpp"),("g_callbacksMutex","src/efsw/FileWatcherCWrapper.cpp")],None,["data races"])

p("C15","Overflow of the kernel queue is reported to every watch",
 "When the kernel announces that notifications were dropped, the missed-events callback of the listener of every user-added watch is invoked exactly once with that watch's id and directory, and the watcher carries on with the notifications that follow. No missed-events callback is produced otherwise.",
 ["histories","fault_sequences"],"every position of an overflow record in the notification stream, any set of watches",
 "Tests never overflow the kernel queue.",
 ["src/efsw/FileWatcherInotify.cpp"],
 [("FileWatcherInotify::run","src/efsw/FileWatcherInotify.cpp"),("FileWatcherInotify::handleAction","src/efsw/FileWatcherInotify.cpp")],None,["handleMissedFileActions callbacks"])

p("C16","Directories that appear under a recursive inotify watch get watched",
 "When an entry that is a directory appears below a recursive inotify watch, a watch inheriting the id, listener and settings of its parent is requested for it unless it is already watched, and for every readable directory below it; nothing is requested for files or for non-recursive watches. With the synthetic-events option, each file and directory (directly or through a link) already inside a newly watched directory is reported as added exactly once, and never without the option.",
 ["inputs","histories"],"all listings of the new directory, all registries, option on or off",
 "One test creates one empty directory and then a file in it after a pause.",
 ["src/efsw/FileWatcherInotify.cpp"],
 [("FileWatcherInotify::checkForNewWatcher","src/efsw/FileWatcherInotify.cpp"),("FileWatcherInotify::addWatch","src/efsw/FileWatcherInotify.cpp")],None,["callbacks","watched directories"])

p("C17","A watcher is stopped before anything its thread uses is destroyed",
"Destroying a watcher tells its background thread to stop and then waits for it, holding none of the locks the thread takes, so the wait cannot deadlock whatever the thread is doing; only afterwards are the watches and the kernel queue the thread uses destroyed.",
["schedules"],"all points of its loop or of a notification at which the background thread can be when the watcher is destroyed",
"The tests destroy watchers whose thread is idle; a deadlock or a use of a destroyed watch needs the thread to be at one particular point.",
["src/efsw/FileWatcherInotify.cpp","src/efsw/FileWatcherGeneric.cpp","src/efsw/Thread.hpp"],
[("FileWatcherInotify::~FileWatcherInotify","src/efsw/FileWatcherInotify.cpp"),("FileWatcherGeneric::~FileWatcherGeneric","src/efsw/FileWatcherGeneric.cpp"),("Thread::~Thread","src/efsw/Thread.hpp")],
obs=["deadlock","use of a destroyed watch"])
p("N01","Every file system change is eventually reported",
 "After watching starts, every creation, deletion, modification or rename below a watched directory eventually leads to a callback.",
 ["schedules","histories"],"all schedules and histories","Liveness cannot be observed by finite tests.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/DirWatcherGeneric.cpp"],[("background thread","src/efsw/FileWatcherInotify.cpp")])
p("N02","Destroying a watcher terminates, without deadlock",
 "Destroying a watcher from any thread that is not its own background thread returns in bounded time, whatever the background thread is doing.",
 ["schedules"],"all schedules","Needs all interleavings and a termination argument.",
 ["src/efsw/FileWatcherInotify.cpp","src/efsw/Thread.hpp"],[("destructor joining the thread","src/efsw/FileWatcherInotify.cpp")])
p("N03","The Windows, macOS and BSD backends satisfy the same guarantees",
 "The guarantees stated for the inotify and polling backends hold for the Win32, FSEvents and kqueue backends too.",
 ["inputs","histories","configurations"],"all platforms","The tests only run on Linux.",
 ["src/efsw/FileWatcherWin32.cpp","src/efsw/FileWatcherFSEvents.cpp","src/efsw/FileWatcherKqueue.cpp"],[("platform backends","src/efsw/WatcherKqueue.cpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
