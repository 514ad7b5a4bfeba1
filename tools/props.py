prop("S01", "A concatenated reader is exactly the concatenation of its segments",
 "Reading a concatenation of sized segments, sequentially, after any seek, or at any offset, yields exactly the bytes of the segments laid end to end, and end-of-file is reported only at the total declared size. "
 "A segment that holds fewer bytes than declared, holds more, or fails to read is reported as an error that names the failing segment and offset, never as a clean end of file or as other bytes. "
 "Closing closes every segment once.",
 ["inputs","histories","fault_sequences"],
 "All segment layouts (including empty segments and more segments than the linear lookup handles), all operation sequences, all positions of a short/long/failing segment.",
 "The tests and the fuzz target sample layouts and never vary the end-of-file style together with a wrong declared size.",
 ["stream/multi_read_at_closer.go"], [("segment lookup and EOF translation","stream/multi_read_at_closer.go")],
 note="Exhaustive within: up to 4 segments of up to 3 bytes, 3-4 operations, one injected fault. Assumes segments obey the io.ReaderAt contract apart from their real length.")
prop("S02", "The offset-opening reader serves right bytes with one stream per run",
 "Reading at any offsets through the opener-backed reader yields the source's bytes at those offsets, with end-of-file only at the end of the data and every open, read or close failure reported. "
 "A read that continues where the open stream stands never opens another stream, at most one stream is open at a time, and a stream that failed or ended is closed and never read again.",
 ["inputs","histories","fault_sequences"],
 "All sizes, all sequences of reads at all offsets and closes, every placement of a failure, every split of the stream's data into reads.",
 "Unit tests check a few access patterns; the leak and reopen behaviour depends on the whole history and on where a failure falls.",
 ["stream/seq_reader_at.go"], [("kept-open stream and position tracking","stream/seq_reader_at.go")],
 note="Exhaustive for sizes 0..3 (source one byte shorter/longer), 4 operations without and 3 with one fault.")
prop("S03", "Chunked objects round-trip, resume and never lose data silently",
 "Pushing an object in chunks, interrupted anywhere and resumed from the reported state, ends with the server holding exactly the object; the reported offset never covers bytes the server does not hold and completion is reported only when every chunk is present with its right size. "
 "Reading the object from any offset yields exactly the remaining bytes, fetching each needed chunk once, and a missing, short or failing chunk is reported as an error and never as a clean end.",
 ["inputs","histories","fault_sequences","crash_points"],
 "All object sizes and chunk sizes (dividing or not), all leftover states of an earlier push, all placements of server or reader failures, all read offsets and buffer sizes.",
 "Tests use a handful of sizes and a single failure point.",
 ["stream/fileserver/chunk.go","stream/seq_reader_at.go","stream/multi_read_at_closer.go"], [("State/Append over chunk sizes; lazy concatenation","stream/fileserver/chunk.go")],
 note="Exhaustive for objects of 0..7 bytes, chunks of 1..4 bytes, 2-3 faults. Assumes PUT is atomic on the server.")
prop("S04", "Cancellation and errors are sticky; multi-readers close everything",
 "Once a cancellable reader has returned an error, or its context is cancelled, no later call reads the underlying reader, and every later call returns that same error with no bytes; before that every byte is passed through once. "
 "A sequential multi-reader delivers its readers' bytes in order, ends cleanly only when all of them ended cleanly, and its Close closes every reader and reports every close failure.",
 ["inputs","histories","fault_sequences"],
 "All behaviours of the underlying reader at every call, every cancellation point, every combination of close failures.",
 "Tests pick single cancellation points and no combination of data-with-error reads.",
 ["stream/cancellable.go","stream/multi_read_closer.go"], [("stored first error","stream/cancellable.go"),("gathered close errors","stream/multi_read_closer.go")],
 note="Exhaustive to 4-6 reads over six underlying behaviours; 0..4 readers for the multi-reader.")
prop("S05", "The HTTP object client never hands out wrong or mislabelled content",
 "For every server answer, the object client returns a body for offset k only if the answer says that body starts at k (a full 200 answer for 0, or a partial answer whose range starts there with a known total); otherwise it returns an error and closes the body. "
 "Absence (404, 410) and nothing else is reported as not-exist, transport failures stay visible to the caller, and any object name is sent as a single escaped path segment with the configured headers.",
 ["inputs","fault_sequences","configurations"],
 "The product of offsets, status codes, Content-Range forms, content lengths, object names and base URLs.",
 "The test server always answers consistently; a hostile or broken proxy is not tested.",
 ["stream/fileserver/client.go"], [("status and Content-Range validation","stream/fileserver/client.go")],
 note="Exhaustive product of the listed answer features with a scripted transport.")

prop("S06", "A remote object is read as one version, byte for byte, or not at all",
 "However the server answers, and whatever prior knowledge the reader was given, bytes returned by the HTTP range reader are those of one version of the object at the requested offsets, end-of-file is reported only at the end of that object or of the declared section, and an object that changed in a way the answers reveal is reported as changed. "
 "An answer that ignores the range, lies about it, is encoded, truncated or comes from elsewhere is an error of the documented kind and never data, while an honest server is read in full. "
 "Every response body is released, and in-order reads of a declared section ride on one request.",
 ["inputs","histories","fault_sequences","configurations"],
 "All object sizes, validator configurations, prior knowledge, operation sequences and every placement of server deviations.",
 "The test servers answer one scripted way per test; the guarantee quantifies over deviations at any point of any read history.",
 ["stream/httprange"], [("response validation and pinning","stream/httprange/probe.go"),("bounded reads","stream/httprange/reader_at.go"),("the lane","stream/httprange/stream.go")],
 note="Exhaustive for objects of 0..3 bytes, 2-3 operations and 1-2 server deviations out of 25 kinds. A change that alters neither length nor validators is undetectable and excluded.")
prop("S07", "One remote object reader may be shared by any number of goroutines",
 "Goroutines may read, probe, query and close one HTTP range reader freely: whatever the schedule, and whether the object is replaced or a request stalls meanwhile, every read gives the bytes of its offset, all of them from one version of the object, or an error that says why. A section costs at most one request reaching beyond the read at hand, a stalled request holds up nobody who is not in line for the same stream, Close ends everything in flight, and no response body is left open, read after its close, or shared unguarded.",
 ["schedules","histories","fault_sequences","configurations"],
 "All schedules, up to a preemption bound, of all pairs of calls, two calls against one, three calls and two streams side by side, on readers with and without a section, for every point at which the object is replaced or a request stalls.",
 "The tests start a few goroutines against a live test server and let the runtime pick.",
 ["stream/httprange/stream.go","stream/httprange/reader_at.go","stream/httprange/httprange.go"], [("the lane's lock, position and detached close","stream/httprange/stream.go"),("pinning by compare-and-swap","stream/httprange/httprange.go")],
 technique="exhaustive exploration of the real code's schedules up to a preemption bound (controlled scheduler and scripted transport)",
 note="Real code under a controlled scheduler: 1 preemption at every statement and 2 at every lock, atomic and network step for pairs, 1-2 for longer programs; every schedule is judged by the race detector on the code's own synchronisation.")
prop("S08", "Error text never carries a URL's credentials",
 "No error returned by the HTTP object client or the HTTP range reader contains userinfo, query or fragment of any URL it was given or that the transport reported, however transport errors are nested and whether or not those URLs parse; the underlying cause stays reachable through errors.Is.",
 ["inputs","fault_sequences"],
 "All credential positions, error nestings, failure modes and entry points.",
 "Tests check one URL shape and one error shape per module.",
 ["stream/httprange/redact.go","stream/fileserver/client.go"], [("redaction","stream/httprange/redact.go"),("redaction","stream/fileserver/client.go")],
 note="Exhaustive product of 3 base URLs, 11 carried URLs, 5 error shapes, 4 failure modes and 8 entry points.")
prop("T01", "A tar archive is shown as the tree extracting it would make",
 "For every sequence of headers, the archive file system opens without panicking or hanging and shows exactly the tree that extracting the entries in order produces: later entries replace earlier ones, missing parents exist, hard links share content, symlinks resolve inside the archive as a kernel would resolve them, and nothing outside the archive is reachable. "
 "Each directory lists every child once and every listed child opens.",
 ["inputs","histories"],
 "All header sequences over an adversarial name and link-target alphabet.",
 "The tests use archives produced by tar; replaced entries, odd names and links to links come from other writers.",
 ["tarfs"], [("tree construction","tarfs/ent.go"),("path and symlink resolution","tarfs/fs.go"),("hard links","tarfs/enthardlink.go")],
 note="Exhaustive for up to 3-4 headers over the listed names, types and targets, judged against a kernel-like reference tree.")
prop("T02", "Tar member sections and sparse files read as archive/tar reads them",
 "For every archive layout (ustar, PAX, GNU long names, old and PAX sparse formats), each member's bytes read through the archive file system, sequentially or at any offset, equal what archive/tar yields, and a truncated or corrupt archive is an error and never other bytes.",
 ["inputs"],
 "All member sizes around the block size, header extensions, sparse maps, and truncation points.",
 "Tests use a few fixture archives.",
 ["tarfs"], [("header collection","tarfs/headers.go"),("section and sparse reading","tarfs/reader.go")],
 note="Exhaustive over the listed layouts, sparse maps over 4 blocks, every truncation point at sector granularity, and single headers with odd kinds, number spellings and malformed sparse maps (where archive/tar refuses, New must).")

prop("T03", "An open archive and its files may be shared by any number of goroutines",
 "Goroutines may look up, list and read one archive file system, and share its open files, freely: whatever the schedule, what the calls return and where the files' positions end up is what one sequential order of the calls, consistent with which ended before which began, gives. Reads at an offset never move or follow the shared position, and no schedule deadlocks, panics or leaves two accesses to the same memory unordered.",
 ["schedules","histories"],
 "All schedules, up to a preemption bound, of all pairs of calls (files, sparse files, directories, lookups), of two calls against one and of three calls.",
 "The tests use one goroutine.",
 ["tarfs/entfile.go","tarfs/entdir.go","stream/multi_read_at_closer.go"], [("file position lock","tarfs/entfile.go"),("directory cursor lock","tarfs/entdir.go")],
 technique="exhaustive exploration of the real code's schedules up to a preemption bound (controlled scheduler), judged by linearizability against its own sequential runs",
 note="Real code under a controlled scheduler: 1-2 preemptions at every statement, 3 at every lock operation; every schedule is judged by the race detector. The sequential behaviour is what T01 and T02 check.")
prop("T04", "Handles of an archive keep the file contract, and a failing archive shows",
 "Every handle opened from an archive file system, whatever kind of member it is of and whether through the archive or a part of it, keeps the contract of a read-only file under any sequence of calls: own position, reads and seeks and listings as the archive's tree says, calls after Close and writing calls refused with the path and operation, nothing else moving it. "
 "A read of the archive that fails is reported, by New or by the call that needed it, never turned into other bytes, a shorter file or a missing member, and the handle goes on where it was once the archive can be read again. Names outside the contract of io/fs are refused, and an error carries the name it was asked with.",
 ["inputs","histories","fault_sequences"],
 "Every sequence of calls up to the depth on handles of every kind of member, with every read of the archive failing, and every call with every kind of name.",
 "Tests read fixture archives front to back from a medium that never fails.",
 ["tarfs/entfile.go","tarfs/entdir.go","tarfs/fs.go","tarfs/headers.go"], [("file handle","tarfs/entfile.go"),("directory handle","tarfs/entdir.go"),("header collection","tarfs/headers.go")],
 note="Exhaustive to 3 calls on one handle and 2 on each of two (one more in thorough); every kind of name in every call; every single failing read of New and of a handle's reads. Where a refused seek leaves a listing is left open.")

prop("F01", "A safe write leaves the old content or the complete new content",
 "At every moment of a safe write, whatever file system call fails, tears or is the last one before a crash, the target holds its previous content or the complete new content, and with a sync hook this also survives power loss. "
 "Success means the new content is in place with every hook run in order; any failure is reported with its cause, leaves the target unchanged, leaves nothing else changed, and its temporary file is removed where removing works. "
 "Leftover temporary files and only those are recognised by the cleanup walk.",
 ["inputs","fault_sequences","crash_points"],
 "Every target state, temporary-file policy, hook set, content split, fault placement, torn write, crash and power-loss point, and a second write at every point of a first.",
 "Tests inject one failure per operation kind into one write; atomicity quantifies over every point and over torn and late effects.",
 ["fsutil/safe_write.go"], [("write to temp, hooks, rename, cleanup","fsutil/safe_write.go")],
 note="Exhaustive over single faults (two in thorough) and single crashes; the file system model is reffs, an in-memory POSIX reference validated against the kernel by V05. Power loss is modelled as unsynced file data being lost while names persist.")
prop("F02", "Resumed transfers never mix versions and never commit wrong bytes",
 "However many sessions a resumable pull or push takes, and wherever each is cut, faulted or crashes, a committed object is byte for byte one version of the source that satisfies what the caller and the source declared (identity, size, hooks), and a committed object is never altered. "
 "Success is reported exactly when the object is committed; a part refused by a hook is discarded; after any history an unhindered session with a well-behaved source finishes and leaves no part or sidecar.",
 ["inputs","histories","fault_sequences","crash_points"],
 "Every sequence of sessions over two versions, every cut, fault and crash placement.",
 "Tests replay single interruptions; the guarantee is about whole histories of partial sessions over a changing source.",
 ["fsutil/resumable.go","fsutil/resumable_fs.go"], [("resume and identity checks","fsutil/resumable.go"),("part and sidecar files","fsutil/resumable_fs.go")],
 note="Exhaustive for objects of up to 4 bytes, 2-4 sessions, one fault and one crash, and the local file of a push replaced, shortened or grown at any call. A source change that alters neither identity nor size is undetectable and excluded.")
prop("F03", "Copying a tree is faithful or reports why not",
 "A successful copy of a tree, of chosen paths or of one file system into another leaves the destination holding every selected file, directory and symbolic link with the source's content, permissions and targets, and touches nothing else; entries of other kinds are refused. "
 "Any failing call on either side, including closing the destination, is reported with its cause, and no file is left open.",
 ["inputs","fault_sequences"],
 "Every small tree, destination state, root, path selection and fault placement.",
 "Tests copy a few trees with one failing operation each.",
 ["fsutil/copy_fs.go"], [("walk and per-entry copy","fsutil/copy_fs.go")],
 note="Exhaustive for trees of 2-5 entries from the alphabet with one fault (two in thorough), and files around the copy buffer size.")
prop("F04", "Random-name creation is exclusive, bounded and leaves no litter",
 "Creating a randomly named file or directory always creates a new entry exclusively, under the requested directory with the requested prefix, suffix and permission, retries only on collision and gives up after a bounded number, and leaves nothing behind on failure. "
 "Temporary names for a target fit the 255-byte limit without splitting a rune and are recognised by the policy that made them; truncation returns the longest prefix of whole runes within the limit.",
 ["inputs","fault_sequences"],
 "Every pattern and collision count listed, every name length around the limit for units of 1 to 4 bytes, all short strings and limits.",
 "Tests check one long name and no failing open.",
 ["fsutil/open_random.go","fsutil/truncate_utf8.go","fsutil/safe_write.go"], [("retry loop","fsutil/open_random.go"),("name shortening","fsutil/safe_write.go")],
 note="Exhaustive over the listed alphabets.")
prop("F05", "Path resolution lands where the kernel would, or fails",
 "Resolving a path over any tree of directories, files and symbolic links returns the symlink-free path of exactly the entry a kernel resolving it inside the same root would reach; a path that leaves the root, loops or does not exist is an error of that kind.",
 ["inputs","configurations"],
 "All trees with three symlinks over the target alphabet and all paths of bounded depth.",
 "Tests check a few link layouts; nested, dangling and dot-dot-carrying targets combine.",
 ["fsutil/resolve_symlink.go"], [("component-wise resolution","fsutil/resolve_symlink.go")],
 note="Exhaustive for three symlinks over 19 targets and paths to depth 2 (3 thorough). Assumes the tree does not change during resolution (documented).")
prop("F06", "Path, mode and error helpers are exact for every input",
 "For every path, iterating from its head yields each ancestor of the cleaned path and the path itself exactly once, outermost first, and iterating from its tail yields the same the other way round; both stop as soon as the consumer does and can be run again. "
 "The chmod masks keep exactly the bits chmod can change on the platform they are named after (on Windows: read-only or writable, for files and directories). Wrapping an error keeps nil nil, sets exactly the given fields, keeps those not given, never wraps twice and keeps the cause reachable.",
 ["inputs"],
 "Every path of bounded length over separators, dots and names with every stopping consumer; every file mode; every shape of error with every set of fields.",
 "Tests check a handful of well-formed paths and modes; a bare separator, repeated separators and dots are where an iterator repeats or drops one.",
 ["fsutil/pathutil/head_tail.go","fsutil/chmod_mask.go","fsutil/wrap_path_err.go"], [("path iterators","fsutil/pathutil/head_tail.go"),("chmod masks","fsutil/chmod_mask.go"),("error wrapping","fsutil/wrap_path_err.go")],
 note="Exhaustive for paths of up to 7 (9 thorough) of 5 units and all 2^22 modes. Unix behaviour of filepath only.")
prop("V01", "A rooted file system never reads or changes anything outside its root",
 "Whatever path is given and however symbolic links inside the root point, no operation through a rooted file system (the OS root, the in-memory root, the overlay, their sub-roots, and the read-only, path-converting and io/fs views of them) reads or changes anything outside the root, also when directories or links are moved while the root is open. "
 "A path that leads out is refused with ErrPathEscapes, and a path that stays inside works as in a plain directory. Views documented as lexical only refuse every path that leaves them lexically.",
 ["inputs","histories","configurations"],
 "All paths of bounded length, all pairs of link targets, all operations, all short sequences of moves inside and outside the root.",
 "The acceptance tests try a few escaping paths and links per operation; escapes come from combinations of link, path and operation.",
 ["vroot/osfs/root.go","vroot/osfs/fs.go","vroot/synthfs/tree.go","vroot-adapter/overlayfs/resolve.go","vroot/pathprefix.go","vroot/pathnormalizer.go","vroot/readonly.go","vroot/iofs_to.go"], [("component-wise resolution against a boundary","vroot/synthfs/tree.go"),("error translation","vroot/osfs/root.go"),("lexical refusal","vroot/pathprefix.go")],
 note="Exhaustive for paths of up to 2-3 components (4 thorough), two links over 11-22 targets, 31 operations each, and 2-3 moves.")
prop("V02", "Nothing reached through a read-only view can be changed",
 "No call on a read-only file system, on any of its sub-roots, or on any file handle obtained from them changes the wrapped file system in any way; every mutating call is refused with EROFS (EPERM on handles), including opens whose flags merely imply writing, and every reading call gives what the wrapped file system gives.",
 ["inputs","histories","configurations"],
 "Every wrapper, nesting, mutating call, path pair, open-flag combination and sequence of handle calls.",
 "Tests call each refused method once with one flag set.",
 ["vroot/readonly.go","vroot/iofs_from.go","vroot/internal/openflag/openflag.go"], [("refusals","vroot/readonly.go"),("flag classification","vroot/internal/openflag/openflag.go")],
 note="Exhaustive for 9 wrappers, 96 flag combinations, 10 paths and 2-3 handle calls.")
prop("V03", "A walk visits every entry exactly once, in order, and ends",
 "Walking a tree calls back for every reachable entry once per path in lexical order with the right kind and symlink-free path, honours SkipDir, SkipAll and errors at whichever callback they are returned, goes on past an entry that cannot be examined when the callback allows it, and terminates on every arrangement of symbolic links, never entering a directory it is already inside.",
 ["inputs","fault_sequences","configurations"],
 "All trees with two links over the target alphabet, all start paths, every reaction at every callback, every failing entry.",
 "Tests walk a few trees with one reaction; loops and failures combine with reactions.",
 ["vroot/walk.go","fsutil/resolve_symlink.go"], [("recursive walk with visited set","vroot/walk.go")],
 note="Exhaustive for 7-entry trees with two links over 11-16 targets and 8 start paths.")
prop("V04", "The io/fs views are valid io/fs file systems with exact paging",
 "Every io/fs view of a file system (and the way back) satisfies the io/fs contract over any tree: fstest accepts it, names that are not valid paths are refused with ErrInvalid before anything else happens, and a directory read page by page, by any mix of listing calls, lists each entry once and then reports io.EOF.",
 ["inputs","histories","configurations"],
 "Every bridge, every small tree, every sequence of page reads, an entry vanishing between listing and lookup.",
 "Tests run fstest on one fixture and page with one size.",
 ["vroot/iofs_to.go","vroot/iofs_from.go","vroot/synthfs/handle_dir.go"], [("capability narrowing and path validation","vroot/iofs_to.go"),("widening","vroot/iofs_from.go")],
 note="Exhaustive for 210 trees over 12 bridges and 4 page reads over directories of 0-3 entries.")
prop("V05", "Every file system behaves as a plain directory tree",
 "After any sequence of operations, the in-memory file system, its sub-roots, the OS-backed file systems and the path-prefixing and path-converting views give the results, error kinds and visible tree a plain directory gives for the same sequence: creation, exclusivity, truncation, links, renames over and into directories, removal and metadata changes take effect completely or not at all.",
 ["inputs","histories","configurations"],
 "All operation sequences over the alphabet up to the bound from several start trees; all operations on all unusual spellings of paths.",
 "The acceptance tests run each operation from one prepared state; failures come from the state an earlier operation left.",
 ["vroot/synthfs","vroot/osfs","vroot/pathprefix.go","vroot/pathnormalizer.go"], [("tree operations","vroot/synthfs/tree.go"),("rename","vroot/synthfs/rename.go"),("removal","vroot/synthfs/remove.go")],
 note="Exhaustive for 3 operations out of 64 (4 thorough) from 5 trees, 5-6 with state deduplication. Validates the reference file system against the kernel on the same sequences.")
prop("V07", "Concurrent calls on synthfs behave as if made one after another",
 "Goroutines may call one synthetic file system, and share its handles, freely: whatever the schedule, what the calls return and leave behind is what one sequential order of them, consistent with which call ended before which began, gives on an ordinary file system. No schedule loses an update, deadlocks, panics or leaves two accesses to the same memory unordered.",
 ["schedules","histories"],
 "All schedules of all pairs of calls (path calls, handle calls, and both mixed), of two calls against one and of three calls, up to a preemption bound.",
 "A stress test sees the schedules the runtime happens to pick; lost updates need one switch at one statement.",
 ["vroot/synthfs"], [("the tree lock","vroot/synthfs/tree.go"),("handle locks","vroot/synthfs/handle.go")],
 technique="exhaustive exploration of the real code's schedules up to a preemption bound (controlled scheduler), judged by linearizability against a reference model",
 note="Real code under a controlled scheduler: quick allows 2 preemptions at every statement for pairs and at every lock operation for longer programs; every schedule is judged by the race detector on the code's own locks.")
prop("V09", "Path wrappers forward every call exactly once with the path translated",
 "Each call on a widening, prefixing, path-converting or read-only wrapper reaches the wrapped file system exactly once, as the same operation with all other arguments intact and only the path translated, and its result or error comes back unchanged; a refused call reaches nothing and names the path the caller gave. The convenience helpers use native support when there is any, close what they open and report every failure.",
 ["inputs","fault_sequences","configurations"],
 "The product of wrappers, methods, paths and outcomes of the wrapped call.",
 "Tests exercise few methods per wrapper, so a method wired to the wrong target, a dropped argument or a swallowed error stays unseen.",
 ["vroot/widen.go","vroot/pathprefix.go","vroot/pathnormalizer.go","vroot/readonly.go","vroot/funcs.go","vroot/iofs_from.go"], [("delegation","vroot/widen.go"),("delegation","vroot/pathprefix.go"),("helpers","vroot/funcs.go")],
 note="Exhaustive product over a recording file system.")
prop("V10", "File locks exclude exactly those they should, through every handle",
 "Files opened through any way to a real directory take advisory locks of the whole file: an exclusive holder excludes every other holder and a shared one only exclusive ones, also between handles opened under different names or through different file systems. "
 "A lock nobody stands against is given, one that is stood against is waited for, locking again converts, unlocking and closing release, and a closed handle or an unknown level is refused without changing what is held.",
 ["histories","schedules"],
 "All sequences of lock, convert, unlock, close and rename over several handles with all their waiting calls in flight at once.",
 "Tests try one lock against another; conversions while others wait depend on the whole history.",
 ["vroot/osfs/lock_unix.go","vroot/lock.go","fsutil/lock.go","vroot/osfs/file.go"], [("flock over the open file","vroot/osfs/lock_unix.go")],
 note="Exhaustive for up to 4 handles and 3 to 5 calls (7 thorough) with state deduplication; the kernel is asked through a descriptor of its own. Linux only.")
prop("V11", "Files shown through views are files, and read-only ones never written",
 "A file of a synthetic tree that is a view of bytes, of a file of another file system or of a range of another view reads, seeks, lists, renames and unlinks as a plain file with those bytes, also through several handles; every call that would write it is refused and changes neither the tree nor the source, and a source that can only be read on is never read elsewhere. "
 "Opened sources are released, a changed source is seen by the next open, and a call of any view that fails is reported, changes nothing and leaves the file system usable.",
 ["inputs","histories","fault_sequences","configurations"],
 "All sequences of calls on the file system and up to two handles over every kind of view; every call a view can fail at any point of them.",
 "The tests read each view once from start to end; no test has a view that fails or cannot seek.",
 ["vroot/synthfs/view_bytes.go","vroot/synthfs/view_fs.go","vroot/synthfs/handle.go","vroot/synthfs/open.go","vroot/iofs_from.go"],
 [("read-only views","vroot/synthfs/view_bytes.go"),("files of another file system and ranges","vroot/synthfs/view_fs.go"),("handles over views","vroot/synthfs/handle.go"),("widening fs.File","vroot/iofs_from.go")],
 note="Exhaustive for 8 kinds of view, 4 to 5 calls with one handle, 3 to 4 with two; 4 calls each with every failure of the view it can meet. Sources that change size under a ranged view are not judged.")
prop("V12", "The in-memory file system obeys the options it is given",
 "Every file and directory made in the in-memory file system or a sub-root of it gets the requested permission without the bits of the umask and the time of the configured clock, shown alike by lookups, listings and handles; chmod through a path or a handle sets exactly the bits the configured mask leaves and never the kind of the entry. "
 "With removal of open files disabled, Remove is refused with an error that is EINVAL exactly while a handle is open on the entry, through whatever name, link or sub-root it was opened and however it was moved since, and changes nothing then; closing the last handle, once or twice, allows it again.",
 ["inputs","histories","configurations"],
 "All umasks, masks, ways to create and modes listed; all histories of opens, closes, removals and renames up to the bound, with and without the option.",
 "Tests use one umask and open, remove and close one file once; counts go wrong on double closes, failed opens, truncation and moved entries.",
 ["vroot/synthfs/option.go","vroot/synthfs/open.go","vroot/synthfs/remove.go","vroot/synthfs/handle.go","vroot/synthfs/tree.go"], [("options","vroot/synthfs/option.go"),("open count","vroot/synthfs/open.go"),("removal gate","vroot/synthfs/remove.go"),("chmod mask","vroot/synthfs/tree.go")],
 note="Exhaustive for 4 calls (5 thorough) out of 27. RemoveAll and renames over an open entry are not judged with the option on: the option speaks of Remove.")
prop("O01", "A stack of layers shows exactly their union",
 "Looking names up, listing, reading files and resolving links through a stack of layers gives, for every arrangement of entries, whiteouts and opaque marks in the layers, exactly the merged tree: the topmost unmasked entry wins, directories of adjacent layers merge, masked and shadowed names never show, symlinks resolve in the merged tree and never in one layer or outside it, and looking changes no layer and no mark.",
 ["inputs","configurations"],
 "Every combination of entry kinds at each name in two and three layers, with and without marks.",
 "The tests build a few stacks by hand; shadowing, masking and symlinks interact per name and per ancestor.",
 ["vroot-adapter/overlayfs/merged.go","vroot-adapter/overlayfs/resolve.go","vroot-adapter/overlayfs/state.go","vroot-adapter/overlayfs/file.go"], [("merged lookup","vroot-adapter/overlayfs/merged.go"),("merged listing","vroot-adapter/overlayfs/file.go")],
 note="Exhaustive over entry kinds in two layers of a 5-name tree with marks, and a three-layer alphabet. The union is computed by an independent fold over the layers.")
prop("O02", "Writing through a stack looks like writing to one directory tree",
 "Any sequence of operations on a stack, or on a sub-root of it, gives the results, error kinds and visible tree a plain directory holding the merged tree gives; only the top layer is ever changed, and every lower layer stays byte for byte as it was.",
 ["inputs","histories","configurations"],
 "All sequences of operations up to the bound from six start stacks that mix lower-only, copied-up, masked and shadowed names.",
 "The tests run single operations; what breaks is the next operation after a copy-up, a removal or a rename.",
 ["vroot-adapter/overlayfs/rename.go","vroot-adapter/overlayfs/copyup.go","vroot-adapter/overlayfs/remove.go","vroot-adapter/overlayfs/state.go"], [("copy-up","vroot-adapter/overlayfs/copyup.go"),("masking","vroot-adapter/overlayfs/state.go")],
 note="Exhaustive for sequences of 3 operations (4 thorough) out of about 60 over six stacks with state deduplication.")
prop("O03", "A stack opened again shows what was there when it was last used",
 "After any sequence of operations, building a new stack from the same layers and the same mark store shows the same tree; moving the finished top with its marks below a fresh top, or mounting it read-only, shows it too and never writes to it.",
 ["histories","configurations"],
 "All sequences of operations with a restart, a restack or a read-only remount after any of them.",
 "A lost or stray mark shows only after the in-memory state is gone or the layer has moved; tests do not reopen.",
 ["vroot-adapter/overlayfs/state.go","vroot-adapter/overlayfs/fs.go"], [("load and persistence of marks","vroot-adapter/overlayfs/state.go")],
 note="Exhaustive for 2-3 operations with a remount at any point over six stacks.")
prop("O04", "An operation on a stack cut short brings nothing hidden back",
 "If an operation on a stack fails at any call it makes to a layer or to the mark store, or the process dies there, then afterwards, at once or after reopening, the visible tree is one the operation may have left: names it does not concern are unchanged, nothing removed, masked or renamed earlier reappears, no name shows content it never had, and the stack goes on working.",
 ["fault_sequences","crash_points","histories"],
 "Every operation from six stacks, every call to a layer or to the store failing or being the last before a crash, then any one further operation.",
 "Tests inject no failure between the layer change and the mark that belongs to it.",
 ["vroot-adapter/overlayfs/rename.go","vroot-adapter/overlayfs/remove.go","vroot-adapter/overlayfs/copyup.go"], [("order of marks and layer changes","vroot-adapter/overlayfs/rename.go")],
 note="Exhaustive for one operation with one failure or crash at any call, followed by one operation.")
prop("V06", "An open handle behaves like a file's handle until it is closed",
 "Reads, writes, seeks, truncation, listing and metadata changes through an open handle give what a plain file's handle gives, whatever other handles and path operations do in between: the handle stays on its file or directory when the name is renamed, replaced or removed, append writes go to the end, flags are enforced, offsets move exactly by what was transferred, and a closed handle does nothing.",
 ["inputs","histories","configurations"],
 "All sequences of handle and path operations up to the bound with one and two handles.",
 "The acceptance tests check each method once on a fresh handle.",
 ["vroot/synthfs/handle.go","vroot/synthfs/view_mem_buf.go","vroot/synthfs/handle_dir.go","vroot/osfs"], [("per-handle offset and flags","vroot/synthfs/view_mem_buf.go"),("tree-aware handle","vroot/synthfs/handle.go")],
 note="Exhaustive for 4-5 calls with one handle and 3-4 with two, out of 48-86, with state deduplication.")
prop("O05", "The mark store is atomic, durable and exact",
 "Each setter of the sqlite-backed mark store has exactly the documented effect for every name, is complete and durable once it returned, and is all or nothing when the machine stops, loses unsynced writes or the disk fails anywhere inside it; the store then opens again and works. Creating a store cut short leaves one that can be created again, two writers never share a database, and a foreign database is refused untouched.",
 ["inputs","histories","fault_sequences","crash_points"],
 "All setter sequences up to the bound; every call to the disk as the point of a crash or an error; every subset of unsynced writes lost.",
 "Tests reopen after clean closes only.",
 ["vroot-adapter/overlayfs/metadatastore_sqlite.go","vroot-adapter/overlayfs/internal/sqlvfs/file.go","vroot-adapter/overlayfs/internal/sqlvfs/open.go"], [("one transaction per setter","vroot-adapter/overlayfs/metadatastore_sqlite.go"),("sync and short reads","vroot-adapter/overlayfs/internal/sqlvfs/file.go")],
 note="Exhaustive for 3 setters, one crash or error at any call, all subsets of lost writes (all but two kept or lost for the many-page database). Runs the pinned sqlite itself.")
prop("O06", "Concurrent calls on an overlay behave as if made one after another",
 "Goroutines may use one overlay and its handles freely: whatever the schedule, what the calls return and leave behind, before and after the stack is opened again, is what one sequential order of them, consistent with which call ended before which began, gives on the merged tree. No schedule changes a lower layer, leaves work behind, removes an entry held open when that is refused, deadlocks, panics or leaves two accesses to the same memory unordered.",
 ["schedules","histories","configurations"],
 "All schedules, up to a preemption bound, of all pairs of path calls, of path against handle calls and of handle calls, on two stacks, and of removals against opens with open files kept.",
 "The concurrency tests run a few goroutines under whatever schedule the runtime picks.",
 ["vroot-adapter/overlayfs"], [("the overlay lock","vroot-adapter/overlayfs/state.go"),("handle tracker and merged directory handles","vroot-adapter/overlayfs/file.go")],
 technique="exhaustive exploration of the real code's schedules up to a preemption bound (controlled scheduler), judged by linearizability against a reference model",
 note="Real code under a controlled scheduler: one preemption at every statement (lock operation for the calls that only read on the second stack); every schedule is judged by the race detector on the code's own locks.")
prop("O07", "Overlay handles stay on what they were opened on",
 "A handle obtained from a stack goes on being the same file or directory through copy-up, renames, replacements and removals of its name; a change through it lands on that entry and in the top only. With removal of open files disabled, a removal is refused exactly when a handle is open on the name or, for a tree, anywhere in it, before anything is dropped.",
 ["histories","configurations"],
 "All sequences of handle and path operations up to the bound with one and two handles, on two stacks, with and without the option.",
 "The tests open and remove the same name; renames in between are not combined with handles.",
 ["vroot-adapter/overlayfs/file.go","vroot-adapter/overlayfs/remove.go","vroot-adapter/overlayfs/rename.go"], [("handle tracker","vroot-adapter/overlayfs/file.go"),("removal gate","vroot-adapter/overlayfs/remove.go")],
 note="Exhaustive for 4 calls with one handle, 3 with two, 6 with a directory handle. Read handles onto a lower may keep showing the content they were opened on.")
prop("V08", "A synthetic tree is assembled exactly as its resolver decides",
 "Adding a view or a whole file system to a synthetic tree asks the resolver once for every entry it comes to, in order, with the true incoming and existing entry, and leaves exactly what the answers say: kept entries untouched, replaced ones gone with all below them, the rest added with the source's mode, time, content and link target, missing parents scaffolded, nothing outside the root. Errors of the resolver, the source or a view are reported and leave only what was placed before. A view is closed once, when its last name goes, and never while a name leads to it; a view of a range reads as exactly those bytes.",
 ["inputs","histories","fault_sequences","configurations"],
 "All additions over start trees, targets, sources and answers of the resolver at every question; every failing call of the source; all histories of tree operations over files whose views are counted.",
 "The tests add one small tree with one ready-made resolver and never look at the views.",
 ["vroot/synthfs/add.go","vroot/synthfs/add_decision.go","vroot/synthfs/view_fs.go","vroot/synthfs/view_bytes.go","vroot/synthfs/link.go","vroot/synthfs/remove.go"],
 [("AddFile, AddFS and scaffolding","vroot/synthfs/add.go"),("closing of views","vroot/synthfs/remove.go"),("ranged views","vroot/synthfs/view_fs.go")],
 note="Exhaustive for one addition with any answers (two with the first one fixed to replace), one failing source call, 5 operations over counted views, all ranges of 10 bytes and ranges of ranges.")
prop("C01", "The module's file systems stand in for one another",
 "A stack built over any of the module's other file systems, as its top or as its lowers, with either mark store, behaves as the stack over plain ones does: every sequence of operations gives the results and the tree one plain directory gives, no lower changes, and the stack mounted again shows the same. "
 "A tree copied or written safely from any file system of the module to any other arrives exactly, with the source unchanged, and every file system presents one consistent tree through all its ways of looking.",
 ["inputs","histories","configurations"],
 "Every pair of places for a top and a lower, and for the source and the target of a copy; all sequences of operations up to the bound.",
 "Each file system is tested by itself, stacks over one kind in memory or on disk; error kinds, metadata and link behaviour that differ slightly show only when they meet.",
 ["vroot-adapter/overlayfs","vroot-adapter/sftpfs/sftpfs.go","vroot","tarfs","fsutil/copy_fs.go"],
 [("copy-up over any lower","vroot-adapter/overlayfs/copyup.go"),("io/fs views","vroot/iofs_from.go"),("sub-roots and prefixes","vroot/pathprefix.go")],
 note="5 tops and 9 lowers: exhaustive for one operation over every pair, two operations along each row and column.")
prop("P01", "A file system over SFTP behaves as a plain directory tree",
 "After any sequence of operations through the SFTP adapter, results, error kinds and the tree on the server are those a plain directory gives for the same sequence, and a handle reads, writes, appends, seeks and lists like a plain file's: creation sets modes on what it creates and nothing else, append writes go to the end, exclusivity, renames, links and removal take effect completely or not at all, a closed handle does nothing.",
 ["inputs","histories"],
 "All operation sequences over the alphabet up to the bound from several start trees, on a server with and without the POSIX extensions; all sequences of handle calls with one and two handles.",
 "The acceptance tests call each method on a fresh tree.",
 ["vroot-adapter/sftpfs/sftpfs.go"], [("path calls and mode handling","vroot-adapter/sftpfs/sftpfs.go"),("handles","vroot-adapter/sftpfs/sftpfs.go")],
 note="The real stock server of pkg/sftp answers over an in-process wire. Exhaustive for 2 path calls, 4 handle calls with one and 3 with two handles.")
prop("P02", "A file system over SFTP stays below its base, also when requests fail",
 "No path, however spelled, makes the adapter name anything outside its base to the server, and its recursive removal never follows a link out. Whatever request fails, is denied or is never answered, the call reports it, names outside what it concerns are unchanged, a removal reported as done is done, no handle is left open on the server, and the adapter goes on working.",
 ["inputs","fault_sequences"],
 "All odd spellings in all calls; every call with every request it makes refused, denied, lost or cut before or after the server acted; links out of the base under all pairs of calls.",
 "Tests use a server that never fails and clean paths.",
 ["vroot-adapter/sftpfs/sftpfs.go"], [("path resolution","vroot-adapter/sftpfs/sftpfs.go"),("recursive removal and MkdirAll","vroot-adapter/sftpfs/sftpfs.go")],
 note="Every request on the wire is recorded and can be made to fail; exhaustive for one fault at each of the first 24 requests of every call.")
prop("P03", "Shared SFTP handles take concurrent calls without losing or repeating any",
 "Goroutines may share one handle of the SFTP adapter: whatever the schedule, the calls give what one sequential order of them gives. Appends do not overwrite each other, pages of a directory are handed out once each, a call that runs against Close either happens or is refused. No schedule deadlocks, panics or leaves two accesses to the same memory unordered.",
 ["schedules","histories"],
 "All schedules, up to a preemption bound, of pairs and triples of calls on a shared file or directory handle.",
 "No test shares a handle.",
 ["vroot-adapter/sftpfs/sftpfs.go"], [("append offset","vroot-adapter/sftpfs/sftpfs.go"),("directory cursor","vroot-adapter/sftpfs/sftpfs.go")],
 technique="exhaustive exploration of the real code's schedules up to a preemption bound (controlled scheduler), judged by linearizability against a reference model",
 note="Preemption at every statement of the adapter; every schedule is judged by the race detector on the code's own locks.")
