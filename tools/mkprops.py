#!/usr/bin/env python3
# Source of properties.jsonl (kept as a table so that ids, statements and anchors stay in step).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

p('P01', 'Opening accepts exactly supported images and names the reason otherwise',
  'Opening an image succeeds exactly when its magic is squashfs, its version is 4.0 and its compressor is zlib; otherwise the result names the first of bad format, bad version, bad compressor that applies, and the process goes on. An image may be embedded at any byte offset of a larger buffer and behaves the same there. An opening that fails, also for lack of memory, holds no memory afterwards, and closing an image returns all memory it took.',
  ['inputs', 'configurations', 'fault_sequences'], 'every value of the magic, version, compressor fields, every embedding offset, every subset of failing allocations',
  'The tests open one valid fixture at offset 0 and never fail an allocation.',
  ['src/fs.c', 'src/util.c', 'src/decompress.c', 'src/cache.c', 'src/table.c'],
  [('superblock checks', 'src/fs.c:sqfs_init'), ('messages and result', 'src/util.c:sqfs_open_image'), ('codec selection', 'src/decompress.c:sqfs_decompressor_get'), ('cache set-up', 'src/cache.c:sqfs_cache_init')])

p('P02', 'Attributes reported for every inode type are those stored in the image',
  'For each of the 14 inode types, stat, lstat and fstat report the stored permission bits with the right file type, the stored link count (1 for basic regular files), modification time, size for regular files and symbolic links (64-bit for extended files) and device numbers for devices; owner and group are looked up by inode, not by stat. fstat on a descriptor agrees with stat on the path it was opened with. An unknown inode type is an error, never a success with invented attributes.',
  ['inputs'], 'every inode type and every value of every stored field, and every position of the inode relative to a metadata block boundary (sampled offsets around the boundary)',
  'The fixture holds a handful of inodes with fixed values; most types, 64-bit sizes and device numbers never occur.',
  ['src/fs.c', 'src/private.c', 'src/stat.c', 'src/nonstd-stat.c', 'src/nonstd-makedev.c'],
  [('inode decoding', 'src/fs.c:sqfs_inode_get'), ('attribute filling', 'src/private.c:sqfs_stat'), ('type to mode', 'src/nonstd-stat.c:sqfs_mode'), ('path based calls', 'src/stat.c')])

p('P03', 'Metadata reads do not depend on block boundaries, storage or embedding',
  'Reading any stretch of a metadata stream yields exactly the stream bytes and leaves the cursor just behind them, wherever the stretch lies relative to the 8 KiB blocks, whether each block is stored raw or compressed, and wherever the image is embedded. Skipping a stretch moves the cursor as reading it would. Splitting a read in two gives the same bytes and final cursor as one read.',
  ['inputs', 'configurations'], 'every content, start and length around block boundaries, every choice of raw or compressed per block, embedding offsets',
  'The fixture metadata fits into one block per table, so no boundary is ever crossed.',
  ['src/fs.c', 'src/cache.c'], [('block walk', 'src/fs.c:sqfs_md_read'), ('block load', 'src/fs.c:sqfs_md_block_read'), ('header decoding', 'src/fs.c:sqfs_md_header'), ('block cache', 'src/fs.c:sqfs_md_cache')])

p('P04', 'Block caches never change what is read',
  'Whatever the history of earlier accesses, opens and evictions, every access returns the data of the block it names: never the data of another block, of another cache, or of a block already released. A cache holds at most its stated number of blocks, releases each evicted block once, and destroying it releases the rest.',
  ['histories'], 'every access history of bounded length over more blocks than the caches hold, including failed accesses',
  'The tests touch fewer blocks than the caches hold and read nearly everything once, in order.',
  ['src/cache.c', 'src/fs.c', 'src/file.c'], [('lookup and eviction', 'src/cache.c:sqfs_cache_get/sqfs_cache_add/sqfs_cache_destroy'), ('users', 'src/fs.c:sqfs_md_cache/sqfs_data_cache, src/file.c:sqfs_blockidx_add')])

p('P05', 'Id, fragment and export tables yield the stored entry for every index',
  'Looking up a user or group id by index, a fragment by index (observed through the file tail stored there) or an inode by number yields exactly the entry stored for that index, also for tables that span several metadata blocks and for any embedding offset. Images without an export table report that lookups by number are unsupported.',
  ['inputs', 'configurations'], 'every index around each block boundary and at both ends of tables of three metadata blocks and of more than 64 KiB; every entry value',
  'The fixture has one id, at most one fragment and an export table of one block, and no test looks up by number.',
  ['src/table.c', 'src/fs.c', 'src/file.c'], [('indexed lookup', 'src/table.c:sqfs_table_get'), ('ids and exports', 'src/fs.c:sqfs_id_get/sqfs_export_inode'), ('fragments', 'src/file.c:sqfs_frag_entry/sqfs_frag_block')])

p('P06', 'Reading a file returns exactly its bytes at every offset and length',
  'A read at any position returns min(requested, bytes left) bytes, equal to the file content at that position, and writes nothing else into the buffer; at or past the end of the file, and for a zero length, it returns 0. This holds for blocks stored raw, compressed or as holes, for tails in fragments or short last blocks, for files smaller than a block, for basic and extended inodes, and at any embedding offset.',
  ['inputs', 'configurations'], 'every position and length, every content, every mix of block kinds for files of up to three blocks with a tail, plus indexed files of over 2048 blocks',
  'The tests read two small files front to back with fixed lengths.',
  ['src/file.c', 'src/fd.c', 'src/fs.c'], [('range read', 'src/file.c:sqfs_read_range'), ('block list', 'src/file.c:sqfs_blocklist_next'), ('tail', 'src/file.c:sqfs_frag_block'), ('descriptor read', 'src/fd.c:squash_read')])

p('P07', 'Random access in files with long block lists returns the right bytes',
  'In a file whose block list spans several metadata blocks, a read at any position returns the same bytes as reading the file from the start, whatever the alignment of the block list in its metadata block and whatever other large files were read before. A position in the tail fragment is found also when the block list ends exactly at a metadata block boundary.',
  ['inputs', 'histories'], 'positions around every metadata block boundary of the block list, at the ends and in the tail; block list alignments around the boundaries; several files sharing the index cache',
  'No file of the fixture has more than a few blocks; the index path is never entered.',
  ['src/file.c'], [('index construction', 'src/file.c:sqfs_blockidx_add'), ('index use', 'src/file.c:sqfs_blockidx_blocklist'), ('index cache', 'src/cache.c')])

p('P08', 'The file position follows the documented seek and read rules',
  'After any sequence of seeks and reads the position equals what the documented rules give: seek-set and seek-current set or move it, seek-end moves it to the file size, a successful read advances it by its result, and a failed call leaves it alone. A seek returns the new position; a seek to a negative position or with an unknown directive fails with -1 and EINVAL.',
  ['histories', 'inputs'], 'every sequence of two (thorough three) seeks with reads between, with every 64-bit offset and directive',
  'The tests perform three fixed seeks.',
  ['src/fd.c', 'src/file.c'], [('seek', 'src/fd.c:squash_lseek'), ('read advance', 'src/fd.c:squash_read')])

p('P09', 'Open descriptors are independent and closed ones are invalid',
  'Every descriptor returned by open or opendir refers to the object it was opened for until it is closed, with its own position, whatever numbers the system hands out and whatever other descriptors are opened, read, moved or closed meanwhile. Every other number, negative ones included, is refused by close, read, seek and fstat with -1 and EBADF and without any other effect. Closing returns the descriptor to the system.',
  ['histories', 'configurations'], 'every sequence of bounded length of opens and closes with the system returning any unused number, and every 32-bit number used as a descriptor',
  'The tests keep at most two descriptors open, with the numbers the shell happens to give.',
  ['src/fd.c', 'src/stat.c', 'src/dirent.c'], [('table growth and insertion', 'src/fd.c:squash_open_inner'), ('removal', 'src/fd.c:squash_close'), ('validity check', 'include/squash.h:SQUASH_VALID_VFD')])

p('P10', 'Listing a directory yields every entry once, in order, with its metadata',
  'Reading a directory to the end yields each stored entry exactly once, in stored order, with its name, inode number and type, and then end-of-directory each time it is called again. This holds across several headers, negative inode number deltas, all entry types, names of any legal length and listings that cross metadata blocks, and for empty directories.',
  ['inputs', 'configurations'], 'every name byte, delta and type; every split of up to three entries (twelve in the growth case) over headers; listings crossing a block boundary',
  'The tests list one small directory with a single header.',
  ['src/dir.c', 'src/dirent.c'], [('entry decoding', 'src/dir.c:sqfs_dir_next'), ('stream', 'src/dirent.c:squash_readdir'), ('opening', 'src/dirent.c:squash_opendir_inner')])

p('P11', 'A name is found exactly when the directory has it, and names the right inode',
  'Looking up a name in a directory succeeds exactly when an entry with that very name exists, and then yields that entry; proper prefixes and extensions of existing names are not found. The result does not depend on where in the directory the entry lies or on how the entries are split over headers.',
  ['inputs'], 'every name of bounded length against every sorted directory of bounded size',
  'The tests look up a few fixed names.',
  ['src/dir.c'], [('ordered search', 'src/dir.c:sqfs_dir_lookup'), ('component walk', 'src/dir.c:sqfs_lookup_path_inner')])

p('P12', 'The directory index changes speed only, never results',
  'For a directory with an index, every lookup and every opening at a position give the same entry or the same error as without the index, for names before, between, equal to and after the indexed names. Opening a directory at the offset of any entry resumes with exactly that entry, and an offset that is no entry boundary is refused.',
  ['inputs', 'configurations'], 'every looked-up name of bounded length, every entry position, indexes of up to three entries over listings of several metadata blocks',
  'The fixture has no indexed directory.',
  ['src/dir.c'], [('fast forward', 'src/dir.c:sqfs_dir_ff_header/sqfs_dir_ff_name_f/sqfs_dir_ff_offset')])

p('P13', 'Directory positions can be saved, restored and rewound',
  'After seekdir to a position obtained from telldir on the same stream, readdir returns what it returned after that telldir; after rewinddir it starts again at the first entry. This holds for any interleaving of reads, tells, seeks and rewinds, also across end-of-directory.',
  ['histories'], 'every sequence of bounded length of readdir, telldir, seekdir and rewinddir on directories of bounded size',
  'The tests call each once in one fixed order.',
  ['src/dirent.c'], [('stream position', 'src/dirent.c:squash_readdir/squash_telldir/squash_seekdir/squash_rewinddir')])

p('P14', 'scandir returns exactly the selected entries, sorted, owned by the caller',
  'scandir returns the number of entries the selector accepts (all without one) and an array with a copy of each, ordered by the comparison function if given and otherwise in directory order; the array and its elements can be freed by the caller, also when it is empty. The directory it opened is closed again, and on failure it returns -1 and leaves nothing allocated.',
  ['inputs', 'configurations', 'fault_sequences'], 'every selector outcome and order over directories of bounded size, empty results, directories beyond 1024 entries, every subset of failing allocations',
  'The tests call it once, with one selector, on a small directory.',
  ['src/scandir.c', 'src/dirent.c'], [('collection', 'src/scandir.c:squash_scandir')])

p('P15', 'Traversal visits every descendant once, in order, with path and end marks',
  'Traversing a directory yields every descendant exactly once in depth-first directory order, with its path relative to the start, and after the content of each directory exactly one end marker carrying that directory path; then it is finished. Pruning after a directory skips exactly its content and its end marker. Closing at any point releases everything.',
  ['inputs', 'histories'], 'every tree shape of bounded size and every pruning decision; names of any bounded length; closing at every point',
  'No test traverses the tree.',
  ['src/traverse.c', 'src/stack.c'], [('state machine', 'src/traverse.c:sqfs_traverse_next'), ('path buffer', 'src/traverse.c:sqfs_traverse_path_add'), ('level stack', 'src/stack.c')])

p('P16', 'Equivalent spellings of a path name the same object',
  'Repeated and trailing slashes, a missing leading slash and dot components do not change what a path names; a dot-dot component removes the component before it. A path that climbs above the root, or names something that does not exist, fails with ENOENT. The caller string is never modified.',
  ['inputs'], 'every path of bounded length over an alphabet of slash, dot and name characters, against a fixed nested tree',
  'The tests use a dozen fixed spellings.',
  ['src/dir.c'], [('dot-dot removal', 'src/dir.c:clear_dot_dot'), ('component walk', 'src/dir.c:sqfs_lookup_path_inner')])

p('P17', 'Symbolic links are followed to the object POSIX rules name',
  'stat and open follow links in every position; lstat and readlink follow all but the last component; absolute targets start at the image root and relative ones at the directory of the link, and chains of links are followed to the end; dot-dot components of targets are taken as in plain paths, removing the component before them. A link to a missing object fails with ENOENT. An alias prefix registered for the root is stripped from link targets.',
  ['inputs', 'configurations'], 'every link target of bounded length over an alphabet of slash, dot and name characters, chains of two links, links in the middle and at the end of the path',
  'The tests follow four fixed links.',
  ['src/dir.c', 'src/readlink.c', 'src/stat.c', 'src/fd.c'], [('link following', 'src/dir.c:squash_follow_link'), ('policy', 'src/dir.c:sqfs_lookup_path_inner'), ('alias', 'src/readlink.c:squash_readlink_inode')])

p('P18', 'Following links always ends, within bounds, whatever the links say',
  'Resolving any path through any links ends with success or an error: cyclic and overlong chains give ELOOP or another error instead of running on. No path or target length makes the library write or read outside its buffers; what is too long is refused with an error.',
  ['inputs', 'configurations'], 'link cycles of every length up to three including self-nested ones, paths and targets of every length around the internal limits',
  'No test has a cyclic link or a path longer than a few dozen bytes.',
  ['src/dir.c', 'src/readlink.c'], [('chain bound', 'src/dir.c:squash_follow_link'), ('path copies', 'src/dir.c:sqfs_lookup_path_inner')])

p('P20', 'readlink returns the target within the buffer it was given',
  'readlink on a link returns the stored target and its length when the buffer can hold it with a terminator; otherwise it fails with -1 and an errno. It never writes outside the buffer, for any buffer size including 0 and 1, and on anything that is not a link it fails with -1.',
  ['inputs'], 'every target content and length up to the bound, every buffer size from 0 to beyond the length, every inode type',
  'The tests use one link and two sizes.',
  ['src/readlink.c', 'src/fs.c'], [('path based', 'src/readlink.c:squash_readlink_inode'), ('inode based', 'src/fs.c:sqfs_readlink')])

p('P21', 'A failed call leaves no trace and the library usable',
  'When a call fails, for lack of memory or descriptors or because the object is missing or of the wrong kind, everything it acquired is released: memory, descriptors and locks. Objects opened before stay as they were, and the same call made again without the fault succeeds (a traversal that failed is started anew).',
  ['fault_sequences', 'inputs'], 'every subset of failing allocations and failing descriptor duplication in open, opendir, readdir, read, stat, scandir and traversal and in the calls of the sample I/O layer',
  'No test injects a fault.',
  ['src/fd.c', 'src/dirent.c', 'src/scandir.c', 'src/dir.c', 'src/traverse.c', 'src/fs.c'], [('error paths', 'src/fd.c:squash_open_inner, src/dirent.c:squash_opendir_inner'), ('sample layer', 'sample/enclose_io_unix.c')])

p('P22', 'Every call returns with all locks released and never waits for itself',
  'Each public call, successful or failing, returns with every lock released that it took, never takes a lock it already holds and never releases one it does not hold. Calls into images and the descriptor table from the same thread therefore never block.',
  ['inputs', 'fault_sequences'], 'every public call with every subset of failing allocations, corrupted blocks and failing system calls',
  'The tests run only successful paths.',
  ['src/mutex.c', 'src/fd.c', 'src/fs.c', 'src/file.c', 'src/dirent.c'], [('cache locks', 'src/fs.c:sqfs_md_cache/sqfs_data_cache'), ('table lock', 'src/fd.c'), ('index lock', 'src/file.c:sqfs_blockidx_blocklist')])

p('P23', 'Failures are reported as documented, successes never as failures',
  'Every failing call returns -1 or NULL and leaves errno non-zero: ENOENT for missing objects, EBADF for invalid descriptors, ENOMEM or another code when resources run out. A call on an existing object of the right kind without faults never fails.',
  ['inputs', 'fault_sequences'], 'every public path and descriptor call over existing and missing objects of every kind, with errno initially zero',
  'The tests check errno in three places.',
  ['src/fd.c', 'src/stat.c', 'src/dirent.c', 'src/readlink.c', 'src/scandir.c'], [('error exits', 'src/fd.c, src/stat.c, src/dirent.c, src/readlink.c')])

p('P24', 'Extraction produces a faithful temporary copy and remembers it',
  'Extracting a regular file returns the path of a new temporary file with exactly the file content, whatever its size relative to the copy buffer, and with the extension requested when it is first extracted. Extracting the same path of the same image again returns the same file without a new copy, also when the caller has reused its path string; different paths or images are never confused. Clearing the cache removes every extracted file and forgets it; no descriptor stays open.',
  ['inputs', 'histories'], 'file sizes around the copy buffer, every short history of extractions and clearings over several paths and two images',
  'The tests never extract (the sample does not either).',
  ['src/extract.c'], [('copy loop', 'src/extract.c:squash_uncached_extract'), ('cache', 'src/extract.c:squash_extract_cache_find/squash_extract_cache_insert'), ('clearing', 'src/extract.c:squash_extract_clear_cache')])

p('P25', 'A failed extraction reports failure and leaves nothing behind',
  'If any step of an extraction fails (opening, creating, reading, writing or closing the temporary file, or memory), the call returns NULL, nothing is cached, and neither a temporary file nor an open descriptor, stream or memory stays behind; a later attempt without the fault succeeds. A path that is returned always names a complete copy.',
  ['fault_sequences'], 'every single fault and pair of faults at every step of an extraction',
  'No test injects a fault.',
  ['src/extract.c'], [('error paths', 'src/extract.c:squash_uncached_extract')])

p('P26', 'A corrupted block fails every time and spoils nothing else',
  'Reading data or metadata from a block that cannot be decompressed fails, every time it is tried, without crashing. Everything stored in other blocks stays readable before and after, and closing the image still releases everything once.',
  ['histories', 'inputs'], 'every choice of corrupted blocks among data, fragment and metadata blocks and every access order of bounded length',
  'The fixture has no corrupted block.',
  ['src/fs.c', 'src/cache.c', 'src/file.c'], [('failed load', 'src/fs.c:sqfs_md_cache/sqfs_data_cache'), ('codec result', 'src/decompress.c')])

p('P27', 'Enclosed calls go to the image exactly for paths inside it',
  'In the sample I/O layer a call is served from the image exactly when its path lies under the reserved prefix, or is relative while the working directory is inside the image; every other call reaches the system unchanged, with the same arguments, and its result is returned. A descriptor or stream goes to the library exactly when the library issued it.',
  ['inputs', 'configurations'], 'every path of bounded length around the reserved prefix, working directory inside or outside, every call of the layer',
  'The sample test makes three calls.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h'], [('prefix test', 'sample/enclose_io_common.h:enclose_io_is_path'), ('expansion', 'sample/enclose_io_common.h:ENCLOSE_IO_GEN_EXPANDED_NAME'), ('dispatch', 'sample/enclose_io_unix.c')])

p('P28', 'The enclosed working directory is the one last changed to',
  'After a successful change into a directory of the image, the reported working directory is the path of that directory, as given or composed, without trailing slash, and relative paths resolve against it; a failed change leaves it as it was, and a successful change to an outside directory leaves the image. Reporting it never writes outside the given buffer and fails when it does not fit.',
  ['histories', 'inputs'], 'every path of bounded length and every buffer size; sequences of two changes',
  'The sample test changes directory twice.',
  ['sample/enclose_io_unix.c'], [('change', 'sample/enclose_io_unix.c:enclose_io_chdir'), ('report', 'sample/enclose_io_unix.c:enclose_io_getcwd')])

p('P29', 'Positional and vectored reads of the I/O layer match plain reads',
  'A positional read on an enclosed descriptor returns what a seek and read at that offset would, and leaves the descriptor position as it was, also when it fails. A vectored read returns the concatenation of the data that the plain reads of its parts would return, skipping empty parts, and advances the position by its result.',
  ['inputs', 'fault_sequences'], 'every offset and length, vectors of up to three parts of any length including zero, with and without a failing block',
  'Neither call is tested.',
  ['sample/enclose_io_unix.c'], [('positional', 'sample/enclose_io_unix.c:enclose_io_pread'), ('vectored', 'sample/enclose_io_unix.c:enclose_io_readv')])

p('P30', 'The hash map returns the stored value of every present key and only those',
  'After any sequence of additions and removals, looking up a key yields the value most recently added and not removed for it, and nothing for any other key, across growth of the table. A failed addition for lack of memory changes nothing, and destroying the map releases everything.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of bounded length of add, remove and get over every 32-bit key, starting from every small capacity, with every subset of failing allocations',
  'The map has no test.',
  ['src/hash.c'], [('insertion and growth', 'src/hash.c:sqfs_hash_add/sqfs_hash_double'), ('removal', 'src/hash.c:sqfs_hash_remove')])

p('P31', 'The stack is last-in first-out and frees each element once',
  'After any sequence of pushes and pops, top and indexed access yield the elements pushed and not popped, in order, also across growth, and out-of-range access fails. Each element is handed to the release function exactly once, when popped or when the stack is destroyed, and a push that fails for lack of memory changes nothing.',
  ['histories', 'fault_sequences'], 'every sequence of bounded length of push, pop, top and at, every initial capacity up to a bound, every subset of failing allocations',
  'The stack has no test.',
  ['src/stack.c'], [('growth', 'src/stack.c:sqfs_stack_grow'), ('pop and destroy', 'src/stack.c:sqfs_stack_pop/sqfs_stack_destroy')])

p('P33', 'What is made inside the image lives in a private directory',
  'In the sample I/O layer, directories and files made under the reserved prefix are made in one private directory in the temporary directory, closed to other users; afterwards stat, lstat, access, open, opendir and chdir find them under the name they were given, with the kind and mode asked for, and nothing else. Making a directory where something is fails. The files of the image stay as they were, no other name of the system is touched, a private directory that cannot be made is reported and leaves no lock, memory or directory, and everything made is removed at exit.',
  ['histories', 'inputs', 'fault_sequences'], 'every history of up to three makings and directory changes over new, nested, existing and orphan names, with dot-dot inside and out of the image, absolute and relative, each failure of making the private directory; without symbolic links in the path, and without listing the private directory',
  'The sample test makes one directory.',
  ['sample/enclose_io_unix.c', 'sample/enclose_io_common.h', 'src/util.c'], [('making', 'sample/enclose_io_unix.c:enclose_io_mkdir/enclose_io_mkdir_consult'), ('finding', 'sample/enclose_io_common.h:ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN'), ('private directory', 'sample/enclose_io_unix.c:enclose_io_mkdir_workdir')])

p('P32', 'Concurrent use of one image by several threads gives sequential results',
  'Threads that open, read, position, close, stat, list, resolve links and extract on the same image at the same time, each with descriptors of its own, obtain the results they would obtain alone, under every interleaving: no two unordered accesses to the same memory of which one writes, no use of released memory, no thread waiting for ever, no lock left held, and a file extracted by both is extracted once.',
  ['schedules'], 'two threads performing one operation each (seven kinds, and reads through the block index), caches cold, warm or full, every schedule at lock operations with a bounded number of preemptions, every access checked for a missing order',
  'The tests are single-threaded.',
  ['src/fs.c', 'src/file.c', 'src/fd.c', 'src/mutex.c'], [('cache locking', 'src/fs.c:sqfs_md_cache/sqfs_data_cache'), ('index locking', 'src/file.c:sqfs_blockidx_blocklist'), ('descriptor table', 'src/fd.c')])

p('P34', 'An image is only ever read, and not beyond its end',
  'No call writes to the memory an image lies in, not even to restore it afterwards, and none reads beyond the end of the image. Every call, successful or failing, therefore works on an image in memory that can only be read and that ends at an inaccessible page, as images compiled into a program or mapped from a file do.',
  ['inputs', 'histories', 'configurations'], 'every call of the library and the path calls of the I/O layer, over the images, inputs and failures of the other properties: all inode types, block kinds, tables, listings, indexes, links, corrupted blocks, failing allocations',
  'The tests use one image, whose unusual parts are never touched; a write that restores the bytes, or one next to the image, goes unnoticed.',
  ['src/fs.c', 'src/table.c', 'src/file.c', 'src/dir.c', 'src/readlink.c'], [('blocks used in place', 'src/fs.c:sqfs_block_read'), ('superblock used in place', 'src/fs.c:sqfs_init'), ('tables used in place', 'src/table.c:sqfs_table_init/sqfs_table_get')])

p('P35', 'Enclosed Windows calls go to the image exactly for paths inside it',
  'In the Windows sample I/O layer a call is served from the image exactly when its path lies under the reserved prefix, or is relative while the working directory is inside the image, and every other call reaches the system unchanged. A handle goes to the library exactly when the library issued it.',
  ['inputs', 'histories'], 'every path, handle and history of calls, narrow and wide',
  'No test of this layer is built on this platform.',
  ['sample/enclose_io_win32.c'], [('dispatch', 'sample/enclose_io_win32.c')])

p('P36', 'What an image names but does not hold is refused',
  'An index, number, offset or length in an image, or passed in by the caller, may name something the image does not hold: an id, inode number or fragment behind the end of its table, a position behind the end of its metadata block, a tail behind the end of its fragment, a data block shorter than its part of the file, a block, list or table outside the image, a name longer than names can be, a block size of zero. Then each call that needs it fails with an error, a read leaves the position of the descriptor, and nothing outside the image is read and nothing written outside the buffers the call was given. What does not depend on the damaged field stays readable.',
  ['inputs', 'faults'], 'every value of one damaged index, number, position or length (16, 32 or 64 bits as stored) that names something absent, raw and compressed, basic and extended inodes; repeated calls, and a sound file beside it',
  'The tests use one well-formed image.',
  ['src/table.c', 'src/fs.c', 'src/file.c', 'src/dir.c', 'src/cache.c'], [('tables', 'src/table.c:sqfs_table_get'), ('positions', 'src/fs.c:sqfs_in_image/sqfs_md_read'), ('short blocks', 'src/file.c:sqfs_frag_block/sqfs_read_range'), ('names', 'src/dir.c:sqfs_dir_next/sqfs_dir_ff_name_f')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
