"""Which harnesses decide which property, with their case splits and stated bounds."""


def H(name, **kw):
    return dict(name=name, **kw)


PROPS = {
 'P06': dict(harnesses=[H('read_small', par=[4,4,5,4], filter=lambda c: (c[0] != 3 or c[1] == 3) and (c[3] != 3 or c[2] in (1, 2)) and (c[3] < 2 or c[0] == 0 or c[1] == 3), bounds='block size 8; files of up to two full blocks (each raw, compressed or hole) with no tail, a fragment tail (raw or compressed), a short last block or a short hole; basic and extended inodes; embedding offset 0 and 13; any content, position up to size+2, length up to 30')]),
}
NOT_APPLICABLE = {
 'P35': 'sample/enclose_io_win32.c needs the Windows headers and types (windows.h, winternl.h, io.h, direct.h, 16-bit wide characters); none are installed here, so the file cannot be compiled, and stand-in headers written from memory would decide something else than the real code',
}
PROPS['P16'] = dict(harnesses=[H('path', par=[8, 4], par_thorough=[10, 4], bounds='paths of up to 7 (thorough 9) arbitrary non-NUL bytes against a tree of three levels; lookup, stat, open+read, follow')])
PROPS['P17'] = dict(harnesses=[H('links', par=[11, 2, 4], par_thorough=[11, 2, 7], bounds='one link with any non-NUL target of up to 4 (thorough 7) bytes, in the root or in a subdirectory, together with fixed relative, absolute and chained links; 11 paths through them; stat, lstat, open, readlink, opendir, follow')])
PROPS['P01'] = dict(harnesses=[H('open_image', par=[3], bounds='every 32-bit magic, 16-bit version and compressor; embedding offsets 0..17; any three failing allocations among the first 64')])
PROPS['P02'] = dict(harnesses=[H('attrs', par=[16, 4], bounds='all 14 inode types and every unknown type number; every value of every stored field; the inode at every distance 0..72 before a metadata block boundary; each of the two blocks raw or compressed')])
PROPS['P03'] = dict(harnesses=[H('md', par=[8, 4, 2], defs=['-DINO_CAP=17000'], bounds='streams of two full blocks and a partial one, each raw or compressed; embedding offsets 0 and 7; starts within 7 (thorough 40) bytes of every boundary and of the ends, lengths 0..10 (43) and around a whole block; every content of the bytes at the boundaries')])
PROPS['P05'] = dict(harnesses=[H('tables', par=[3, 8, 2, 2], bounds='tables of three metadata blocks (4102 ids, 1030 fragments, 2054 exports) and of more than 64 KiB (65535 ids, 4102 fragments, 8198 exports), each block raw or compressed; indexes within 2 of every block boundary and the five at either end (thorough: every index of the small tables); every entry value; embedding offsets 0 and 11')])
PROPS['P08'] = dict(harnesses=[H('fd_seek', par=[9, 4], par_thorough=[27, 4], filter=lambda c: c[0] % 3 == 0 or c[1] == 0, bounds='sequences of 2 (thorough 3) seeks with every 64-bit offset and every 32-bit directive, reads of every length up to 12 and every negative length, reads that meet a corrupted block, then a read to the end, on a file of two full and one short block')])
PROPS['P07'] = dict(harnesses=[H('large', par=[5, 4, 3], filter_quick=lambda c: (c[0] == 4 and c[1] in (1, 3) and c[2] < 2) or (c[0] < 4 and (c[2] < 2 or c[1] in (0, 3))), bounds='block lists of 2045..4105 entries starting at 16 offsets (every alignment, near and across metadata boundaries), holes with stored blocks around every boundary, tail fragment or none; reads of 20 bytes within two blocks of every boundary and both ends; histories of up to 13 reads over ten indexed files with eight index slots')])
PROPS['P10'] = dict(harnesses=[H('dirlist', par=[4, 8], bounds='directories of up to three entries with arbitrary names of 1..3 bytes, inode number bases and deltas, inode positions and types, split over headers in every way, raw or compressed; three entries under two headers at every distance 0..63 before a metadata block boundary; 9..22 entries in groups of 1..8; names of up to 255 bytes')])
PROPS['P11'] = dict(harnesses=[H('lookup', par=[3, 7, 4], filter=lambda c: c[0] != 0 or c[1] > 2 or c[2] == 0, bounds='sorted directories of up to three entries with arbitrary names of 1..2 bytes in every header split, looked up by every name of 1..2 (thorough 3) bytes; eight entries that are prefixes and extensions of each other at every distance 0..83 before a block boundary, looked up by every name of up to 3 bytes; names of 250..256 bytes')])
PROPS['P12'] = dict(harnesses=[H('dirindex', par=[4, 4, 3], bounds='listings of 93 entries over three to four metadata blocks at four alignments, raw or partly compressed, with one to three index entries (first header of each block, or any header); every name of 1..3 bytes and stored names next to indexed ones with any byte value at the first, middle or last place; opening at every entry, at the end and at every offset from 16 before to 30 after an indexed header')])
PROPS['P13'] = dict(harnesses=[H('dirpos', par=[3, 4, 5], bounds='every sequence of 5 (thorough 8) operations of read, tell, seek, rewind and double read on directories of 0..3 entries; 9, 10, 11 and 25 entries read to any point, marked, read on, then 3 operations; 4 (thorough 7) operations on two streams of one directory')])
PROPS['P14'] = dict(harnesses=[H('scandir', par=[4, 5], bounds='directories of 0..4 entries with every selector outcome and every ranking by the comparison function; 16, 17, 33, 1024 and 1025 entries; any two failing allocations among the first 64; missing, non-directory and no-descriptor cases')])
PROPS['P15'] = dict(harnesses=[H('traverse', par=[4, 6, 4], bounds='every tree of up to 5 (thorough 6) nodes with every pruning decision; chains 1..19 deep; names and paths of lengths around 32, 64, 128, 256 and 512; starting at every directory and closing after every step')])
PROPS['P04'] = dict(harnesses=[H('caches', par=[5, 6], unreached=['bad data', 'bad metadata'], bounds='histories of 4 (thorough 6) accesses over five data blocks with one cache slot, of 5 (7) over five fragments with three slots, of up to 10 sequential and 3 arbitrary accesses over 13 metadata blocks with eight slots, of 4 (6) over two images of the same layout; arbitrary contents; three rounds over everything')])
PROPS['P26'] = dict(harnesses=[H('caches', par=[5, 6], defs=['-DBAD'], bounds='every subset of corrupted blocks among five data blocks, among five fragments and the fragment table, any two among the metadata blocks of inodes, directories and ids, and three per image among two images; histories of 4 (thorough 6) accesses, 3 for metadata')])
PROPS['P18'] = dict(harnesses=[H('bounds', par=[7, 8], bounds='two or three links with any of eight targets, and two links with any target of up to 4 characters of {/ . a b}; chains of 1..45 links; paths and targets of 250..5000 bytes, dense around 2048, alone and with parts before and behind; components of 200..2030 bytes in paths and targets; links with any stored size above 8192')])
PROPS['P20'] = dict(harnesses=[H('readlink', par=[6, 7], bounds='targets of 1..6 arbitrary bytes with every buffer size up to two more than needed; targets of 255..8200 bytes, also across metadata blocks, with sizes around; seven other inode types with arbitrary fields; two alias prefixes with targets around them, any one byte arbitrary; any 32-bit stored size with buffers of 1..6 and 2047..2050 bytes')])
PROPS['P17']['harnesses'].append(H('readlink', par=[5, 7], filter=lambda c: c[0] >= 3, unreached=['fits', 'too small', 'no link', 'any size'], bounds='two alias prefixes with targets around them, any one byte arbitrary'))
PROPS['P09'] = dict(harnesses=[H('fds', par=[4, 4, 4], filter_quick=lambda c: c[1] in (0, 2) and c[2] in (1, 2) and (c[0] == 1 or c[1] + 2 == 2 * c[2]), bounds='every sequence of 4 (thorough 5) operations of opening two files, a directory or a stream on two images, closing, reading, seeking and failing opens; numbers handed out in any order from three sets up to 63 (the table grows past 40) and one up to 1500 (it grows to more than ten times its size); every other 32-bit number tried in between')])
for _p, _n in ((21, 'three (thorough four) failing allocations'), (22, 'two (thorough three) failing allocations'), (23, 'two (thorough three) failing allocations')):
    PROPS['P%d' % _p] = dict(harnesses=[H('faults', par=[44, 3], filter=lambda c: c[1] < 2 or c[0] in (3, 4, 5, 6, 7, 12, 13, 17, 20, 21), defs=['-DP=%d' % _p], bounds='44 calls (stat, lstat, open, opendir, readdir, readlink, read, scandir, traversal, close, lookups by hand; on existing, missing and wrong objects, through links and loops) on a tree with compressed metadata, data and fragment blocks; caches cold and filled; %s anywhere, no descriptor left, the descriptor table growing, close failing' % _n)])
PROPS['P30'] = dict(harnesses=[H('hash', par=[3, 3, 4, 16], cost=1, filter=lambda c: c[0] == 0 or c[3] == 0, filter_quick=lambda c: (c[0] == 0 and c[1] != 1 and c[2] == 0) or (c[0] == 1 and (c[2] == 1 or c[1] == 0 and c[2] in (0, 2))) or c[0] == 2, bounds='every history of 4 (thorough 5) additions and removals with arbitrary 32-bit keys and value bytes, then a lookup of any key, from capacities 1, 2, 4 and value sizes 1, 4, 8, 12; 17 and 33 additions of repeating and colliding keys with arbitrary removals; two failing allocations anywhere in 9 additions; all capacities up to 9')])
PROPS['P31'] = dict(harnesses=[H('stack', par=[3, 4, 4], bounds='every history of 7 (thorough 9) pushes and pops with arbitrary values, element sizes 1, 8, 12, 48, initial capacities 0, 1, 2, 9; growth to 26 elements; one failing allocation anywhere; every 64-bit index out of range')])
PROPS['P24'] = dict(harnesses=[H('extract', par=[3, 8], defs=['-DP=24'], env=['env_file.c'], unreached=['long name', 'extracted', 'failed'], bounds='files of 0, 1, 5000, 16383, 16384, 16385, 24576 and 40000 bytes (raw, compressed, with tails), six temporary directories, with and without extension, through a link; every history of 5 (thorough 6) extractions of four paths on two images and cache clearings; every outcome of the random names 1..3 with up to three names taken')])
PROPS['P25'] = dict(harnesses=[H('extract', par=[3, 8], defs=['-DP=25'], env=['env_file.c'], unreached=['size', 'cleared', 'again', 'free name', 'no free name'], bounds='two (thorough three) failing allocations anywhere and no descriptor left; two (thorough three) failing file operations anywhere (open, every write, close) with a corrupted last block; missing objects, directories, dangling links, other types; temporary directories of 300 to 33000 characters')])

_S = dict(kind='sample', env=['env_file.c', 'env_sys.c'])
PROPS['P27'] = dict(harnesses=[H('enclose', par=[4, 16, 4, 3], filter=lambda c: c[0] == 0 or (c[0] == 1 and c[1] < 7 and c[2] < 3 and c[3] == 0) or (c[0] == 2 and c[1] < 6 and c[2] < 2 and c[3] == 0) or (c[0] == 3 and c[1] < 3 and c[2] == 0 and c[3] == 0), bounds='16 path calls on arbitrary names of 1..3 (thorough 4) bytes, the reserved prefix with any one byte changed or cut, the prefix with 1..3 (4) arbitrary bytes behind, names of 1990..4100 bytes; working directory outside, at and below the reserved directory; seven descriptor calls with every 32-bit number and argument, six stream calls; every system result', **_S)])
PROPS['P28'] = dict(harnesses=[H('cwd', par=[2, 4, 16], par_thorough=[3, 4, 16], filter=lambda c: c[1] == 0 or c[2] == 0, bounds='one or two (thorough three) changes: sixteen names, arbitrary names of 1..3 (4) bytes, the reserved prefix with 1..3 (4) arbitrary bytes, names of 2000..2049 bytes; every result of the system; buffers of 0..2, one less than needed, just enough and more, none; four relative names', **_S)])
PROPS['P29'] = dict(harnesses=[H('preadv', par=[3, 4], filter=lambda c: c[0] < 2 or c[1] == 0, bounds='a file of 20 arbitrary bytes in three blocks, the middle one possibly corrupted; every 64-bit offset, lengths 0..11, positions 0..24; vectors of 0..3 parts of 0..9 bytes (three parts: quick 0..4 bytes)', **_S)])
PROPS['P32'] = dict(harnesses=[H('threads', par=[81, 3], env=['env_file.c'], unreached=['new index', 'kept index'],  bounds='two threads, each opening and reading a file of blocks or a fragment, reading status, a link or a directory (and asking whose stream it is), following a link, walking and scanning the tree, missing a file, or extracting one; every schedule with two preemptions (thorough: three; between the longest operations one and two) at any lock operation, with forced switches; caches cold or warm; all accesses of the real code checked for data races'), H('threads', par=[3, 2, 2], cost=9, env=['env_file.c'], defs=['-DBIG', '-DWINDOW=30'], unreached=['small file', 'blocks', 'stat', 'link', 'list', 'missing', 'extracted', 'followed', 'tree'], bounds='two threads reading the ends of two files of 2060 blocks, with no or eight block indexes kept (one is discarded); one preemption at the first 30 lock operations or around the end of the first index')])
PROPS['P33'] = dict(harnesses=[H('workdir', par=[2, 3, 3, 2, 13], bounds='every history of 1..3 operations (quick: the third with two names only) of making a directory, making a file and changing directory over thirteen names (new, nested, two directories deep, existing, without parent, with dot-dot inside and out of the image), absolute and relative; the private directory failing to be made, to be registered, or memory failing', **_S)])
PROPS['P36'] = dict(harnesses=[H('damaged', par=[10, 4], defs=['-DVF_RO'], bounds='one damaged field at a time, with every value that names what is not there: id indexes, inode numbers, fragment indexes and offsets, blocks of every length up to two more than needed, positions in and of metadata blocks, listings, data blocks and tables, lengths of names and directories, a block size of zero; the image in memory that ends where it ends')])
# P22: the same calls, with the locks alone judged whenever the real code returns
def _L(name, **kw):
    return H(name, locks=True, **kw)
_B = 'as for the property of that harness; no lock held at any return, none taken twice or released unheld'
PROPS['P22']['harnesses'] += [
 _L('large', par=[5, 4, 3], filter=lambda c: c[0] == 4 and c[1] == 3 and c[2] == 0 or c[0] < 4 and c[1] == c[0] and c[2] == 0, bounds=_B),
 _L('caches', par=[5, 6], defs=['-DBAD'], filter=lambda c: c[1] == 0, bounds=_B),
 _L('extract', par=[3, 8], defs=['-DP=25'], env=['env_file.c'], bounds=_B),
 _L('tables', par=[3, 8, 2, 2], filter=lambda c: c[1] in (0, 7) and c[2] == 0, bounds=_B),
 _L('fds', par=[4, 4, 4], filter=lambda c: c[0] == 1 and c[1] in (0, 2), bounds=_B),
 _L('workdir', par=[2, 3, 3, 2, 13], filter=lambda c: c[0] == 1 or c[1] < 2 and c[2] == 0, **_S, bounds=_B),
 _L('enclose', par=[4, 16, 4, 3], filter=lambda c: c[0] == 2 and c[1] < 6 and c[2] < 2 and c[3] == 0 or c[0] == 1 and c[1] < 7 and c[2] < 3 and c[3] == 0 or c[0] == 0 and c[2] == 1, **_S, bounds=_B),
 _L('cwd', par=[2, 4, 16], filter=lambda c: c[1] == 0 and c[2] < 4, **_S, bounds=_B),
 _L('preadv', par=[3, 4], filter=lambda c: c[0] == 0 or c[1] == 0, **_S, bounds=_B),
]
# the sample layer's own error paths; full caches, block indexes, growing traversals
for _p in (21, 22, 23):
    PROPS['P%d' % _p]['harnesses'].append(H('faults2', par=[3, 3, 12], defs=['-DP=%d' % _p], cost=3, filter=lambda c: c[0] == 0 and c[1] < 2 or c[0] == 1 and c[2] < 3 or c[0] == 2 and c[2] == 0, bounds='three reads or status calls in any combination on six files with every cache empty or full; reads through the block index of files of 2100 blocks with no, one or eight indexes kept; traversals seven wide, twelve deep and with names of 39 characters; two (thorough three) failing allocations anywhere'))
    PROPS['P%d' % _p]['harnesses'].append(H('encl_faults', par=[33, 2, 2], defs=['-DP=%d' % _p], filter=(lambda c: c[2] == 0) if _p == 22 else None, bounds='33 calls of the sample I/O layer (on existing, missing and wrong objects), absolute and relative; caches cold and filled; two (thorough three) failing allocations anywhere, no descriptor left', **_S))
# listings that run into a corrupted block
for _p in (23, 26):
    PROPS['P%d' % _p]['harnesses'].append(H('dirfault', par=[7, 8], bounds='a directory of four entries under two headers at every distance 0..79 before a metadata block boundary, either block corrupted: readdir (with positions kept and the block sound again afterwards), scandir, traversal, every present and five missing names, the internal entry points from the start and from every entry'))
# sizes of real images
for _p in (6, 7, 8):
    PROPS['P%02d' % _p]['harnesses'].append(H('big', par=[3, 4], bounds='blocks of 128 KiB and 1 MiB, data and fragments more than 64 KiB into the image and the fragment block, stored sizes beyond 16 bits, a file of 4100 MiB with stored blocks and holes around the 32-bit boundaries; reads of 1..333333 bytes around block boundaries, 64 KiB, 2 GiB, 4 GiB and the end; any bytes at the ends of blocks and around 64 KiB'))
for _p in (10, 11, 12, 13, 14, 15):
    PROPS['P%02d' % _p]['harnesses'].append(H('bigdir', par=[6, 4], unreached={10: ['opened', 'found', 'missing', 'scanned', 'subdirectory', 'traversed'], 11: ['opened', 'listed', 'scanned', 'subdirectory', 'traversed'], 12: ['listed', 'scanned', 'subdirectory', 'traversed'], 13: ['opened', 'found', 'missing', 'scanned', 'subdirectory', 'traversed'], 14: ['opened', 'listed', 'found', 'missing', 'subdirectory', 'traversed'], 15: ['opened', 'listed', 'found', 'missing', 'scanned']}[_p], filter=lambda c, p=_p: c[0] in {10: (0, 5), 11: (1,), 12: (1, 3), 13: (0, 5), 14: (2,), 15: (4,)}[p], bounds='a listing of 600 entries and 77 KiB, under headers of up to 256 entries, 66000 bytes into its table, inodes 69000 bytes into theirs, numbers beyond 65536, blocks raw or partly compressed, with and without an index of one entry per block, and a subdirectory; listed with a remembered place, looked up with any byte changed, opened at offsets, scanned, traversed'))
# objects and tables that run into a corrupted block
for _p in (23, 26):
    PROPS['P%d' % _p]['harnesses'].append(H('metafault', par=[7, 8], bounds='inodes, block lists of 5 and 4996 entries, link targets and directory indexes starting 0..55 bytes before a metadata block boundary with either block corrupted; fragment table, fragment block and id table corrupted; a directory on the way; each call twice, and again with the block sound'))
# P34: the same calls on an image in memory that can only be read
def _R(name, **kw):
    return H(name, ro=True, bounds='as for the property of that harness; any write to the image, also one that is undone', **kw)
PROPS['P34'] = dict(harnesses=[
 _R('read_small', par=[4, 4, 5, 4], filter=lambda c: (c[0] != 3 or c[1] == 3) and (c[3] != 3 or c[2] in (1, 2)) and (c[3] < 2 or c[0] == 0 or c[1] == 3)),
 _R('open_image', par=[3]),
 _R('attrs', par=[16, 4], filter=lambda c: c[1] in (0, 3)),
 _R('md', par=[8, 4, 2], defs=['-DINO_CAP=17000'], filter=lambda c: c[1] in (0, 3)),
 _R('tables', par=[3, 8, 2, 2], filter=lambda c: c[1] in (0, 7) and c[2] == 0),
 _R('big', par=[3, 4]),
 _R('large', par=[5, 4, 3], filter=lambda c: c[0] < 4 and c[2] == 0),
 _R('dirlist', par=[4, 8], filter=lambda c: c[0] > 1 or c[1] < 4),
 _R('bigdir', par=[6, 4], filter=lambda c: c[1] == 1),
 _R('lookup', par=[3, 7, 4], filter=lambda c: c[0] == 2 or c[1] in (1, 2) and c[2] == 0),
 _R('dirindex', par=[4, 4, 3], filter=lambda c: c[2] == 0),
 _R('dirpos', par=[3, 4, 5], filter=lambda c: c[2] == 0),
 _R('scandir', par=[4, 5], filter=lambda c: c[1] == 1),
 _R('traverse', par=[4, 6, 4], filter=lambda c: c[1] == 2 and c[2] == 0),
 _R('links', par=[11, 2, 4], filter=lambda c: c[2] == 1),
 _R('readlink', par=[6, 7], filter=lambda c: c[1] < 3),
 _R('metafault', par=[7, 8], filter=lambda c: c[1] in (0, 5)),
 _R('faults', par=[44, 3], defs=['-DP=21'], filter=lambda c: c[1] == 0),
 _R('extract', par=[3, 8], defs=['-DP=24'], env=['env_file.c'], filter=lambda c: c[0] == 0),
 _R('enclose', par=[4, 16, 4, 3], filter=lambda c: c[0] == 0 and c[2] == 1, **_S),
])
