"""The properties and the harness runs deciding each of them. gen.py derives properties.jsonl and MANIFEST.json from this file."""
COMMON = [
 "Checksums of bytes that contain symbolic values are modelled as a collision-free function of the content (equal to CRC-32 on concrete content); the crc crate itself is trusted.",
 "64-bit little-endian target, optimised LLVM IR of the crate with overflow checks on; memory for data that exists on the device can be allocated.",
 "Random draws are arbitrary but differ from each other and from every guid already present.",
 "Devices implement Read/Write/Seek as std documents it; the model device is a byte array with a symbolic length, a symbolic position and injected failures where stated.",
 "Block size is 512 and 4096, each a separate run; log output is compiled out as in the default build of the crate.",
]
LIB, HDR, BLD, PRT, MBR, TYP, DSK = 'src/lib.rs', 'src/header/mod.rs', 'src/header/builder.rs', 'src/partition.rs', 'src/mbr.rs', 'src/partition_types.rs', 'src/disk.rs'
CHECKS = {}
def P(pid, title, statement, over, quant, why, files, mech, observe, bounds, runs, note, assumes=()):
    CHECKS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, bounds=bounds, runs=runs, note=note, assumes=list(assumes))
# cases that take long are left to the thorough tier
SLOW = {'h_add': [8, 54, 70, 86, 262, 372, 374, 518, 774, 4102], 'h_add_at': [8, 262, 518, 774], 'h_count': [29, 61, 93], 'h_crash': [8742, 9254, 34, 530, 1058, 3090, 7186, 2578, 2082, 6674], 'h_free': [8, 520, 774, 776], 'h_history': [0, 12, 14, 28, 36, 42, 52, 58, 9218, 14338] + [16384 + 512 * k for k in (3, 5, 6, 7, 8, 9, 11)], 'h_name_read': [8, 9, 12, 13], 'h_next_id': [8], 'h_open_any': [5, 6, 9, 24, 131], 'h_ops_any': [66, 259, 322, 515, 578, 771, 1027, 1090, 1538, 1858, 3586, 3587], 'h_readonly': [20, 532, 1028, 1044]}
def R(entry, cases, reach=(), thorough=(), **opts):
    t = [c for c in thorough if c in SLOW.get(entry, ())]
    return dict(entry=entry, cases=list(dict.fromkeys(list(cases) + [c for c in thorough if c not in t])), reach=list(reach), thorough=t, opts=opts)

# ---- allocation ------------------------------------------------------------------------------
PRE = 'the table holds 0, 1, 2, 3 or 4 partitions with arbitrary 64-bit first and last blocks, on a freshly created disk of any size from 40 blocks to 2^60 bytes or on an opened disk with an arbitrary usable area'
ADD = [0, 1, 2, 4, 6, 0x74, 0x75, 256, 258, 260, 0x164, 512 + 2, 512 + 4, 768 + 4, 1024 + 4, 0x800 + 512 + 4, 0x800 + 768 + 2, 0x1000, 0x1000 + 2, 0x1000 + 4, 0x1000 + 258, (5 << 13), (6 << 13) + 256, (7 << 13) + 2, (7 << 13) + 260]
ADDT = [0x1000 + 6, 0x1000 + 260, 0x1000 + 514, 0x174, 8, 256 + 6, 256 + 0x12, 256 + 0x24, 0x36, 0x46, 0x56, 512 + 6, 768 + 6, 3, 5, 257 + 4, 0x176]
P('C01', 'Adding a partition by size never damages anything', 'A partition added by size lies wholly inside the usable area, shares no block with any partition in use (one that ends before it starts counts with its first block), and is exactly the requested size rounded up to whole blocks. It carries the requested name, type and flags and a freshly generated random guid, also when it takes the place of an unused entry. Every other partition and the header stay as they were, and a refused request changes nothing.',
  ['inputs', 'configurations'], 'every request size, flags and alignment; every device size; every table contents within the stated number of partitions', 'The tests add a few fixed sizes to fixed images; damage depends on the sizes, gaps, alignment remainders and 64-bit extremes of one particular layout.',
  [LIB], [('free-space search and placement', LIB)], ['result of adding', 'table and header of the disk object'],
  PRE + '; alignments none, 0, 1, 3, 8, 1000, 2048, any up to 255, any 64-bit value; names of 0 to 40 UTF-16 units, also the name and type of an existing partition; also tables whose partitions overlap and an unused entry at the lowest free id', [R('h_add', ADD, ['ok', 'full'], ADDT, skip='place:')],
  'Every value of size, flags, layout and candidate position within the bounds; more than 4 existing partitions are outside.')
P('C02', 'Placement picks the lowest aligned fit and misses none', 'Adding by size uses the lowest position that satisfies the requested alignment and has enough consecutive free blocks, and the lowest partition id that is free. The request is refused for lack of space only if no such position exists.',
  ['inputs', 'configurations'], 'every request size and alignment, every layout within the stated number of partitions, every candidate position', 'Completeness is a statement about all positions of a layout; the tests check one or two placements.',
  [LIB], [('first-fit over free runs with alignment offset', LIB)], ['first block of the added partition', 'error on refusal'],
  PRE + '; alignments none, 0, 1, 3, 8, 1000, 2048, any up to 255, any 64-bit value', [R('h_add', ADD, ['ok', 'full'], ADDT, skip='safe:')],
  'The candidate position is a universally quantified symbolic value, so lowest and complete are decided for all positions.')
P('C03', 'Adding at a fixed position is exact', 'A partition added at a given id and position covers exactly the requested blocks, and is accepted only if every one of them is usable and free and the id is not in use. A refusal names the reason that applies and leaves the disk as it was. Unused entries may be replaced; nothing else changes.',
  ['inputs', 'configurations'], 'every id, position, length and flags; every layout within the stated number of partitions', 'The tests request a handful of positions; the boundary cases lie at the ends of every free run and at 2^64.',
  [LIB], [('containment of the span in one free run', LIB)], ['result', 'table'], PRE + '; with and without an unused entry', [R('h_add_at', [0, 1, 2, 4, 6, 18, 256, 260, 516, 772, 1028, 0x800 + 516, 0x800 + 770, (5 << 13), (6 << 13) + 256, (7 << 13) + 2, (7 << 13) + 260], ['ok', 'full', 'taken', 'count'], [8, 3, 5, 258, 262, 20, 22, 276, 518, 774])],
  'All ids and 64-bit positions and lengths; the partition count cannot change (see C05).')
P('C04', 'Free space is reported exactly', 'A block is reported as free if and only if it lies in the usable area and in no partition in use, also when partitions overlap, lie outside the usable area, have ids beyond the partition count, or end before they start (then only their first block counts as used). The reported runs are non-empty, ascending, disjoint and maximal.',
  ['inputs', 'configurations'], 'every layout within the stated number of partitions; every block number', 'The tests compare a few fixed layouts.', [LIB], [('sweep over sorted used sections', LIB)], ['list of free runs'],
  PRE + '; well-formed and arbitrary (overlapping, out of range) tables', [R('h_free', [0, 1, 2, 4, 6, 18, 256, 260, 516, 518, 772, 1026, 1028, 1030, 0x800 + 516, 0x800 + 772], ['done'], [8, 3, 5, 7, 258, 262, 22, 276, 520, 774, 776])],
  'The block number is symbolic: the equivalence is decided for every block.')
P('C05', 'The partition count only changes with permission', 'Without permission, adding or replacing partitions never changes the partition count or the usable area: a request that needs more entries is refused and changes nothing. With permission the count grows to what is needed and never shrinks, both headers agree on it, and the usable area gives way by no more than the larger table needs. A partition that was in the usable area stays in it.',
  ['inputs', 'configurations'], 'every requested id or table size around the limits, on created disks and disks opened through either header, of every size, with 4, 128, 130, 160, 200, 258 and 515 entries, full and nearly empty', 'The tests grow one disk once.', [LIB, HDR, BLD], [('partition count guard', LIB), ('header rebuild', BLD)], ['header fields', 'table', 'error'],
  'new tables of 2, 4 and 126..201 partitions; ids 1..5, 127..131, 160, 161, 200, 201, 1000; with 258 and 515 entries, tables and ids around these; device sizes symbolic up to 2^50 blocks', [R('h_count', [0, 2, 4, 8, 10, 12] + [x + 16 * k for x in (0, 2, 4, 8, 10, 12) for k in (1, 2, 3, 4, 5, 6, 7)] + [128 + x + 16 * k for x in (2, 4, 10, 12) for k in (0, 2, 4)] + [256 + 16 * k + x for k in (0, 3) for x in (0, 8)] + [512 + 16 * k + x for k in (2, 6) for x in (0, 2, 4, 8, 10, 12)], ['ok', 'refused', 'grown'], [x + 1 + 16 * k for x in (0, 2, 4, 8, 10, 12) for k in (0, 1, 2, 3, 4, 5, 6)])],
  'Known finding KF1: growing the table takes blocks at the edges of the usable area although partitions occupy them (enshrined by an existing test).')
P('C06', 'A failed change leaves the disk object as it was', 'If adding a partition or replacing the table fails, because of a device error or because the enlarged layout does not fit, the partitions, both headers and the guid of the disk object are what they were before the call. A device error is never swallowed.',
  ['fault_sequences', 'inputs'], 'every position of one failing device access; every id or table that does not fit', 'The tests inject no faults.', [LIB], [('rollback of the table', LIB)], ['disk object after the error'],
  'one failing access at any index below 60; ids up to 2^32-1; tables of 140 partitions; created and opened disks of any size', [R('h_failed', [0, 2, 4, 6, 8, 16, 18, 20, 22, 24, 34, 36, 40, 50, 52, 64 + 34, 64 + 36, 64 + 2], ['ok', 'err'], [1, 3, 5, 7, 9, 17, 19, 21, 23, 25])], 'The failing access is a symbolic index, so every access of the operation is covered.')
# ---- layouts and headers ----------------------------------------------------------------------
P('C07', 'A created disk has a standard, complete layout', 'A disk can be created exactly on devices with room for the MBR, two headers, two tables of 128 entries and one usable block. It then has the primary header at block 1 and the backup header at the last whole block, and the usable area is everything between the two tables. It has the given guid and an empty table, and nothing is written.',
  ['inputs', 'configurations'], 'every device length up to 2^62 bytes, whole blocks or not, every device position', 'The tests create disks of three or four sizes.', [LIB, BLD, HDR], [('default header layout', BLD), ('position of the backup', HDR)], ['headers of the disk object'],
  'both block sizes, with and without a writable backup', [R('h_create', [0, 1, 2, 3], ['ok', 'refused'])], 'Decided for every device length.')
P('C08', 'Header layouts never overlap and keep what was asked', 'Whenever a header layout is built, MBR, headers and tables are disjoint and the usable area between them is not empty; the entry count is what was asked but at least 128, and usable bounds that leave enough room are kept. It is refused only if the layout does not fit below the backup header. Rebuilding from an existing well-formed header of either copy keeps positions, usable area, guid and table shape.',
  ['inputs'], 'every backup position, entry count, entry size and requested usable bounds', 'The tests build four layouts; overflow of the array size and order of the bounds need extreme values.', [BLD], [('size and order checks', BLD)], ['built header'],
  'entry count and entry size each arbitrary with the other one of 1, 128, 1000, 4096, 2^32-1; rebuilt headers with 128 and 200 entries', [R('h_builder', range(64), ['ok', 'refused']), R('h_rebuild', [0, 1, 4, 5], ['ok'])], 'All 64-bit positions; products of two unknown 32-bit factors are covered with one factor from a list.')
P('C09', 'Headers are encoded as the format says', 'A header is written to its own block only, as the 92 specified little-endian bytes with correct checksums of the header and of the table it points to, followed by zeros up to the end of the block. It is refused, writing nothing, only if it is on the wrong side of its alternate. Reading it back gives an equal header and leaves the device where it was positioned.',
  ['inputs'], 'every value of every header field, every content of a table entry', 'The tests compare two fixed headers.', [HDR], [('header encoding', HDR), ('checksum of header and table', HDR)], ['bytes written'],
  'tables of 0, 4, 128 and 129 entries; positions up to 2^40', [R('h_encode', range(16), ['ok', 'wrong', 'decoded'])], 'Every header field is symbolic.', ['The header object names the standard signature and a reserved field of zero.'])
P('C10', 'Only valid headers are accepted', 'A header block is accepted if and only if it carries the signature and its stored checksum is the checksum of its 92 bytes; all fields are then decoded as the format says. A wrong signature and a wrong checksum are told apart. Reading writes nothing.',
  ['inputs'], 'every content of the 92 header bytes and every stored checksum', 'The tests decode a few images.', [HDR], [('signature and checksum test', HDR)], ['result of reading a header'], 'each signature byte arbitrary in turn, all eight arbitrary ASCII', [R('h_accept', range(20), ['ok', 'sig', 'crc'])], 'Every header byte is symbolic.', ['Signatures with several non-ASCII bytes at once are not explored.'])
# ---- entries ----------------------------------------------------------------------------------
P('C11', 'Partition entries follow the format exactly', 'Entry i is written at the table start plus i entry sizes as mixed-endian guids, little-endian block numbers and flags and a UTF-16LE name, padded with zeros to the entry size; reading decodes the same fields and numbers it i + 1. Zeroing a range of entries writes zeros over exactly those entries. A table is accepted only with the right checksum, entry size 128 and all its bytes on the device; exactly its non-zero entries appear.',
  ['inputs'], 'every value of every entry field, index, table position, checksum difference and device length', 'The tests use one image with a few entries.', [PRT], [('entry encoding', PRT), ('table decoding', PRT)], ['bytes written', 'decoded partitions'],
  'entry sizes 128, 129, 256, 512 when writing; tables of 0 to 5, 65, 128, 130 and 200 entries when reading; positions up to 2^64 (writing) and 2^54 (reading)',
  [R('h_entry_write', range(8), ['ok', 'refused']), R('h_entry_read', range(8), ['ok']), R('h_zero_entries', range(16), ['ok', 'refused']), R('h_table_read', range(16), ['ok', 'refused'])], 'All field values symbolic.')
P('C12', 'Partition names survive as far as they fit', 'A name is stored as UTF-16 and read back equal, cut to the longest prefix of whole characters that fits 36 units, and never spills into other fields. Arbitrary units on a disk are decoded as the text up to the first NUL with unpaired surrogates replaced. No character is ever split.',
  ['inputs'], 'every pair of characters at the start, in the middle and across the limit of a name; every pair of UTF-16 units', 'The tests use short ASCII names.', [PRT], [('name encoding', PRT), ('name decoding', PRT)], ['name after reading'],
  'two arbitrary characters after 0, 5, 33, 34, 35 or 36 others; two (thorough: three) arbitrary units at positions 0, 10, 34', [R('h_name', range(12), ['ok', 'cut', 'whole']), R('h_name_read', range(6), ['ok'], range(8, 14))], 'Names with more than two non-ASCII characters are outside.')
# ---- saving -----------------------------------------------------------------------------------
SRC = 'tables of 0 to 5 partitions in non-contiguous slots, also with ids above 128, with arbitrary blocks, flags and guids; created disks and opened disks where both, only the backup or only the primary header is valid; 5, 128 and 200 entries, one table of 260 partitions; a valid backup that is older than the primary; with and without an unused entry; arbitrary device size, position and old content of the tables'
FEW = 8192 + 16
OLD = 32768 + 16
W_T = [OLD + 4, OLD + 3, OLD + 256 + 2, OLD + 8192 + 2, 10, 64 + 11, 256 + 16 + 10, 256 + 32 + 10, FEW + 5, FEW + 16 + 2, FEW + 32 + 2, 3, 5, 8, 16 + 2, 16 + 6, 16 + 8, 17 + 6, 32 + 5, 32 + 6, 32 + 8, 48 + 5, 48 + 8, 64 + 6, 256 + 32 + 4, 256 + 48 + 4, 256 + 16 + 8, 256 + 64 + 16 + 6]
P('C13', 'A saved table is read back unchanged', 'Opening a disk after saving it yields the same guid, and the same partitions in use with the same fields in the same order, numbered from 1. Saving keeps the table in memory, the headers of the disk object are those on the disk, and if the primary header is then lost, the backup alone yields the same table.',
  ['inputs', 'configurations'], 'every partition content, guid, device size and usable area', 'The tests save and reopen one or two fixed tables.', [LIB, PRT, HDR], [('saving', LIB), ('opening', LIB)], ['reopened disk'], SRC,
  [R('h_roundtrip', [0, 1, 2, 4, 16 + 4, 32 + 4, 48 + 4, 16 + 5, 64 + 4, 256 + 16 + 2, FEW + 2], ['saved', 'opened', 'backup'], [6, 80 + 4, 256 + 16 + 4, FEW + 4] + W_T), R('h_many', [0, 1, 2, 3], ['saved', 'opened'])], 'At most 5 partitions, and 260 of which the first, some in the middle and the last are symbolic; every field symbolic except type (one symbolic kind) and name (concrete).')
P('C14', 'Both copies on the disk agree and nothing stale stays', 'After saving, primary and backup headers are valid, point at each other and describe the same usable area, guid and table shape; both tables are byte-for-byte identical and match the checksums in the headers. All partitions in use fill the first entries in id order, every other entry is zero whatever was there before. Reserved header bytes are zero.',
  ['inputs', 'configurations'], 'every partition content, device size, usable area and old medium content', 'The tests compare a few bytes of fixed images.', [LIB, PRT, HDR], [('table and header writes', LIB)], ['bytes of the medium'], SRC, [R('h_raw', [0, 1, 2, 4, 6, 16 + 4, 32 + 4, 48 + 4, 16 + 5, 64 + 4, 80 + 4, 256 + 16 + 4, FEW + 2], ['done'], W_T + [FEW + 4])], 'Compares the raw image with an independent encoding of the format.')
P('C15', 'Saving writes metadata blocks only', 'Saving never writes the MBR, the usable area or anything behind the backup header: only blocks between the MBR and the usable area and between the usable area and the end of the backup header. The device never grows, and the tables stay inside these areas.',
  ['inputs', 'configurations'], 'every device size, usable area and partition content', 'The tests do not look at the blocks they do not expect to change.', [LIB, PRT, HDR], [('positions of tables and headers', BLD)], ['writes reaching the device'], SRC, [R('h_footprint', [0, 1, 2, 4, 6, 16 + 4, 32 + 4, 48 + 4, 16 + 5, 64 + 4, 80 + 4, 256 + 16 + 4, FEW + 2, FEW + 4], ['saved'], W_T)], 'Every single write call is checked.')
P('C16', 'A read-only backup is left alone', 'With a read-only backup, saving updates only the front of the device: the backup header and table on the medium and in the disk object stay as they were, and the saved table is found through the primary header.',
  ['inputs', 'configurations'], 'every device size, usable area and partition content', 'No test combines this option with saving.', [LIB], [('backup skipped when configured', LIB)], ['writes reaching the device', 'reopened disk'], 'created disks and disks opened through either header, 0 to 3 partitions', [R('h_footprint', [128 + x for x in (0, 4, 16 + 4, 32 + 4, 48 + 4, 64 + 4, 256 + 16 + 2, 17 + 2)], ['saved'], [128 + x for x in (1, 2, 6, 16 + 6, 32 + 6)]), R('h_roundtrip', [128 + 4, 128 + 16 + 4, 128 + 32 + 4], ['saved', 'opened'], [128 + 48 + 4, 128 + 6, 128 + 16 + 5])], 'As C13 and C15.')
P('C17', 'Nothing is written before saving, or to read-only disks', 'Creating, opening, querying and changing a disk object never writes to or flushes the device; only saving does. A disk that was opened, created or switched to be read-only refuses to be saved and writes nothing.',
  ['inputs', 'programs'], 'every operation with arbitrary arguments on created and opened disks', 'The tests only see that changes arrive, not that nothing else does.', [LIB], [('writable flag', LIB)], ['write and flush calls reaching the device'], 'one partition; one arbitrary operation of each kind; disks created and opened through either header', [R('h_readonly', [2 + 512 * i for i in range(6)] + [18 + 512 * i for i in range(6)] + [34 + 2560, 50 + 2560], ['ro', 'ro2', 'ro3', 'ops'], [4 + 512 * i for i in range(6)] + [20 + 512 * i for i in range(6)] + [3 + 512 * i for i in range(6)])], 'Write and flush calls are counted by the model device.')
# ---- faults, crashes --------------------------------------------------------------------------
P('C18', 'Device errors while saving are always reported', 'Saving reports success only if every device access succeeded and everything written was flushed afterwards; it fails only if an access failed. The table in memory survives the failure, and saving again once the device works repairs the disk completely.',
  ['fault_sequences'], 'every index of a failing device access, transient or permanent', 'The tests inject no faults.', [LIB, HDR, PRT], [('error propagation', LIB), ('final flush', LIB)], ['result of saving', 'reopened disk'], 'one failing access at any index below 200 (all accesses of a save), transient or all later ones failing too, or one transfer that moves nothing; 0 or 1 partition', [R('h_fault', [0, 2, 16 + 2, 32 + 2, 48 + 2, 512 + 2, 128 + 2, 128 + 18, 128 + 34, 256 + 18, 1024 + 2, 1024 + 18, 1024 + 512 + 2, 1024 + 128 + 18], ['ok', 'err', 'write', 'healed'], [4, 1, 3, 17 + 2, 512 + 18, 512 + 34, 16 + 4, 640 + 18])], 'The failing access is a symbolic index.')
P('C19', 'Device errors while opening never yield a wrong disk', 'Opening or creating a disk on a device with a failing access either fails or yields the table, guid and usable area that are really on the medium. It never writes, and it fails only if an access failed.',
  ['fault_sequences'], 'every index of a failing device access, transient or permanent', 'The tests inject no faults.', [LIB, HDR, PRT], [('error propagation', HDR)], ['disk object'], 'one failing access, or one transfer that moves nothing, at any index below 400; one partition; both copies equal, or only one valid, or the checksum of the primary table wrong', [R('h_open_fault', [0, 512, 16, 528, 32, 48, 1040, 2064, 2065, 2096, 2576, 4096, 4096 + 16, 4096 + 512 + 16, 4096 + 32], ['ok', 'err'], [1, 17, 33, 513, 529, 544, 560, 1041])], 'The failing access is a symbolic index.')
P('C20', 'A crash while saving never shows a mixture', 'If saving is interrupted at any point, a later open shows either the complete old state or the complete new state (guid and partitions), or refuses the disk, but never a mixture of the two. This holds for any prefix of the writes, for a torn last write, and for any subset of the writes having reached the medium. Saving the disk that was found makes both copies whole again with the same content, and a second crash during that save never shows anything else.',
  ['crash_points'], 'every prefix of the writes, every tear of the last one at a 512-byte boundary, every subset of the writes; every old and new content', 'The tests never interrupt a save.', [LIB, HDR, PRT], [('write order', LIB), ('checksums over header and table', HDR)], ['disk opened after the crash'], '1 or 2 partitions, one removed, one added with arbitrary blocks, or 3 partitions of which two are removed and the last is changed, new guid; writes as issued by the code; at most two crashes, the second after any prefix of the writes', [R('h_crash', [8198, 9222, 8214, 9238, 8710, 8246, 9270, 8230, 2, 4, 18, 20, 1026, 1042, 514, 2050, 6146, 2098, 2562, 2066, 6658, 6194, 3074, 6162], ['old', 'new', 'whole'], [530, 34, 50, 3, 19, 1058, 7170, 3090, 7186, 2578, 2082, 6674, 2051, 8742, 9254, 8726, 8758])], 'Relies on the collision-free checksum model.', ['No two different headers or tables share a checksum.'])
P('C21', 'Short transfers and interruptions make no difference', 'A device that transfers fewer bytes than asked for, or interrupts calls, yields the same saved disk and the same opened disk as one that does not.',
  ['schedules', 'fault_sequences'], 'chunk sizes and interruption periods listed; every table content', 'In-memory devices of the tests always transfer everything.', [LIB, HDR, PRT], [('complete transfers', HDR)], ['reopened disk'], 'at most 7000, 512, 777, 16385, 91, 127, 50 or 300 bytes per write call and 1000, 512, 333, 4096, 50, 91, 127 or 64 per read call, every 2nd to 5th call interrupted; or one call at any index below 400 transfers one byte, half, all but one or fifty, and the next one is interrupted; one partition', [R('h_short', [2, 514, 1026, 1538, 18] + [2048 + 512 * k + 2 for k in range(4)] + [4096 + 512 * k + b for k in range(4) for b in (2, 18)] + [4099, 4115], ['done'], [3, 530, 1042, 1554, 34, 4, 17 + 514])], 'Four transfer patterns, all contents.')
# ---- opening ----------------------------------------------------------------------------------
P('C22', 'The right copy is used on opening', 'A disk opens if at least one header is valid (both, if so configured) and the table of the header in use matches its checksum; the primary is preferred, the backup at the last whole block is used if only it is valid. The validity of each header, and why a header is not valid, is reported truthfully, and guid, block size and partitions are those of the header in use. A table with a wrong checksum is never shown.',
  ['inputs', 'configurations'], 'every combination of valid and damaged copies with different contents, every device size', 'The tests damage one header of a fixed image.', [LIB, HDR], [('choice of the header', LIB)], ['opened disk'], 'both copies present with different guids, tables (with and without a partition) and arbitrary checksum differences of header and table, or damaged signatures, and arbitrary positions in the headers; devices grown so that an old backup remains at its old place; 5 and 128 entries', [R('h_policy', list(range(24)) + [32, 34, 36, 41, 48, 50, 64, 66, 68, 80, 97],  ['primary', 'backup', 'refused'], [x for x in range(24, 64) if x not in (32, 34, 36, 41, 48, 50)])], 'Damage is expressed as an arbitrary difference of the stored checksum, or a damaged signature.')
P('C23', 'Opening hostile media never panics', 'Opening a device of any length with any header fields and any entries either fails with an error or yields a disk whose table really lies on the device; it never panics, aborts or writes. The same holds for devices too small for a table.',
  ['inputs'], 'every device length and every value of the header fields and entry bytes', 'The tests open well-formed images and one truncated one.', [LIB, HDR, PRT], [('checked arithmetic and bounded reads', PRT)], ['result of opening'], '0 to 3, 128 or more than 2^30 entries claimed; two entries with arbitrary fields; through either header; arbitrary entry size', [R('h_open_tiny', [0, 1], ['refused']), R('h_open_any', [0, 2, 3, 4, 20, 8, 10, 130], ['ok', 'refused'], [1, 5, 6, 9, 11, 18, 19, 24, 131, 146])], 'Overflow checks are on, as in debug builds.')
P('C24', 'Operations on hostile disks never panic', 'On a disk opened from a medium with arbitrary header fields and entries, every query, change and save either works or returns an error, and never panics. A refused change keeps the table and the headers, and nothing but saving writes.',
  ['inputs', 'programs'], 'every value of the header fields and entries, every argument of the operations', 'The tests operate on well-formed disks.', [LIB, BLD, HDR, PRT], [('checked arithmetic', LIB)], ['result of the operation'], '1 or 2 claimed entries, one operation of each kind with arbitrary arguments after opening', [R('h_ops_any', [2 + 256 * i for i in range(8) if i != 6] + [36 + 256 * i for i in range(8) if i != 6] + [3650], ['open', 'refused'], [3586, 1538, 3587] + [3 + 256 * i for i in range(8) if i != 6] + [66 + 256 * i for i in range(8) if i != 6])], 'Overflow checks are on, as in debug builds.')
P('C25', 'A changed guid reaches both copies', 'A guid set on a disk object is reported at once, written only when saving, and then found in both headers and after reopening; asking for a new one generates a random version 4 guid. The partitions are kept.',
  ['inputs', 'configurations'], 'every old and new guid, device size and table content', 'A test sets one guid and only looks at memory.', [LIB, BLD], [('guid passed to both headers', LIB)], ['headers on the medium', 'reopened disk'], 'created disks and disks opened through either header, 0 to 2 partitions', [R('h_guid_update', [0, 2, 20, 36, 52], ['done'], [1, 3, 4, 21, 37, 53, 6])], 'All guids symbolic.')
# ---- MBR --------------------------------------------------------------------------------------
P('C26', 'The MBR is decoded and encoded without loss', 'An MBR block is accepted if and only if it has the length of a block and carries the boot signature; encoding it again gives back the same 512 bytes, and boot code, disk signature and the four partition records are the bytes at their specified positions. A new protective MBR has one record of type 0xEE from block 1 with the given size. Changing boot code, signature or a record in memory changes exactly its bytes and returns the previous record.',
  ['inputs'], 'every content of the 512 bytes and the values set; lengths from a list', 'The tests decode one or two sectors.', [MBR], [('field layout', MBR)], ['encoded bytes'], 'buffers of 14 lengths between 0 and 8192; devices of any length', [R('h_mbr_codec', range(4), ['ok', 'sig']), R('h_mbr_lengths', [0, 1], ['done']), R('h_mbr_set', [0, 2, 4, 6], ['done'])], 'All bytes symbolic.')
P('C27', 'MBR updates change exactly the named bytes', 'Overwriting writes the whole first 512 bytes, the conservative update only the partition records and the boot signature, and the boot code and disk signature updates only their own bytes; everything else on the device is preserved. Updates are flushed, and every update and read leaves the device at the position it had. They succeed if and only if every device access did.',
  ['inputs', 'fault_sequences'], 'every old and new content and device position; every index of a failing access', 'The tests compare one case and inject no faults.', [MBR], [('partial writes with saved position', MBR)], ['bytes of the device', 'result'], 'one failing access at any index below 30; transfers of at most 300 bytes in the fault runs', [R('h_mbr_update', range(0, 12, 2), ['done']), R('h_mbr_fault', list(range(0, 14, 2)) + [13], ['ok', 'err'])], 'All bytes symbolic.')
# ---- small parts ------------------------------------------------------------------------------
P('C28', 'Lengths and offsets are exact or an error', 'The length in blocks, the length in bytes and the byte offset of a partition are the exact mathematical values, and an error is returned only for an inverted range or a value that does not fit 64 bits. No input makes them wrap or panic.',
  ['inputs'], 'every first and last block', 'The tests use three ranges.', [PRT], [('checked arithmetic', PRT)], ['returned values'], 'both block sizes, no other bound', [R('h_part_arith', [0, 1], ['len', 'lenerr', 'bytes', 'start'])], 'Complete for the 64-bit inputs.')
P('C29', 'The detected alignment is the largest common one', 'For a table with partitions in use the detected alignment is the largest power of two up to 2048 that divides the first block of each of them; for an empty table it is 0. Unused entries do not matter.',
  ['inputs'], 'every first block of up to 4 partitions', 'The tests check two tables.', [LIB], [('exponent search', LIB)], ['returned value'], 'up to 4 partitions, with and without an unused entry', [R('h_align', [0, 2, 4, 6, 18, 16, 1028], ['some', 'empty'], [8, 20, 22, 1, 3])], 'All 64-bit first blocks.', ['A table with nothing but unused entries gives 2048, as the code does today; it is not covered by the statement.'])
P('C30', 'Partition types are resolved consistently', 'A type guid resolves to the known type with this guid and its operating system, or to an unknown type keeping the guid; only the nil guid counts as unused. Every known type is found by its name in any letter case, and the text of any guid in either letter case gives the same type as the guid itself; any other text is refused. Operating systems are found by exactly their listed names. The published guids of the known types do not change.',
  ['inputs'], 'every guid, every known name in every letter case, every text within the bounds', 'The tests look up a few types.', [TYP], [('table of types', TYP)], ['resolved type'], 'arbitrary guids; guids differing from a known one in one byte (first or last; thorough: any); texts of known guids and of guids with two arbitrary bytes; a guid text with one arbitrary character; any ASCII text of up to 5 characters (thorough: 7), alone, after a character outside ASCII or with 20 more; every known name with one arbitrary character; operating system names of up to 16 arbitrary characters', [R('h_type_of', [0, 1, 31], ['known', 'other'], range(3, 31, 2)), R('h_type_name', range(15), ['done']), R('h_type_text', range(6), ['ok']), R('h_type_any', [0, 1, 2, 3, 4, 5, 18, 34, 37] + [64 + 128 * k for k in range(15)], ['known', 'refused'], [6, 38, 7]), R('h_type_guid_text', [0, 1, 2], ['ok', 'refused']), R('h_os_name', [0, 4, 5, 6, 7, 9, 11, 12, 15], ['known', 'refused'], [10, 14, 16])], 'Reference table in the harness, taken from the published list as of the pinned commit.')
P('C31', 'Only supported block sizes are accepted', 'A number is accepted as a block size if and only if it is 512 or 4096, and all conversions give that number back. The default is 512.', ['inputs'], 'every 64-bit number', 'The tests check a few numbers.', [DSK], [('conversion', DSK)], ['result'], 'none', [R('h_blocks', [0], ['ok', 'err'])], 'Complete for the 64-bit input.')
P('C32', 'Removing affects exactly the named partition', 'Removing by id removes that partition and nothing else and reports the id if and only if it existed; removing by guid removes the first partition in id order with this guid. Taking the table returns all of it and leaves none. Header and device are not touched.',
  ['inputs'], 'every id and guid, tables with duplicate guids and unused entries', 'The tests remove one partition.', [LIB], [('map removal', LIB)], ['table', 'returned id'], '0 to 3 partitions, guids drawn from 3 values so that duplicates occur; with and without an unused entry', [R('h_remove', [0, 2, 4, 6, 36, 52, 68, 20, 128 + 4, 128 + 36, 128 + 52, 128 + 68], ['done'], [128 + 6, 128 + 38, 38, 54, 70, 22, 8, 40, 56, 72, 5, 37])], 'All ids and the colliding guids.')
P('C33', 'The next free id is the lowest one', 'The next partition id offered is the lowest id from 1 up to the partition count that is absent or unused, and there is none only if every id is in use.',
  ['inputs'], 'every set of up to 3 ids; tables of 127 and 128 partitions with any hole', 'The tests ask for it once or twice.', [LIB], [('scan over ids', LIB)], ['returned id'], '0 to 4 entries with arbitrary ids, used or not; full tables with at most one hole', [R('h_next_id', [0, 2, 4, 6, 10, 12], ['some', 'none'], [8, 1, 3, 5])], 'Ids symbolic.')
P('C34', 'Saving again changes nothing', 'Saving a disk a second time, at once or after reopening it, leaves every byte of the headers and tables as the first save wrote them and the headers of the disk object equal.',
  ['inputs', 'histories'], 'every partition content, device size and usable area', 'The tests save once.', [LIB, HDR, BLD], [('headers rebuilt from the current ones', LIB)], ['bytes of the medium'], 'created disks and disks opened through either header, 0 to 2 partitions; 5, 128 and 200 entries', [R('h_idem', [0, 2, 4, 20, 36, 52, FEW + 2], ['done'], [1, 3, 6, 21, 37, 53, 68, 256 + 20])], 'Byte-for-byte comparison of all metadata.')
P('C35', 'Saving repairs a disk with one damaged header', 'After a disk opened through its only valid header (either one) is saved, both copies are valid again, agree byte for byte in table, guid, usable area and table shape, and hold the partitions that were readable.',
  ['inputs', 'configurations'], 'every partition content, device size and usable area', 'The tests do not repair anything.', [LIB, BLD], [('other header rebuilt from the valid one', LIB)], ['bytes of the medium', 'reopened disk'], 'either header missing, 0 to 3 partitions, 128 and 200 entries', [R('h_raw', [32, 32 + 2, 48 + 2, 32 + 6, 33 + 2, 49 + 2, 256 + 32 + 2, 256 + 48 + 2, 32 + 64 + 2], ['done'], [48, 48 + 6, 256 + 32 + 6, 256 + 48 + 6, 33 + 4, 49 + 4]), R('h_roundtrip', [32 + 2, 48 + 2], ['saved', 'opened', 'backup'], [33 + 2, 49 + 2, 256 + 32 + 2])], 'As C13 and C14.')
P('C36', 'Copies and device changes keep the table', 'A copy of a disk object, or one moved to another device, has the same table, guid, headers, block size and settings; saving it writes that table to the new device only. Replacing the device returns the previous one, and changing a copy leaves the original alone.',
  ['inputs', 'programs'], 'every partition content, guid and device size', 'The tests move one disk to another device of fixed content.', [LIB], [('clone and device replacement', LIB)], ['both disk objects', 'both devices'], 'devices of equal size; one partition, with and without an unused entry; created disks and disks opened through either header', [R('h_copies', [64 + 2, 64 + 18, 64 + 514, 64 + 1026, 2, 514, 1026, 18, 530, 1042, 34, 50, 2048 + 2, 2048 + 18, 2048 + 514, 2048 + 530, 4096 + 18, 4096 + 530, 2048 + 128 + 18, 128 + 18, 128 + 530, 16384 + 2, 16384 + 18, 16384 + 514, 16384 + 1026], ['done'], [16384 + 530, 128 + 1042, 3, 515, 1027, 20, 532, 1044, 546, 562, 1058])], 'Every write goes through a model device.')
P('C37', 'A disk in a file is synced before success is reported', 'A disk opened or created by path opens the file for writing only if asked and never creates or truncates it; saving reports success only if every system call succeeded and everything written was synced afterwards. Interrupted system calls make no difference.',
  ['fault_sequences', 'inputs'], 'every index of a failing system call; every partition content', 'The tests cannot see syncing or make system calls fail.', [LIB], [('sync after flush', LIB)], ['system calls on the file'], 'one failing system call at any index below 400; one partition kept and one added; every second call interrupted', [R('h_file', [0, 1, 2, 4, 6, 8, 10, 18, 38, 64, 66, 70], ['saved', 'ro', 'err', 'reopened'], [3, 34, 5, 7, 19, 36, 20])], 'open, read, write, lseek, fsync, fdatasync and close are replaced by a model; std is executed symbolically down to them.', ['The file itself behaves as the model device.'])
P('C38', 'Path helpers do what they say', 'The helpers that read a header, a table or a disk from a path return what is on the primary copy, open the file read-only and write nothing. Writing a header by path writes exactly one standard header block for the size of the device with the given or a random guid and a right checksum over the table as it is. Writing one partition by path writes exactly that entry.',
  ['inputs'], 'every device size, usable area, guid and partition content', 'The tests call some of them on one image.', [HDR, PRT, DSK], [('path helpers', HDR)], ['result', 'bytes written'], 'both block sizes; two partitions; also a primary header with wrong checksum, wrong signature or wrong checksum of the table', [R('h_paths', list(range(10)) + [16, 17, 24, 25], ['done'])], 'System calls replaced by a model.')
P('C39', 'Any history of changes is saved faithfully', 'After any sequence of adding, adding at a position, removing by id or guid, replacing the table, changing the guid, copying the disk object and moving it to another device, with saves, failed saves and reopening in between, the partitions in use lie in the usable area and never overlap. Saving then writes no block of any partition, and reopening shows exactly the surviving partitions and the current guid.',
  ['histories', 'inputs'], 'every argument of each operation in the listed sequences, every device size', 'The tests run two or three fixed sequences.', [LIB, PRT, HDR], [('allocation and saving together', LIB)], ['table', 'writes reaching the device', 'reopened disk'], '32 sequences of three to five operations (for example AASRA, TMRA, TUQA, CACRS, TGSQ, AFSR), made of A add by size, T add at ids 1 to 4, R remove id 1 or 2, Q remove by guid, U replace the table, G new guid, C copy, M move to another device, S save and reopen, F a save meeting a device error at any index below 64; the first eight also with a save and reopen after the first operation; 24 more with W copy to a new object, s save without reopening and N an entry falling out of use; every sequence of A or T, any operation, any operation (after T not T, and F and A only partly; see the cases), and of A, one of Q, s, N (thorough: also R, U, G, C, W, M, S), any two operations', [R('h_history', [2, 6, 8, 18, 22, 24] + [x for x in range(32, 128, 2) if x not in (36, 42, 52, 58)] + [39, 67, 103] + list(range(128, 144, 2)) + list(range(160, 176, 2)) + list(range(192, 208, 2)) + [8192 + 512 * k + b for k in range(1, 14) for b in (0, 2) if (k, b) not in ((1, 2), (2, 2), (12, 2))] + [16384 + 512 * k for k in (4, 10, 13)], ['done', 'mid', 'failed'], [0, 12, 14, 28, 36, 42, 52, 58, 3, 7, 9, 71, 111, 9218, 14338] + [16384 + 512 * k for k in (3, 5, 6, 7, 8, 9, 11)])], 'Sequences of at most five operations with arbitrary arguments.')
P('C40', 'A resized device keeps its partitions', 'A disk opened on a device that has grown or shrunk since it was saved still shows its partitions. Replacing the table moves the backup to the new end, makes all new space usable, or is refused if the device is too small, keeping the table; saving writes metadata blocks of the new layout only, nothing at the old place of the backup or behind the end. On a device of unchanged size, opened through either header, replacing the table keeps the usable area. Saving without replacing the table on a grown device never writes partition contents and keeps the disk readable.',
  ['inputs', 'histories'], 'every old and new device size, usable area and partition content', 'The tests never resize a device.', [LIB, BLD, HDR], [('backup position from the device', HDR), ('usable area extended', LIB)], ['headers', 'reopened disk'], 'two partitions; sizes up to 2^50 blocks; shrunk devices still reach behind the old usable area by at least two blocks', [R('h_resized', [*range(8), 8, 9, 12, 13], ['updated', 'reopened'])], 'All sizes symbolic.')

P('C41', 'Options do what they say', 'Saving is allowed exactly on writable disks, both headers are required exactly if that was asked for, the backup is left out of saving exactly if it is read-only, and the partition count may grow exactly if permitted. Each option has no effect on another, the last setting wins whatever the order, and without settings all are off with blocks of 512 bytes.',
  ['configurations', 'inputs'], 'every combination of the options and of valid and invalid headers; every device size, usable area and partition content', 'The tests use a handful of combinations and one order.', [LIB], [('configuration', LIB)], ['result of opening, growing and saving', 'writes reaching the device'], 'four orders of setting the options, each set once or twice, one of them set to the opposite and back at the end, or only what differs from the defaults set; the device exchanged for one with the opposite permission and back; created and opened disks; one partition', [R('h_options', list(range(0, 32, 2)) + [32, 34, 36, 38, 33, 48, 49, 64, 65, 80, 81, 96, 97, 112, 113, 128, 129, 144, 256, 272], ['invalid', 'kept', 'grown', 'saved', 'ro'], range(1, 32, 2))], 'All sixteen combinations of the four switches and four of valid headers, decided symbolically.')
P('C42', 'Requests without meaning are refused', 'Adding a partition of no size or no length, or with id 0, and replacing the table by one containing id 0, always end in the documented panic, whatever the other arguments and the disk are.',
  ['inputs'], 'every value of the other arguments; every partition content and device size', 'The tests never pass such values.', [LIB], [('argument checks', LIB)], ['panic'], 'created disks and disks opened through either header, 0 to 2 partitions', [R('h_refuse', list(range(12)) + [72 + k for k in range(4)] + [136 + k for k in range(4)], ['start'], [4 * 4 + k for k in range(4)] + [4 * 54 + k for k in range(4)])], 'Panics are outcomes of the symbolic execution like returns.')
P('C43', 'Texts show the actual values', 'The text of a partition shows its name, both guids, first and last block and flags, the text of a header its guid and both checksums, and the text of a block size its number of bytes.',
  ['inputs'], 'every guid and every value of one number at a time', 'No test looks at these texts.', [PRT, HDR, DSK], [('formatting', PRT)], ['text'], 'one arbitrary number, the others fixed; names and types of several kinds', [R('h_texts', list(range(8)) + [8, 16, 24], ['done'])], 'Number and guid formatting of std and uuid are executed symbolically on both sides of the comparison.')
