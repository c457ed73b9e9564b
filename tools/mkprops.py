#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
PS = "bfffs-core/src/raid/prime_s.rs"
DC = "bfffs-core/src/raid/declust.rs"
p("D01", "Declustered layout is a one-to-one map between chunks and disk slots",
  "For every supported declustered array geometry, every data or parity chunk has exactly one location (disk, slot) with the disk inside the array, no two chunks share a location, and every slot of every disk holds a chunk. Translating a chunk to its location and back yields the same chunk, and translating a location to its chunk and back yields the same location. No supported geometry makes the translation panic or overflow.",
  ["inputs", "configurations"], "every geometry the constructor accepts (prime disk count up to 215, every stripe width and redundancy it allows), every chunk number and every parity index",
  "The tests enumerate a handful of small geometries (5-4-1, 7-4-2, ...) for a few repetitions; there are hundreds of thousands of geometries and 2^64 chunk numbers.",
  [PS, DC], [("direct and inverse layout functions", PS + ": id2loc, loc2id, new"), ("modular inverse and primality", PS + ": invmod, is_prime")],
  [("geometry", "n disks, k chunks per stripe, f parity", PS + ": PrimeS")], ["id2loc", "loc2id"])
p("D02", "The chunks of one stripe always lie on different disks",
  "In every supported declustered geometry, all data and parity chunks belonging to the same stripe are stored on pairwise different disks, so the loss of any number of disks up to the redundancy level costs a stripe at most that many chunks.",
  ["inputs", "configurations"], "every accepted geometry and every stripe",
  "Tests check a few geometries; the guarantee depends on number theory over all of them.",
  [PS], [("disk function", PS + ": id2loc")], (), ["id2loc"])
p("D03", "Iterating over chunks visits the same locations as direct lookup",
  "Iterating from any start chunk to any later end chunk yields every chunk in between exactly once, in order (each stripe's data chunks, then its parity chunks, then the next stripe), the end excluded, each paired with exactly the location that a direct lookup of that chunk gives; iteration then stays finished.",
  ["inputs", "configurations"], "every accepted geometry, every start and end chunk (data or parity), across every iteration and repetition roll-over",
  "Tests walk two repetitions of a few small geometries from a few starting points.",
  [PS], [("incremental iterator", PS + ": PrimeSIter::new, PrimeSIter::next")], (), ["iter"])
p("D04", "Sequential user writes are sequential and gap-free on every disk",
  "When chunks are visited in stripe order, each disk receives its slots in strictly increasing order with no slot skipped or repeated, starting from slot zero; the reported repetition length (data chunks, rows) matches this pattern exactly.",
  ["inputs", "configurations"], "every accepted geometry, every prefix of the sequential chunk order",
  "Sequential-only (zoned) disks need this for every geometry; tests look at a few.",
  [PS], [("sorted offsets", PS + ": offset_within_iteration"), ("row count", PS + ": depth, datachunks")], (), ["id2loc", "depth", "datachunks"])
CO = "bfffs-core/src/raid/codec.rs"; IS = "bfffs-isa-l/src/lib.rs"
p("E01", "Any loss of up to the redundancy level of columns is reconstructed exactly",
  "For every supported stripe width and redundancy, after parity is generated from any data, losing any set of columns no larger than the redundancy level leaves enough to reconstruct every lost data column byte for byte from the lowest surviving columns.",
  ["inputs", "configurations", "fault_sequences"], "every width/redundancy pair, every set of at most f lost columns (data, parity or mixed), every data content and length",
  "Tests try a few widths with random data; the erasure patterns and contents are exponentially many.",
  [CO, IS], [("decode-table construction", CO + ": mk_decode_tables, decode"), ("encode", CO + ": encode, new")], (), ["encode", "decode"])
p("E02", "All ways of computing parity give the same parity",
  "Parity computed from contiguous columns, from scatter/gather columns however each is segmented, and column by column in any order (each column once, starting from zeroed parity), is identical, and no byte outside the parity buffers is written.",
  ["inputs", "configurations"], "every width/redundancy, every content, every segmentation of each column into non-empty buffers, every column order",
  "Tests use one or two segmentations; segmentations are combinatorial.",
  [CO, "bfffs-core/src/raid/sgcursor.rs"], [("vectored encode", CO + ": encodev"), ("incremental encode", CO + ": encode_update")], (), ["encode", "encodev", "encode_update"])
SG = "bfffs-core/src/raid/sgcursor.rs"; UT = "bfffs-core/src/util.rs"
p("S01", "Walking a scatter/gather list yields exactly its bytes, in order",
  "Walking any scatter/gather list of non-empty buffers with any sequence of positive size limits yields non-empty pieces, each no longer than its limit, contiguous within one buffer and as long as the limit and the buffer allow; their concatenation is a prefix of the list's bytes, nothing is skipped or repeated, and the walk ends exactly when all bytes were yielded. The advertised length of the next piece is what an unlimited request would return.",
  ["inputs", "histories"], "every list shape, every sequence of limits",
  "Three example walks are tested; shapes and limit sequences are unbounded.",
  [SG], [("cursor advance", SG + ": SGCursor::next, peek_len")], (), ["SGCursor::next", "SGCursor::peek_len"])
p("S02", "Checksums do not depend on how data is split into buffers",
  "The checksum of a scatter/gather list is a function of the concatenated bytes alone: feeding the list, feeding any other segmentation of the same bytes, or feeding one contiguous buffer drives the hash with the same byte stream, every byte exactly once and in order, and with nothing else.",
  ["inputs"], "every list of buffers (including empty ones) and every hash function whose state depends only on the byte stream",
  "One six-byte example is tested.",
  [UT], [("list checksum", UT + ": checksum_sglist, checksum_iovec")], (), ["checksum_sglist"])
p("S03", "Padding to block size changes nothing but a zero tail",
  "Preparing a scatter/gather list for writing yields buffers whose lengths are all multiples of the block size and whose concatenation is the original bytes followed only by fewer than one block of zeros; a list already made of whole blocks is returned unchanged. The reported length of a list is the sum of its buffers, and a zero list of a requested positive length holds exactly that many zero bytes.",
  ["inputs"], "every list of buffers of any lengths, every requested length",
  "Only fixed examples are tested; padding has no unit test in this build.",
  [UT], [("copy and pad", UT + ": copy_and_pad_sglist"), ("zero list", UT + ": zero_sglist"), ("length", UT + ": sglist_len")], (), ["copy_and_pad_sglist", "zero_sglist", "sglist_len"])
p("S04", "A key range reported non-empty may contain a key; empty ones contain none",
  "A range of keys is reported empty exactly when its bounds exclude every key a dense ordering could offer: the start lies above the end, or they are equal and at least one of them is excluded. A range without a lower or upper bound is never reported empty.",
  ["inputs"], "every pair of included/excluded/absent bounds and every pair of bound values of an ordered type",
  "Tests cover six concrete ranges and never two excluded bounds.",
  [UT], [("emptiness test", UT + ": RangeBoundsExt::is_empty")], (), ["is_empty"])
LR = "bfffs-core/src/cache/lru.rs"; CM = "bfffs-core/src/cache/mod.rs"
p("C01", "The block cache never exceeds its capacity and its size is exact",
  "After any sequence of cache operations, the reported size is the sum of the sizes of the blocks currently retrievable, and it never exceeds the capacity. Inserting evicts only when the new block would not otherwise fit and no more than necessary, and dropping the cache leaves it empty and usable.",
  ["histories", "inputs"], "every sequence of insert, lookup, remove and drop with any keys and block sizes (each block no larger than the capacity)",
  "Unit tests run fixed sequences of at most a handful of calls.",
  [LR, CM], [("eviction and accounting", LR + ": insert, expire, remove, drop_cache")], [("store", "key to block map with recency links", LR + ": LruCache")], ["size", "insert", "remove"])
p("C02", "The cache returns what was stored and evicts least recently used first",
  "A lookup of a key returns the block stored under that key if it was inserted and not since removed, evicted or dropped, and nothing otherwise; a block removed is returned once and gone. Blocks leave by eviction strictly in least-recently-used order, where inserting a new block or looking one up counts as use and a passive peek or a duplicate insertion of an equal block does not disturb the others.",
  ["histories", "inputs"], "every sequence of operations on any keys",
  "The doubly linked recency list has many corner shapes (head, tail, single, middle); tests hit each once from one history.",
  [LR, CM], [("recency list", LR + ": get, insert, remove"), ("peek", LR + ": get_ref")], (), ["get", "get_ref", "insert", "remove"])
p("C03", "Concurrent lookups of an uncached block share one read and all complete",
  "When several tasks look up the same uncached block, the block is read once and every task receives it; if that read fails, every task completes with an error or retries and a later lookup reads again.",
  ["schedules", "fault_sequences"], "every interleaving of lookups, evictions, failures and cancellations",
  "Needs every interleaving and failure point; tests run success paths.",
  [CM], [("pending insertion list", CM + ": get_or_insert")], (), ["get_or_insert"])
WB = "bfffs-core/src/writeback/writeback.rs"
p("W01", "Write-back credit is neither created nor destroyed",
  "Splitting, halving, taking, merging or atomically splitting write-back credit preserves the total exactly; a split hands out what was asked for, or everything held if that is less, so an ordinary credit never goes negative, halving is as even as possible, taking leaves nothing, and comparisons against byte counts agree with the amount held. Non-zero credit cannot be discarded silently.",
  ["inputs", "histories", "schedules"], "every amount and every sequence of credit operations, including concurrent atomic splits",
  "Tests use a few small amounts; leaks of a single unit matter over long histories.",
  [WB], [("credit arithmetic", WB + ": Credit")], (), ["Credit"])
p("W02", "Dirty data never exceeds the write-back limit and repaid credit is reusable",
  "At every instant the credit lent out never exceeds the write-back capacity, each borrower receives exactly what it asked for, and once all credit is repaid (and any request abandoned while still waiting has had its turn) the full capacity can be borrowed again, whatever the interleaving of borrowers and repayers.",
  ["schedules", "histories", "inputs"], "every interleaving of borrow, repay, and abandonment by any number of threads, every amount",
  "Tests are single threaded with fixed amounts.",
  [WB], [("supply counter", WB + ": WriteBack::borrow, repay, awaken")], [("supply", "credit available plus waiter flag", WB + ": WriteBack")], ["borrow", "repay"])
p("W03", "No borrower waits for credit that is available, and waiters are served in order",
  "Waiting borrowers are granted credit in first-come order, a newcomer never overtakes a waiting one, and whenever no call is in progress the first waiter is still waiting only if the free credit is smaller than its request: no repayment or race loses a wake-up. A request abandoned while queued costs nothing once its turn comes.",
  ["schedules", "histories"], "every interleaving of borrow, repay and abandonment by any number of threads",
  "Lost wake-ups need an exact interleaving between the lock-free fast path and the waiter queue; tests are single threaded.",
  [WB], [("waiter queue and flag", WB + ": WriteBack::borrow, awaken, repay")], (), ["borrow", "repay"])
PR = "bfffs-core/src/property.rs"
p("T01", "Dataset properties survive printing and parsing",
  "Every settable dataset property value that can be displayed parses back to the same value when written in the documented name=value form, every property name and every source keyword (local, inherited, default, none) parses back to its meaning, every accepted alias means the same as its canonical form, and everything else is rejected with an error, never with a panic or a different property. Read-only properties cannot be set this way.",
  ["inputs"], "every property value, every input string",
  "Tests check a dozen strings.",
  [PR], [("parser", PR + ": FromStr"), ("printer", PR + ": Display")], (), ["Property::from_str", "Display"])
TY = "bfffs-core/src/types.rs"
p("T02", "On-disk identifiers keep their value, order and fixed width when serialized",
  "Block addresses, record numbers, transaction numbers and UUIDs serialize to exactly their declared fixed width and deserialize to the same value, for every value; block addresses are ordered first by cluster and then by block number; transaction arithmetic is exact whenever the result is representable, and the checked addition reports when it is not.",
  ["inputs"], "every value of every identifier type",
  "Tests sample one or two values.",
  [TY], [("serialization", TY + ": PBA, RID, TxgT, Uuid")], (), ["read_from", "write_to"])
CL = "bfffs-core/src/cluster.rs"
p("Z01", "The allocator never hands out a block twice and its accounting is exact",
  "Within a cluster, space handed out to a writer is disjoint from every other live allocation and lies inside a single open zone; freeing, finishing, wasting and reusing zones keep the reported allocated, used and available totals equal to what the individual zones imply, and a zone becomes reusable only once everything in it was freed.",
  ["histories", "inputs", "configurations"], "every sequence of opening, allocating, freeing, finishing and erasing zones, every zone geometry",
  "Tests run fixed sequences; a double allocation destroys user data.",
  [CL], [("free space map", CL + ": FreeSpaceMap")], [("zones", "per-zone free counters, empty set, open set", CL + ": FreeSpaceMap")], ["try_allocate", "free", "finish_zone", "erase_zone"])
p("Z02", "The space map survives being written to disk and read back",
  "After any history of allocations, saving the space map and loading it reproduces the same allocation state for every zone, and a stored block whose checksum does not match is rejected.",
  ["histories", "crash_points", "inputs"], "every reachable allocator state",
  "Tests check a few hand-written maps.",
  [CL], [("serialization", CL + ": FreeSpaceMap::serialize, deserialize")], (), ["serialize", "deserialize"])
VR = "bfffs-core/src/raid/vdev_raid.rs"
p("B01", "A RAID device gives back what was written, from its stripe buffers and its disks",
  "Data written to an open zone of a RAID device in pieces of any size reads back as it was written. What does not fill a stripe is held in order, and reads of it see exactly those bytes; the disks are only ever given whole stripes, each block once and at its address, the last one of a flushed or finished zone padded with zeros, and the next write address is the start of what is held plus its length. Data reads back unchanged while no stripe has lost more of its chunks than its parity allows, whether to absent, faulted or failing disks; when more are lost a read fails, and it never returns other data. A write succeeds while no more children than the parity fail it, and is not reported successful when each of its stripes lost more. Every device operation stays inside the zone it belongs to. Finishing, erasing, opening, labels and space maps work on every child that is present and need no absent one; a leaf rebuilt zone by zone ends up a copy of its mirror; and the reconstructions offered for a record that reads back corrupt include the data written, if only one disk's share of it is bad.",
  ["histories", "inputs", "fault_sequences"], "every sequence of writes, flushes and reads, every layout, every set of lost disks within the parity",
  "Tests run fixed sequences on a few layouts.",
  [VR, "bfffs-core/src/mirror.rs"], [("stripe buffer", VR + ": StripeBuffer"), ("reads and writes", VR + ": VdevRaid::read_at, write_at, flush_zone, finish_zone, read_at_one, read_at_multi, write_at_one, write_at_multi, writev_at_one, read_long"), ("children that are absent", VR + ": Child; first_healthy_child, write_label, write_spacemap, read_spacemap"), ("mirrors", "bfffs-core/src/mirror.rs: ReadAt, ReadvAt, repair_zone")], (), ["fill", "pad", "pop", "reset", "next_lba", "read_at", "write_at", "flush_zone"])
VB = "bfffs-core/src/vdev_block.rs"
p("B02", "The disk scheduler issues every request once and honours sync barriers",
  "Every request given to a disk's scheduler is issued exactly once; requests submitted after a sync are never issued before it and none submitted before it is issued after it; between barriers the sweep proceeds in ascending block order from the current position and then wraps, and merging combines only directly adjacent requests of the same kind, preserving the data order. Among requests at one block a zone is opened before its data is accessed and the data accessed before the zone is finished or erased. Each request's waiter is told the outcome of the operation that served it, merged or not; a request refused for lack of resources is retried, never lost, and once a device is being removed what is not yet issued is answered with an error.",
  ["histories", "inputs", "schedules"], "every sequence of submissions, completions and refusals",
  "Tests schedule a handful of requests.",
  [VB], [("queues", VB + ": Inner::sched, pop_op, peek_op"), ("merging", VB + ": BlockOp::can_accumulate, accumulate")], (), ["sched", "pop_op"])
LA = "bfffs-core/src/label.rs"
p("L01", "A device label is accepted only if intact, and reads back what was written",
  "A label written to a device reads back with exactly the values stored; a label with a wrong magic number, a checksum mismatch, or a corrupted length is rejected with an error, never accepted and never a crash. A device keeps two copies: a damaged or unreadable first one is replaced by the second, and a device is refused only if both are bad.",
  ["inputs", "crash_points", "fault_sequences"], "every label content, every corruption of the label area",
  "Tests corrupt one byte.",
  [LA], [("label reader and writer", LA + ": LabelReader, LabelWriter")], (), ["LabelReader::new", "LabelWriter::into_sglist"])
MI, CL, DM = "bfffs-core/src/mirror.rs", "bfffs-core/src/cluster.rs", "bfffs-core/src/ddml/ddml.rs"
p("L02", "Opening takes the newest label; out-of-date leaves wait to be rebuilt",
  "When a device is opened from the disks that can be found, in whatever order they are found, it takes the label with the greatest transaction number; the leaves of its mirrors are those this label names: a leaf whose own label is as new is in service, one whose label is older waits to be rebuilt and is neither read nor written as if it were complete, one that is not found is missing, and no other is taken. So that this works, a label is written only to leaves in service when a transaction is finished, a leaf being rebuilt always has an older label than its complete siblings, a leaf any label of the mirror names is looked for, and after a crash or reopening at any point everything that was synced is there.",
  ["inputs", "histories", "crash_points", "fault_sequences"], "every set of leaves with every label, every order of finding them; every history of syncs, crashes, losses and reopenings",
  "Tests open two or three leaves with fixed labels.",
  [MI, "bfffs-core/src/raid/mod.rs", "bfffs-core/src/raid/vdev_raid.rs"], [("opening a mirror", MI + ": Mirror::open, Manager::import, Manager::taste"), ("labels", MI + ": Mirror::write_label"), ("opening a device", "bfffs-core/src/raid/mod.rs: Manager::import")], (), ["Mirror::open", "Mirror::status", "Cluster::open"])
p("R01", "A rebuilt mirror leaf holds everything; its label never promises more",
  "Rebuilding a leaf of a mirror, in steps and beside other work, copies every zone that may hold anything written since the leaf's label; the rebuild is reported done, and the leaf returned to service, only when it holds all of it, what is being written meanwhile included. While it runs, the label given to the leaf is written after everything before it is stable and never claims a transaction of which something is not yet copied, so that after a crash a rebuild that starts from that label completes the leaf. When it is done every byte can be read from the rebuilt leaf alone, after the next sync also after a reopening.",
  ["inputs", "histories", "crash_points", "schedules"], "every state of the space map, every sequence of steps, writes, syncs and crashes",
  "Tests rebuild a leaf of an idle pool, and mock the zones.",
  [CL, DM, MI], [("the steps of a rebuild", CL + ": Cluster::repair_mirror, repair_mirror_step, order_zones_for_repair, restore"), ("the task that drives it", DM + ": MirrorRepairTask"), ("zones wanted", CL + ": FreeSpaceMap::contains, dirty_all_zones")], (), ["Cluster::repair_mirror_step", "MirrorRepairTask::finalize"])
FT = "bfffs-core/src/fs_tree.rs"
p("K01", "File-system keys never collide across objects or kinds and sort correctly",
  "Within the supported ranges, keys of different objects, different kinds of item or different offsets are different, sort first by object, then by kind, then by offset, and give back these parts; and every range of keys for an object, its directory entries (also from a hash on), extended attributes, extents in a range of offsets, or the unlinked but open files contains exactly those keys. Keys made from names have hashes of 56 bits, for directory entries not the greatest, so that there is always one behind it. Keys and items read back as stored.",
  ["inputs"], "every object number, kind and 56-bit offset, whatever the hash function gives",
  "Tests check single values.",
  [FT], [("key composition", FT + ": FSKey::compose, new, *_range"), ("keys of names", FT + ": ObjKey::dir_entry, extattr, dying_inode")], (), ["FSKey", "ObjKey"])
FS = "bfffs-core/src/fs.rs"
p("N01", "Names whose hashes collide never affect one another",
  "Directory entries and extended attributes are kept in hash tables inside the tree. Whatever names are stored, and however many of them share a hash, looking one up returns what was last stored under exactly that name (and attribute namespace) or reports it as absent; storing replaces and returns only the previous item of that name; removing takes away and returns only that item, and removing an absent one changes nothing; every other item, in the same bucket or elsewhere, stays as it was.",
  ["inputs", "histories"], "every history of lookups, insertions and removals with any number of colliding names, while the tree's operations succeed",
  "Tests construct one or two collisions.",
  [FS, FT], [("hash tables", FS + ": htable::get, insert, remove"), ("items", FT + ": HTItem for Dirent, ExtAttr")], (), ["htable", "HTItem"])
p("N02", "Reading a directory in pieces shows every entry exactly once",
  "Listing a directory shows every entry in it exactly once, however many names share a hash; each entry comes with a cookie, and a listing continued from the cookie of any entry shows exactly the entries behind it, so that reading in pieces of any size shows the same as reading at once, and ends. An entry that exists throughout is not skipped or repeated because others were removed between two pieces, as long as no name in its own hash bucket was.",
  ["inputs", "configurations", "histories"], "every directory, every split into pieces, every removal of other buckets between them",
  "Tests list small directories; a hash collision is only constructed once or twice.",
  [FS, FT], [("directory stream", FS + ": Fs::readdir")], (), ["Fs::readdir", "ReaddirStream"])
VD = "bfffs-core/src/vdev.rs"
p("H01", "Reported health is exactly what the states of the disks make it",
  "Health sorts from online through ever more missing levels of redundancy to faulted. A leaf is online exactly when it is in service and complete; a mirror is faulted for lack of redundancy when none of its leaves is, and otherwise missing one level per leaf that is not, whatever their number; a RAID device is faulted when more of its children are out of service than it has parity, and otherwise missing the levels its children are (all leaves of a faulted child, one for a child that was not found), counted up to 255 and never wrapped around; a pool is as sick as the sickest of its devices. Faulting by name takes exactly the named child or leaf out of service (and its mirror with it if that was its last healthy leaf), a rebuilt leaf or child returns to service on restore, an unknown name is an error, and the number of children out of service always agrees with their states, so that the report after any history of losses, faults, rebuilds and restores is that of the current states.",
  ["inputs", "configurations", "histories"], "every shape of mirrors and RAID devices and every history of faults, rebuilds and restores",
  "Tests sample a few shapes and single faults.",
  [VD, "bfffs-core/src/mirror.rs", VR, "bfffs-core/src/raid/null_raid.rs", "bfffs-core/src/pool.rs"], [("ordering", VD + ": Health"), ("mirror", "bfffs-core/src/mirror.rs: Mirror::status, fault, rebuild, restore"), ("RAID", VR + ": VdevRaid::status, fault, restore"), ("pool", "bfffs-core/src/pool.rs: Pool::status")], (), ["Health", "status", "fault", "restore"])
p("M01", "A mirror writes to every disk in service and reads from a complete one",
  "Every write, erasure, zone operation and space-map write on a mirror is made on every leaf in service, once and with the same data and place, and on no other; a sync also reaches the leaves being rebuilt; the operation succeeds only if it did on all of them. A read asks one complete leaf, never one that is missing, faulted or being rebuilt, and delivers what that leaf holds; if it fails, the other complete leaves are asked one after the other, each once, until one delivers; a read fails only when all of them have (with the error of a leaf), when there is none (ENXIO), or when the caller still uses the buffer. Asking for all copies asks every complete leaf and returns each copy that could be read. Repairing a zone writes only to leaves being rebuilt, only inside the zone, and only what a complete leaf holds.",
  ["inputs", "configurations", "faults", "histories"], "every set of leaves in every state, every operation, every pattern of failures",
  "Tests use two or three leaves and fail one at a time.",
  ["bfffs-core/src/mirror.rs"], [("writes", "bfffs-core/src/mirror.rs: Mirror::write_at, writev_at, write_spacemap, erase_zone, finish_zone, open_zone, sync_all"), ("reads", "bfffs-core/src/mirror.rs: Mirror::read_something, ReadAt, ReadvAt, ReadSpacemap"), ("states", "bfffs-core/src/mirror.rs: Child")], (), ["write_at", "writev_at", "sync_all", "read_something", "read_at", "poll"])
p("T03", "A tree is one ordered map, however its nodes are split and joined",
  "Whatever insertions, removals, removals of ranges, lookups, scans of ranges and lookups of the last key a tree is given, across flushes, reopening and cleaning of zones, it answers as one sorted map would: each entry is found under its key until it is replaced or removed, nothing else is found, scans yield exactly the entries in the range in order. Operations running at the same time answer as if made one after the other. No node but the root falls below or rises above its limits once the tree is at rest, keys in inner nodes agree with what is below them, all leaves are equally deep, a value or record that is replaced or removed is released exactly once and no other is, and every credit given for an operation is either held for what is in memory or paid back.",
  ["inputs", "histories", "schedules"], "every node, every key, range and limit; every history of operations (search only)",
  "Tests run fixed small trees with hand-made shapes.",
  ["bfffs-core/src/tree/node.rs", "bfffs-core/src/tree/tree/mod.rs"], [("nodes", "bfffs-core/src/tree/node.rs: LeafData, IntData, NodeData"), ("tree", "bfffs-core/src/tree/tree/mod.rs: get, insert, remove, range, range_delete, last_key, flush, clean_zone")], (), ["LeafData", "IntData", "NodeData", "range_delete_get_bounds"])
# --- broad guarantees that stay out of this family's reach -----------------
p("X01", "After a crash the pool opens at the last completed transaction",
  "Whatever the crash point, reopening a pool finds a complete, consistent file system state equal to the one at the last completed transaction sync; nothing of an unfinished transaction is visible and nothing of a finished one is lost.",
  ["crash_points", "schedules", "histories"], "every crash point in every history of writes and syncs",
  "Tests cannot enumerate crash points.",
  ["bfffs-core/src/database/database.rs", LA, CL, "bfffs-core/src/pool.rs"], [("two labels written around each sync", "bfffs-core/src/database/database.rs: sync_transaction")])
p("X02", "The copy-on-write tree behaves as an ordered map under concurrency",
  "Inserts, removals, range deletions, lookups and range scans of a tree behave as those of one ordered map, whatever the interleaving, node splits and merges, flushes and reloads.",
  ["histories", "schedules", "inputs"], "every history of operations by concurrent tasks",
  "Tests run fixed small trees.",
  ["bfffs-core/src/tree/tree/mod.rs", "bfffs-core/src/tree/node.rs"], [("B+tree", "bfffs-core/src/tree/tree/mod.rs: insert, remove, range_delete")])
p("X03", "Reads return correct data while redundancy lasts and repair what failed",
  "While no more devices have failed or returned corrupt data than the redundancy level of the mirror or RAID group, every read returns the data last written, and checksum failures are detected rather than returned.",
  ["fault_sequences", "histories", "schedules"], "every sequence of device faults, errors and corruptions",
  "Fault sequences are exponential; tests inject single faults.",
  ["bfffs-core/src/mirror.rs", VR, "bfffs-core/src/ddml/ddml.rs"], [("degraded read and reconstruction", VR + ": read_at_multi, read_at_one")])
p("X04", "Cleaning a zone never loses or changes live records",
  "Moving the live records out of a zone leaves every record readable with the same contents, and the zone is reused only when nothing refers to it.",
  ["histories", "schedules", "crash_points"], "every history with concurrent writers",
  "Needs all interleavings with writers.",
  ["bfffs-core/src/cleaner.rs", "bfffs-core/src/idml/idml.rs"], [("record indirection", "bfffs-core/src/idml/idml.rs: move_record")])
p("X05", "File operations follow POSIX semantics for every history",
  "Directory, file, link, attribute and extent operations behave as POSIX specifies for every sequence of operations, including hash collisions between names.",
  ["histories", "inputs"], "every sequence of file system calls",
  "Tests are example based.",
  ["bfffs-core/src/fs.rs", FT], [("file system operations", "bfffs-core/src/fs.rs: Fs")])
DM = "bfffs-core/src/dml.rs"
p("X06", "Compressed records decompress to exactly what was written",
  "Any record compressed with any setting decompresses to the same bytes, and corrupt compressed data yields an error rather than a crash or wrong data.",
  ["inputs", "fault_sequences"], "every record content, every corruption",
  "Tests use a few buffers.",
  [DM], [("compressors", DM + ": Compression::compress, decompress")])
GR = "bfffs/src/pool_create_parser.lalrpop"
p("X07", "The pool layout on the command line is parsed as written",
  "Every accepted pool specification yields exactly the devices named, in order, grouped as written, and every other string is refused with a syntax error and never a crash.",
  ["inputs"], "every token sequence",
  "Tests parse a dozen lines.",
  [GR], [("grammar", GR + ": Pool")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for r in P: fh.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
