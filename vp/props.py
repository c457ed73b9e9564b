"""What decides each property."""
PS_DEPS = 'fixedbitset = { version = "0.4.0", default-features = false }\nenum_dispatch = "0.3.12"'
PS_BASE = ["invmod", "is_prime", "PrimeS::new", "PrimeS::new_any", "address", "stripes_per_iteration", "id2rep_and_iter", "id2loc_int",
           "offset_within_stripe", "offset_within_iteration", "PrimeS::.*", r"lemma_.*", r"theorem_.*", "ChunkId::.*"]
IDS_DEPS0 = 'serde = { version = "1", features = ["derive"] }\nserde_derive = "1"\nspeedy = { version = "0.8", features = ["uuid"] }\nuuid = { version = "1", features = ["v4"] }'
def ps(prop, own, theorems):
    return dict(theorems=theorems, level="proof", parts=[
        dict(kind="verus", contract="prime_s", scope=PS_BASE + own),
        dict(kind="concrete", program="prime_s", deps=PS_DEPS, label="failing-input search (bounded; not counted as proof)",
             bounds="all geometries up to 37 (thorough: 71) disks in full, random chunks of all others up to 215 disks"),
    ], rule="one evaluation = one chunk looked up (D03: one element iterated); distinct = geometries covered",
    trusted=["vstd (Verus standard library)", "Verus extraction rules of vp/verusgen.py (listed per part under extraction_drops)",
             "fixedbitset 0.4 FixedBitSet contract: with_capacity/insert/ones().nth() as a finite set of integers"],
    assumptions=["chunk addresses below 2^60 and slots below 2^52 (2^51 for the chunk->location->chunk direction); a repetition index beyond that does not fit the u64 byte addresses of any device",
                 "PrimeS::new is called with at most 32000 disks (is_prime's i16 trial division; larger counts are rejected or panic)"],
    technique="Verus deductive verification of the extracted layout code (unbounded), with a concrete search for failing inputs",
    level_note="Unbounded proof for every accepted geometry and every chunk below 2^60, from /repo's current source; trusts Verus/Z3, the extraction rules and a set contract for FixedBitSet. If the source no longer matches the contracts' anchors the run degrades to a bounded search and says so.",
    explanation="Every function of prime_s.rs that the layout consists of is extracted mechanically from /repo and verified by Verus against contracts whose top level is the layout definition in the property; the property itself is a theorem over those contracts.")
UT_DEPS = 'divbuf = { version = "0.4.0", features = ["experimental"] }\nmetrohash = "1.0"'
def part_con(program, deps, bounds, **k):
    return dict(kind="concrete", program=program, deps=deps, label="failing-input search on the compiled real code (bounded; not counted as proof)", bounds=bounds, **k)
COMMON_TRUSTED = ["vstd (Verus standard library)", "Verus extraction rules of vp/verusgen.py (listed per part under extraction_drops)"]
V_TECH = "Verus deductive verification of the extracted real functions (unbounded), with a concrete search for failing inputs"
NOTE_V = "Unbounded proof from /repo's current source; trusts Verus/Z3, the extraction rules and %s. If the source no longer matches the contracts' anchors the run degrades to a bounded search and says so."
DIVBUF = "divbuf 0.4 DivBuf/DivBufShared contracts: an immutable byte sequence; slice, slice_to, slice_from, split_to, clone as sequence operations; try_const on a fresh buffer succeeds"
def util(prop, contract, scope, theorems, bounds, trusted, assumptions, explanation):
    return dict(level="proof", technique=V_TECH, level_note=NOTE_V % "the listed contracts of dependencies", theorems=theorems,
        parts=[dict(kind="verus", contract=contract, scope=scope), part_con("util", UT_DEPS, bounds)],
        rule="one evaluation = one input list (and limit sequence, or pair of bounds) run through the compiled real code and compared byte for byte with the definition; distinct = distinct inputs",
        trusted=COMMON_TRUSTED + trusted, assumptions=assumptions, explanation=explanation)
WB_DEPS = 'futures = "0.3"\nauto_enums = { version = "0.8", features = ["futures03"] }\nserde = "1"\nserde_derive = "1"'
WB_DEPS_S = WB_DEPS + '\nshuttle = "0.9"'
def gen_wb(src, repo):
    import re
    t = open(repo + "/bfffs-core/src/writeback/writeback.rs").read()
    return src, {"src/writeback_src.rs": re.sub(r"(?<![\w:])(?:::)?std\s*::", "crate::vpstd::", t)}
def wb(prop, theorems):
    return dict(level="proof", technique="Verus deductive verification of the extracted real functions with rely-guarantee contracts on every shared-memory action (unbounded threads and histories), with a schedule search for failing interleavings",
        level_note=NOTE_V % "rely-guarantee contracts for the atomic supply, the mutex, the queue and the oneshot channel (sequentially consistent)", theorems=theorems,
        parts=[dict(kind="verus", contract="wback"),
            part_con("wbsched", WB_DEPS_S, gen=gen_wb, bounds="5302 programs of up to 3 threads with up to 4 operations, capacity up to 4: every schedule with at most 2 (thorough: 3) preemptions up to 3000 (60000) per program, random schedules beyond"),
            part_con("wbseq", WB_DEPS, bounds="all single-threaded sequences of up to 6 (thorough: 7) operations with capacity up to 4, random ones beyond, against a reference model")],
        rule="one evaluation = one schedule of one thread program (or one operation sequence) on the compiled real code, checked at every grant and at quiescence; distinct = programs / sequences",
        trusted=COMMON_TRUSTED + ["rely-guarantee contracts of the supply's atomic operations, the sleepers mutex, VecDeque and futures oneshot (contracts/verus/wback.lemmas.rs); their interleaving semantics is sequentially consistent",
            "classification of each atomic change as grant, transient or return is part of those contracts", "credit held by a caller stays lent until it repays it (W01)"],
        assumptions=["sequential consistency: the code uses Relaxed operations, and on the targets in use read-modify-writes of one variable are totally ordered; flag and queue are ordered by the mutex",
            "the sum of the requests in progress at one time is below 2^61, each below 2^59 bytes", "a future dropped after it was woken but before it was polled loses its credit (documented limitation; not an abandonment while waiting)"],
        explanation="Ghost state counts lent credit, transient subtractions, sleepers, the flag and promises to run awaken. Every shared action may be preceded by any environment step that keeps the invariant; the state each action leaves behind must satisfy it. lent <= capacity (W02) and 'a first sleeper that could be served implies somebody is about to look' (W03) are conjuncts of the invariant.")
FSM_DEPS = IDS_DEPS0 + '\nfutures = "0.3"\nfixedbitset = { version = "0.4.0", default-features = false }\ndivbuf = { version = "0.4.0", features = ["experimental"] }\nmetrohash = "1.0"\ntracing = { version = "0.1", features = ["attributes"] }\nenum_dispatch = "0.3.12"\nthiserror = "1"\nnum-traits = "0.2"\nenum-primitive-derive = "0.3"'
FSM_DISK = ["SpacemapOnDisk::.*", ".*serialize", "flush", "prop_z02_.*", "clear_dirty_zones", "dirty_zone.*", "FreeSpaceMap::.*", "Cluster::.*", "kill_zone", "lemma_.*"]
FSM_ALLOC = [r"(?!SpacemapOnDisk::|.*serialize|prop_z02_|FreeSpaceMap::clear_dirty_zones|FreeSpaceMap::dirty_zone).*"]
FSM_TRUST = ["the RAID layer below (contracts/verus/fsm_cluster.lemmas.rs, World): zones are disjoint block ranges, lba2zone and zone_limits agree with them, write_at accepts only the open zone's write pointer, open_zone, finish_zone and erase_zone act on one zone, write_spacemap stores its buffer at its block",
    "speedy's encode and parse of one stored block are each other's inverses and have the block's size; MetroHash is a function of the bytes; divbuf buffers are byte sequences", "the lock around the map: each method body is verified as one sequential step holding it; atomic counters are exact in that order", "futures stand for their results"]
FSM_ASM = ["fewer than 2^32 - 255 zones of fewer than 2^32 blocks", "transaction numbers below the largest", "writes are not empty", "frees name space that was written and not freed since (callers' duty; the code asserts part of it)", "Cluster::open and FreeSpaceMap::open (the async glue around deserialize) are exercised by the search only"]
def gen_fsm(src, repo):
    from . import gens
    return src, gens.fsm(repo)
def fsm(prop, scope, theorems, bounds, explanation, trusted, assumptions, skip=None):
    return dict(level="proof", technique=V_TECH, theorems=theorems, level_note=NOTE_V % "set and map contracts for BTreeSet, BTreeMap and FixedBitSet, and contracts for the RAID layer below",
        parts=[dict(kind="verus", contract="fsm", scope=scope, skip=skip), part_con("fsm", FSM_DEPS, gen=gen_fsm, bounds=bounds)],
        rule="one evaluation = one history of the compiled real cluster.rs on an in-memory device, compared with a reference model after every step; distinct = histories",
        trusted=COMMON_TRUSTED + ["std BTreeSet and BTreeMap as a set and a map iterated in key order; fixedbitset 0.4 FixedBitSet as a bounded set of indices"] + trusted, assumptions=assumptions, explanation=explanation)
def gen_stack(access=None):
    def g(src, repo):
        from . import gens
        return src, gens.stack(repo, access)
    return g
def stack_con(program, bounds, access=None, **k):
    from . import gens
    return part_con(program, gens.STACK_DEPS, gen=gen_stack(access), bounds=bounds, **k)
def gen_tree(src, repo):
    from . import gens
    return src, gens.tree(repo)
def tree_con(program, bounds, **k):
    from . import gens
    return part_con(program, gens.TREE_DEPS, gen=gen_tree, bounds=bounds, **k)
def fs_con(program, bounds, **k):
    from . import gens
    def g(src, repo):
        from . import gens
        return src, gens.fstree(repo)
    return part_con(program, gens.FS_DEPS, gen=g, bounds=bounds, **k)
HEALTH_ACCESS = {
"mirror.rs": """
/// access for the check
pub mod vp_access { use super::*;
    /// as if the leaf's device had not been found
    pub fn lose(m: &mut Mirror, i: usize) { let u = m.children[i].uuid(); m.children[i] = Child::missing(u); }
}
""",
"raid/vdev_raid.rs": """
/// access for the check
pub mod vp_access { use super::*;
    /// opened from its label with the mirrors that were found
    pub fn raid(k: i16, f: i16, mirrors: Vec<(Uuid, Option<Mirror>)>) -> VdevRaid {
        let children = mirrors.iter().map(|m| m.0).collect();
        VdevRaid::open(Label { uuid: Uuid::new_v4(), chunksize: 2, disks_per_stripe: k, redundancy: f, layout_algorithm: LayoutAlgorithm::PrimeS, children }, mirrors.into_iter().filter_map(|(u, m)| m.map(|m| (u, m))).collect())
    }
    pub fn rebuild(v: &mut VdevRaid, i: usize, leaf: Uuid) -> Result<()> { Arc::get_mut(&mut v.inner).unwrap().children[i].as_present_mut().unwrap().rebuild(leaf) }
    pub fn hold(v: &VdevRaid) -> Box<dyn std::any::Any> { struct H(#[allow(dead_code)] Arc<Inner>); Box::new(H(v.inner.clone())) }
}
""",
"raid/mod.rs": """
/// access for the check
pub mod vp_access { pub use super::vdev_raid::vp_access::*; }
"""}
RAID_ACCESS = {
"raid/vdev_raid.rs": """
/// access for the check
pub mod vp_access { use super::*;
    /// opened from its label with the mirrors that were found
    pub fn raid(chunksize: LbaT, k: i16, f: i16, mirrors: Vec<(Uuid, Option<Mirror>)>) -> VdevRaid {
        let children = mirrors.iter().map(|m| m.0).collect();
        VdevRaid::open(Label { uuid: Uuid::new_v4(), chunksize, disks_per_stripe: k, redundancy: f, layout_algorithm: LayoutAlgorithm::PrimeS, children }, mirrors.into_iter().filter_map(|(u, m)| m.map(|m| (u, m))).collect())
    }
}
""",
"raid/mod.rs": HEALTH_ACCESS["raid/mod.rs"]}
REBUILD_BOUNDS = "9000 (thorough: 180000) random histories of up to 40 operations (writes, frees, syncs, crashes at any of five places of a sync with the requests in flight kept, lost or torn, reopenings with leaves found in any order, faults, attached disks, rebuilds step by step beside other work, spoiled labels) on single mirrors of 1 to 3 leaves and RAID devices of 3 or 5 mirrors of 1 or 2"
REBUILD_ACCESS = {
"vdev_block.rs": """
/// access for the check
pub mod vp_access { use super::*;
    /// what a disk's label claims to be up to date with
    pub fn txg(lr: &mut LabelReader) -> u32 { let l: Label = lr.deserialize().unwrap(); l.txg.into() }
}
""",
"cluster.rs": """
/// access for the check
pub mod vp_access { use super::*;
    pub fn open_zones(c: &Cluster) -> Vec<ZoneT> { c.fsm.read().unwrap().open_zone_ids().cloned().collect() }
    pub fn zone_of(c: &Cluster, lba: LbaT) -> Option<ZoneT> { c.vdev.lba2zone(lba) }
}
"""}
LRU_DEPS = 'divbuf = { version = "0.4.0", features = ["experimental"] }\nmetrohash = "1.0"\ndowncast = "0.11"\nfutures = "0.3"\ntracing = { version = "0.1", features = ["attributes"] }'
def lru(prop, theorems, explanation):
    return dict(level="proof", technique=V_TECH, theorems=theorems, level_note=NOTE_V % "map and trait contracts for HashMap, Cacheable and CacheRef",
        parts=[dict(kind="verus", contract="lru"), part_con("lru", LRU_DEPS, "every sequence of 5 (thorough: 6) operations from 16 over 3 keys with capacity 10; 60000 (400000) random sequences of up to 43 operations over up to 10 keys")],
        rule="one evaluation = one operation sequence on the compiled real cache compared with a reference LRU list (contents, size); distinct = sequences",
        trusted=COMMON_TRUSTED + ["std HashMap as a map (keys hash consistently with their derived equality)", "Cacheable/CacheRef trait contracts: cache_space and the handles are functions of the contents, eq compares contents (verified for DivBufShared)",
            "divbuf DivBufShared/DivBuf as byte sequences"],
        assumptions=["capacity at most usize::MAX / 2", "a block is no larger than the cache's capacity, a duplicate is equal to the block cached, and a lookup names the cached block's type (otherwise the code refuses with a panic)", "a block's contents do not change while it is cached"],
        explanation=explanation)
PROP_DEPS = 'thiserror = "1"\nserde = { version = "1", features = ["derive"] }\nserde_derive = "1"\nspeedy = { version = "0.8", features = ["uuid"] }'
EC_DEPS = 'divbuf = { version = "0.4.0", features = ["experimental"] }\nfixedbitset = { version = "0.4.0", default-features = false }\nbfffs-isa-l = { path = "@REPO@/bfffs-isa-l" }'
def ec(prop, scope, theorems, explanation):
    return dict(level="proof", technique=V_TECH, theorems=theorems, level_note=NOTE_V % "contracts for the functions of Intel's ISA-L (foreign C code) and for FixedBitSet, and a memory model for the raw pointers",
        parts=[dict(kind="verus", contract="codec", scope=scope), part_con("codec", EC_DEPS, "stripes of up to 24 columns with up to 5 parity columns, every erasure set of small ones, lengths up to 300 bytes, every byte guarded", crash_is_failure=True)],
        rule="one evaluation = one stripe of data (with one set of lost columns, or one segmentation and column order) put through the compiled real code and the real libisal; distinct = distinct inputs",
        trusted=COMMON_TRUSTED + ["libisal: gf_gen_cauchy1_matrix makes the identity above rows of which any k are independent; gf_gen_rs_matrix makes a row of ones below the identity, and in the documented range rows of which any k are independent (proved here for one parity row); gf_invert_matrix inverts any matrix that has an inverse; ec_init_tables, ec_encode_data and ec_encode_data_update compute sums of products over GF(2^8) mod x^8+x^4+x^3+x^2+1 and write nothing else",
            "fixedbitset 0.4: contains, ones, count_ones over a prefix, as the sorted list of members", "raw pointers: an output pointer is an allocation and an offset into ghost memory; input columns do not change while they are read; <*mut u8>::add moves the offset",
            DIVBUF, "the io::Error of a singular matrix is abstracted; slice-to-pointer casts at the foreign calls stand for the slices"],
        assumptions=["at most 255 columns (the wrappers' documented use of u8 indices is wider; ISA-L's limit is 256)", "column length below 2^31 (it is passed as a C int)", "output columns are distinct allocations of at least the column's length", "encode_update starts from zeroed parity", "scattered columns are non-empty buffers of exactly the column's length"],
        explanation=explanation)
KEYS_DEPS = 'serde = { version = "1", features = ["derive"] }\nserde_derive = "1"\nspeedy = { version = "0.8", features = ["uuid"] }'
IDS_DEPS = 'serde = { version = "1", features = ["derive"] }\nserde_derive = "1"\nspeedy = { version = "0.8", features = ["uuid"] }\nuuid = { version = "1", features = ["v4"] }'
def obl(name, deps, bounds, functions, rules, assumptions, explanation, level="proof", **k):
    con = part_con(name, deps, bounds, obl=name)
    return dict(level=level, technique="Kani function contracts on the real code, proved for all argument values, with counterexamples replayed on the compiled code",
        level_note="Proof over the full range of every argument, from /repo's current source; trusts Kani and CBMC. If the source can no longer be extracted the run degrades to a bounded search and says so.",
        parts=[dict(kind="kani", name=name, deps=deps, functions=functions, rules=rules, concrete=[con]), con],
        rule="one evaluation = one contract function on one tuple of argument values, on the compiled real code; distinct = contract functions",
        assumptions=assumptions, explanation=explanation, **k)
SPECS = {
    "E01": ec("E01", ["Codec::new", "Codec::encode", "Codec::decode", "Codec::mk_decode_tables", "prop_e01", "ec_encode_data", "ec_init_tables", "gf_.*", "lemma_.*"], ["prop_e01", "Codec::mk_decode_tables", "Codec::decode", "Codec::encode", "Codec::new", "lemma_reconstruct", "lemma_xor_mds"],
        "encode makes column i of parity the i-th row of the distribution matrix times the data; mk_decode_tables picks the rows of the inverse of the lowest surviving rows that belong to lost data columns; lemma_reconstruct shows over GF(2^8) (field laws proved from the bitwise definition) that decoding with them gives the lost data; prop_e01 composes them for every code, every data, every set of at most f lost columns."),
    "E02": ec("E02", ["Codec::encode.*", "ec_encode_data.*", "from", "next", "peek_len", "prop_e02_.*", "lemma_.*"], ["prop_e02_update", "prop_e02_vectored", "Codec::encode", "Codec::encodev", "Codec::encode_update"],
        "All three encoders are verified against one definition of the parity byte; encodev over any segmentation by the cursor's contract (S01), encode_update by an invariant over the set of columns added so far. Each has a frame condition: no byte outside the parity buffers changes."),
    "T01": dict(level="proof", technique=V_TECH, theorems=["prop_t01_round_trip", "prop_t01_names", "prop_t01_aliases", "Property::from_str", "PropertyName::from_str", "PropertySource::from_str"],
        level_note=NOTE_V % "contracts for the str functions used (splitn, parse, comparison, to_string) and for Display of str and integers",
        parts=[dict(kind="verus", contract="property"), part_con("property", PROP_DEPS, "every record size and boolean, names and sources, every one-character edit of each meaningful string, all record sizes written in decimal below 300000 (thorough: 3000000), random strings")],
        rule="one evaluation = one string read as property, name and source by the compiled real code and compared with an independent reader, or one value printed and read back; distinct = distinct strings",
        trusted=COMMON_TRUSTED + ["str::splitn(2, '='), str::parse::<usize> (a number's value, whatever its sign or leading zeros), str equality with a literal, to_string and Display with default flags", "a String is determined by its characters"],
        assumptions=["values displayed with default formatting flags", "record sizes are the nine documented ones, which are the only ones that can be set"],
        explanation="Every reader and printer of names, sources and values is verified against a specification of what each string means; the round trip is a theorem over those contracts."),
    "T02": obl("ids", IDS_DEPS, "random and boundary values of every identifier",
        ["PBA::new", "PBA (derived Readable, Writable, Serialize, Deserialize, Ord)", "RID (derived)", "TxgT (derived), add, add_assign, sub, checked_add, from, into", "Uuid::from_uuid, Serialize, Deserialize, derived Readable and Writable"],
        ["types.rs less the Error type (FreeBSD's errnos), the aliases of DivBuf and the tests; every other item token for token"],
        ["the serialization crates speedy and serde as locked, in speedy's default and big-endian contexts; serde with a fixed-width binary format written for the check",
         "plain + and - on transaction numbers are used within the range of u32 (outside it a build with overflow checks panics and a release build wraps; checked_add reports it)"],
        "Each obligation is a contract function that calls the real code; its Kani contract is proved for all argument values (loop-free or fully unwound code, so without bound)."),
    "S01": util("S01", "sgcursor", None, ["prop_s01_walk"], "all lists of up to 3 buffers of up to 4 bytes with all limit sequences over {1,2,3,4,max} of length 5 (thorough: 6), random larger ones",
        [DIVBUF, "AsRef<[IoVec]> of the argument is the list itself"], ["buffers are non-empty and limits positive, as the property says"],
        "SGCursor::from, next and peek_len carry contracts over the ghost sequence of remaining bytes; prop_s01_walk proves the whole walk for any limit sequence."),
    "S02": util("S02", "util", None, ["prop_s02_segmentation"], "all 4-buffer lists with lengths below 6, random lists of up to 11 buffers",
        ["contract trait Hasher: the hash is a function of the byte stream written (true of MetroHash and SipHash, which the property's premise needs)", "contract trait AsRef<[u8]>: as_ref returns the buffer's bytes"], [],
        "checksum_sglist and checksum_iovec are verified for every T and H against a ghost byte stream."),
    "S03": util("S03", "sgpad", None, ["copy_and_pad_sglist", "sglist_len", "zero_sglist"], "all lists of up to 3 buffers from 13 lengths around the block size, random lists, zero lists of up to 200000 bytes around every boundary",
        [DIVBUF, "Vec::extend/Vec::from/Vec::resize on bytes; usize::div_ceil; Deref<Target=[u8]>"],
        ["total length below usize::MAX - 4096", "after a partial block only non-empty pieces shorter than one block follow until it is completed (otherwise the code refuses with a panic)"],
        "copy_and_pad_sglist is verified against padded(): lengths, bytes, zero tail below one block, identity on whole blocks."),
    "S04": util("S04", "rangeb", None, ["prop_s04_meaning", "RangeBoundsExt::is_empty"], "all pairs of bound kinds over 14 values, random pairs",
        ["contract trait RangeBounds (a pair of bounds)", "PartialOrd obeys its specification (vstd obeys_partial_cmp_spec)"], ["the two bound values are comparable"],
        "the trait's default method is verified for every T; prop_s04_meaning proves the specification equals existence of a key over the reals."),

    "W02": wb("W02", ["prop_w02_limit", "prop_w02_reusable", "prop_w02_fresh", "WriteBack::borrow", "WriteBack::repay", "WriteBack::awaken"]),
    "W03": wb("W03", ["prop_w03_no_lost_wakeup", "prop_w03_no_overtaking", "WriteBack::borrow", "WriteBack::repay", "WriteBack::awaken"]),
    "W01": dict(level="proof", technique=V_TECH, level_note=NOTE_V % "an AtomicIsize contract (one atomic change per read-modify-write, from an arbitrary value)",
        theorems=["Credit::atomic_split", "Credit::split", "Credit::isplit", "Credit::halve", "Credit::take", "Credit::extend", "Credit::vp_drop"],
        parts=[dict(kind="verus", contract="credit"), part_con("credit", WB_DEPS, "every amount below 40 (thorough: 200) with every single operation and request; random sequences of up to 8 operations on up to 3 credits"),
               part_con("wbsched", WB_DEPS_S, gen=gen_wb, bounds="all interleavings of two concurrent atomic splits and of an atomic split with its holder's observation")],
        rule="one evaluation = one sequence of credit operations on the compiled real code compared with integer arithmetic after every step; distinct = sequences",
        trusted=COMMON_TRUSTED + ["AtomicIsize contract: get_mut is exclusive access, each read-modify-write is one atomic change"],
        assumptions=["amounts below 2^59 bytes (larger doubled amounts would overflow isize; the cache limit is memory size)", "a credit is not otherwise used while it is being dropped"],
        explanation="Every method of Credit carries a contract over the doubled amount; conservation is the postcondition v(self') + v(result) == v(self), for atomic_split over the logged atomic change."),
    "C01": lru("C01", ["prop_c01_exact", "prop_c01_minimal", "LruCache::insert", "LruCache::remove", "LruCache::get", "LruCache::expire", "Cache::size"],
        "Every operation keeps a linked-list invariant over a ghost recency order, part of which is: size == the sum of the sizes of the keys in the store, each once, <= capacity. insert's postcondition fixes which blocks leave: the fewest least recently used ones."),
    "C02": lru("C02", ["prop_c02_victims", "LruCache::insert", "LruCache::get", "LruCache::remove", "LruCache::get_ref", "Cache::get", "Cache::insert", "Cache::remove"],
        "The postconditions of the operations are those of a map with a recency order: lookups return the block stored, moving it to the most recently used end; removal takes it out; insertion evicts from the least recently used end; a peek and a duplicate insertion change nothing."),
    "Z01": fsm("Z01", FSM_ALLOC, ["prop_z01_write", "prop_z01_free", "prop_z01_flush", "prop_z01_advance", "prop_z01_totals", "FreeSpaceMap::try_allocate", "FreeSpaceMap::free", "FreeSpaceMap::reap", "Cluster::write", "Cluster::free", "Cluster::advance_transaction"],
        "random histories of 1 to 40 (sometimes 440) writes, frees (in any order, of anything written), transaction advances and reloads on devices of 1 to 6 (sometimes 600) zones of up to 21 blocks with gaps; random sequences of the space map's own methods, every query compared after each",
        "The space map is verified against a view that gives each zone one of four states with its allocated, freed and wasted counts. Cluster's methods are verified with that map and the device as state; prop_z01_write says that a write lands in the open part of one zone, beyond everything handed out there, and below the zone's end; prop_z01_free and prop_z01_advance that a zone returns to use only from the dead state, which it enters only when nothing allocated is left; prop_z01_totals that the totals are the sums over the zones.",
        FSM_TRUST, FSM_ASM, r"\bdirty@|saved\(|stored\(|marked\("),
    "Z02": fsm("Z02", FSM_DISK, ["prop_z02_fresh", "prop_z02_round_trip", "prop_z02_reject", "SpacemapOnDisk::new", "SpacemapOnDisk::deserialize", "FreeSpaceMap::serialize", "FreeSpaceMap::deserialize", "Cluster::flush"],
        "the histories of Z01, with the map stored and reloaded after every flush: every zone's state compared, and one random byte of every stored block damaged in turn",
        "serialize's postcondition gives the image of every dirty block, deserialize's gives the map for any stored blocks and an error for a block whose checksum is wrong; every method of the map and of the cluster keeps 'a block on the device that is not marked dirty is the image of the zones as they are'. prop_z02_round_trip composes flush, read and deserialize: the map read back has the same state for every zone.",
        FSM_TRUST, FSM_ASM + ["no two different blocks met have the same 64-bit checksum"]),
    "B02": dict(level="proof", technique=V_TECH,
        theorems=["prop_b02_once", "prop_b02_done", "prop_b02_barrier", "prop_b02_sweep", "prop_b02_zones", "prop_b02_merge", "Inner::sched", "Inner::pop_op", "Inner::issue_fut", "Inner::issue_all", "Inner::sched_and_issue", "Inner::vp_task"],
        level_note=NOTE_V % "contracts for BinaryHeap, VecDeque, one-shot channels, tokio's tasks and timers, and the leaf device's futures",
        parts=[dict(kind="verus", contract="vblock"), stack_con("vblock", "random programs of up to 60 submissions (every kind), completions and failures of device operations in any order, refusals with EAGAIN, immediate answers, dropped waiters, removal of the device, on a 1000-block device; the order, range, data and answer of every device operation compared with a reference scheduler, and that nothing is left when the device is idle")],
        rule="one evaluation = one program of requests and device events run on the compiled real vdev_block.rs and vdev_file.rs over an in-memory disk, compared with a reference scheduler; distinct = programs",
        trusted=COMMON_TRUSTED + ["BinaryHeap::{push, pop, peek} (a greatest element by Ord leaves), VecDeque", "a one-shot receiver yields what its sender sent, or that the sender was dropped", "tokio::spawn runs its task to completion; a timer fires; Arc held keeps Weak::upgrade working",
            "the device's future: polled to EAGAIN it has not been submitted, otherwise it has, once; awaiting it gives its answer", "no Vec of 16-byte handles has 2^60 elements", "copy_and_pad_sglist by its contract, verified in S03", "the mutual exclusion of RwLock: the scheduler's invariant holds whenever the lock is free"],
        assumptions=["optimum queue depth at least 2 (VdevFile's is 10): with 1, a device that refuses everything is not retried", "requests are of whole blocks within the device and zones are named by their first and last block, which VdevBlock's own assertions demand", "the future of a removal is awaited to its end"],
        explanation="Every method of the scheduler, the futures' poll methods and the task that awaits the device are verified with a ghost history (submitted, taken, made into operations, given to the device, answered). The invariant says: submitted = taken + waiting, as multisets; a taken sync has exactly the requests submitted before it before it; consecutive runs of taken requests make the operations given to the device in that order; the depth counts what is at work. The theorems read the property off that invariant; issue_all's postcondition adds that something will run the scheduler again while anything waits."),
    "M01": dict(level="proof", technique=V_TECH,
        theorems=["prop_m01_all_complete_leaves", "prop_m01_read", "Mirror::write_at", "Mirror::writev_at", "Mirror::write_spacemap", "Mirror::erase_zone", "Mirror::finish_zone", "Mirror::open_zone", "Mirror::sync_all", "Mirror::read_something", "ReadAt::poll", "ReadvAt::poll", "ReadSpacemap::poll"],
        level_note=NOTE_V % "contracts for the leaf's futures, FuturesUnordered with try_collect, and inaccessible buffers",
        parts=[dict(kind="verus", contract="mirrorio"), stack_con("mirror", "7200 (thorough: 240000) random histories of up to 16 operations (writes, scattered writes, space maps, zone operations, syncs, reads of each kind, reads of all copies, repairs of a zone, faults, rebuilds, restores) on mirrors of 1 to 6 leaves, some missing from the start, any of them failing during any operation; every disk's operations and contents checked after each", access=HEALTH_ACCESS)],
        rule="one evaluation = one history on the compiled real mirror.rs, vdev_block.rs and vdev_file.rs over in-memory disks; distinct = histories",
        trusted=COMMON_TRUSTED + ["a leaf's future stands for the request it was made for, and yields its result once", "FuturesUnordered::try_collect (all are driven; Ok when all are Ok, else an error)", "divbuf: clone_inaccessible and try_mut (refused exactly while the buffer is shared)", "Arc, Pin, pin projection and boxing of futures are transparent", "AtomicU32::fetch_add (any value)"],
        assumptions=["a mirror has at least one leaf, fewer than 2^31 (its constructor demands the first)", "the buffer of a space-map read is not shared while it is read (the code panics otherwise)", "Mirror::read_long and repair_zone: bounded, by the concrete part only"],
        explanation="Every request is a value (leaf, operation). The operations that change the disk have the postcondition that the requests made are exactly asks(children, op): one per complete leaf, in order, with the caller's own arguments (a sync also goes to the leaves being rebuilt). A read's future begins at one complete leaf with the other complete leaves as its remainder, and its poll's postcondition follows the results: some leaves in order have failed, and the next is pending or has delivered, or all have failed and the last error is the answer. prop_m01_all_complete_leaves: the leaves to ask are all complete ones, each once, and no other; prop_m01_read: success comes from one of them, failure only after all."),
    "H01": dict(level="proof", technique=V_TECH,
        theorems=["Mirror::status", "VdevRaid::status", "NullRaid::status", "Pool::status", "Mirror::fault", "Mirror::rebuild", "Mirror::restore", "VdevRaid::fault", "VdevRaid::restore", "VdevRaid::faulted_children"],
        level_note=NOTE_V % "contracts for Arc::get_mut, NonZeroU8 and the derived order of Health (itself compared for every pair of values)",
        parts=[dict(kind="verus", contract="health"), stack_con("health", "devices of 1 to 7 mirrors of 1 to 4 leaves (and up to 300), with children or leaves missing from the start, and histories of up to 13 faults (by the name of a child, a leaf, the device, nobody), rebuilds and restores; the whole report compared after each; every pair of health values compared", access=HEALTH_ACCESS)],
        rule="one evaluation = one device with one history of faults, rebuilds and restores on the compiled real mirror.rs and vdev_raid.rs, its report compared with the states of its leaves after every step, or one pair of health values compared; distinct = histories and pairs",
        trusted=COMMON_TRUSTED + ["Arc::get_mut (exclusive access exactly if nothing else holds the value)", "NonZeroU8, Uuid equality, std::mem::replace", "the derived PartialOrd/Ord of Health: executed on every pair of values (259 x 259) by the concrete part", "enum_dispatch sends RaidImpl's methods to the variant's own", "a Vec is the sequence of its elements"],
        assumptions=["a RAID device has at most 32767 children (an i16 holds their number throughout) and a parity of at most 255, which Codec::new demands; its count of absent children is right when it is made (VdevRaid::new: concrete part)", "a mirror has at least one leaf and a pool at least one cluster, as their constructors demand", "a leaf is restored only when it is not faulted, which Mirror::restore's own test ensures"],
        explanation="Health is a function of the children's states: m_health and raid_health define it, and status's postconditions say the report is that value for every number of children, with every leaf's own state below it. fault, rebuild and restore have exact postconditions on the children, found by name; the cached number of absent children is part of an invariant (counted) that fault and restore keep and status's result depends on. Pool::status is the worst of its clusters' in the order of Health."),
    "B01": dict(level="proof", technique=V_TECH,
        theorems=["prop_b01_write", "prop_b01_flush", "prop_b01_read", "StripeBuffer::fill", "StripeBuffer::pad", "StripeBuffer::pop", "StripeBuffer::reset", "VdevRaid::write_at", "VdevRaid::read_at", "VdevRaid::flush_zone", "VdevRaid::finish_zone", "VdevRaid::erase_zone"],
        level_note=NOTE_V % "contracts for the per-stripe operations (write_at_one, write_at_multi, writev_at_one, read_at_one, read_at_multi), divbuf's pieces, BTreeMap and FuturesUnordered" + " Proved: what is held, what is given to the disks and when, what is read from where. Bounded, not proved: what the per-stripe operations do with disks and faults, which the compiled real code shows on random devices and histories.",
        parts=[dict(kind="verus", contract="raidbuf"), stack_con("raid", "devices of 1 to 23 mirrors of 1 to 3 leaves over an in-memory disk, every layout the pool command allows (k, f, chunk size), histories of up to 40 writes of any length, reads, flushes, finishes, erases, reopens, label and space map writes, losses, faults, bad blocks and torn chunks; every byte read back compared with what was written, every device operation checked to lie in its zone", access=RAID_ACCESS)],
        rule="one evaluation = one device with one history of writes, reads, losses and repairs run on the compiled real vdev_raid.rs, mirror.rs, vdev_block.rs and vdev_file.rs over an in-memory disk, every byte read compared with what was written; distinct = histories",
        trusted=COMMON_TRUSTED + ["DivBuf's pieces (slice_to, split_to, split_off) are views of their bytes; ZERO_REGION is zeros (contract sgpad, S03)", "SGCursor by its contract, verified in S01", "BTreeMap is a map; RwLock gives mutual exclusion", "FuturesUnordered runs everything pushed into it", "write_at_one, write_at_multi and writev_at_one put a stripe's bytes at its place, read_at_one and read_at_multi read them: executed by the concrete part, their layout and codec verified in D01-D04 and E01-E02"],
        assumptions=["a caller writes a zone's blocks in order and inside the zone, and reads only what was written, which the device's own assertions demand", "a zone's buffer starts at a stripe boundary (open_zone_priv: concrete part)", "block numbers and lengths stay three stripes below 2^64"],
        explanation="StripeBuffer's methods have exact postconditions on the sequence of bytes held. write_at's says: held bytes followed by the new ones, zero-padded to whole blocks, are cut at a stripe's end; what comes before goes to the disks, each byte once and at its address, and the rest, less than a stripe, stays. flush_zone and finish_zone give the disks the held bytes padded with zeros to a whole stripe; read_at copies exactly the blocks held and asks the disks for exactly those before. prop_b01_write, _flush and _read put these together for any history: a zone's stream is what the disks were given followed by what is held."),
    "L01": dict(level="proof", technique=V_TECH, theorems=["prop_l01_round_trip", "prop_l01_places", "lemma_encoded", "lemma_corrupt"], level_note=NOTE_V % "contracts for MetroHash64, byteorder, speedy, divbuf, io::Cursor and tokio_file",
        parts=[dict(kind="verus", contract="label"), stack_con("label", "labels of up to six values and 20 kB, every byte of small ones corrupted in two ways, every truncation, 19 edge lengths with and without the matching checksum; devices with two labels written up to three times, each then left alone or spoiled in six ways")],
        rule="one evaluation = one label built with the compiled real LabelWriter (or written through a real device), altered, and given to the real LabelReader (or Manager), compared with an independent reading of the format; distinct = cases",
        trusted=COMMON_TRUSTED + ["MetroHash64 is a function of the bytes written into it; (u64).to_be().hash() writes the big-endian bytes", "byteorder::BigEndian, io::Cursor and Vec::extend do what they are documented to do", "speedy: a value has one encoding and decoding stops where it ends (prop_l01_round_trip assumes it for the types used)", DIVBUF, "a read of the device fills the whole buffer or fails"],
        assumptions=["a label's contents fit its four blocks (about 2000 children: the code writes a longer one over its neighbours)", "usize has 64 bits"],
        explanation="LabelReader::new is proved to return a reader exactly for the buffers that are intact (long enough, magic number, length inside the buffer, checksum of length and contents), EINVAL or EINTEGRITY for every other and never to panic; into_sglist's result is proved to be the encoding of the values in LIFO order; read_label is proved to take the first label that can be read and is intact and to fail only if neither is. lemma_encoded and prop_l01_round_trip put them together; lemma_corrupt: an altered label that is accepted is a collision of the hash."),
    "L02": dict(level="proof", technique=V_TECH, theorems=["Mirror::open", "Mirror::new", "Mirror::write_label", "Manager::import", "Manager::taste", "Mirror::restore", "Mirror::sync_all", "lemma_up_to_date"],
        level_note=NOTE_V % "contracts for BTreeMap, Arc, futures, the device's own label fields and the label reader" + " Proved: mirrors and their leaves. Bounded, not proved: the choice among the mirrors of a RAID device (raid::Manager::import is one async closure), which the compiled real code shows on random histories.",
        parts=[dict(kind="verus", contract="reopen"), stack_con("rebuild", REBUILD_BOUNDS, access=REBUILD_ACCESS)],
        rule="one evaluation = one pool of one device lived through on the compiled real cluster.rs, mirror.rs, vdev_raid.rs, vdev_block.rs, vdev_file.rs and label.rs over an in-memory disk, its labels, states, space and every byte compared with a reference after each step; distinct = histories",
        trusted=COMMON_TRUSTED + ["BTreeMap::{get_mut, insert, remove, collect} and its Entry are a map", "a leaf's txg and uuid are what its label says (VdevBlock::open); a label gives back what was stored in it (L01)", "FuturesUnordered runs everything pushed into it and yields the results in some order", "atomics are exact, in one thread"],
        assumptions=["leaves found have different names, are listed in their own label, and a label lists nobody twice (Mirror::write_label lists every child once: proved as uuids)", "leaves found for a mirror have labels of that mirror, which Manager::taste's own grouping makes so"],
        explanation="Mirror::open's postcondition: the label used is one with the greatest transaction number found; its leaves, in its order, are in service exactly if their own label is that new, wait to be rebuilt if it is older, and are missing exactly if they were not found; no other leaf is taken. write_label's: an ordinary label goes to the leaves in service and to nobody else, and the mirror's number follows only if all of them took it; a repair label goes to the rebuilding ones, with a number below the mirror's. Manager::taste never forgets a leaf any label names, and import opens all of the listed devices that answer."),
    "R01": dict(level="proof", technique=V_TECH, theorems=["Cluster::order_zones_for_repair", "Cluster::repair_mirror", "Cluster::repair_mirror_step", "Cluster::restore", "MirrorRepairTask::finalize", "FreeSpaceMap::contains", "FreeSpaceMap::dirty_all_zones"],
        level_note=NOTE_V % "contracts for the device (an ordered log of what it is asked to do), BTreeMap, BTreeSet, sort_by_key and futures" + " Proved: which zones are copied, when and with which number labels are written, what `finished` means. Bounded, not proved: that copying a zone copies its bytes, which the compiled real code shows on random histories.",
        parts=[dict(kind="verus", contract="rebuild"), stack_con("rebuild", REBUILD_BOUNDS, access=REBUILD_ACCESS)],
        rule="one evaluation = one pool of one device with one history of writes, losses, rebuilds step by step beside other work, crashes and reopenings on the compiled real code over an in-memory disk, labels and every byte of every leaf in service compared with a reference; distinct = histories",
        trusted=COMMON_TRUSTED + ["sort_by_key leaves a permutation", "VdevRaid::repair_mirror_zone copies what is written in the zone (B01 and this search execute it; of an open zone on a RAID device it does not: known finding of B01)", "a lock held for writing keeps others out; pool.rs passes the step through to the right cluster"],
        assumptions=["transaction numbers are below the greatest one (2^32 - 2), and a closed zone ends no earlier than it began", "between two steps others may change the map, which finalize's contract allows for by forgetting it at each lock"],
        explanation="repair_mirror_step's postcondition, over the log of the device: a zone enters the set of repaired ones only when it was copied as far as it is written, before any label, and an open one only when nothing can be written meanwhile; each label is written after a sync of that mirror, the second after the first was synced, is newer than the one the rebuild started from, and promises nothing: every wanted zone not in the set would be wanted again by a rebuild that starts from that label. `done` implies that every zone that may hold anything written since the start is in the set. finalize returns the leaf to service only under the lock under which that was true, open zones included, and then the whole space map is to be written again."),
    "K01": obl("keys", KEYS_DEPS, "random and boundary values of every part of a key",
        ["FSKey::new, compose, object, objtype, offset, derived Ord, Readable and Writable", "FSKey::obj_range, dirent_range, extattr_range, dying_inode_range, extent_range", "FSKey::is_direntry, is_dying_inode, is_extattr, is_inode", "ObjKey::discriminant, offset, dir_entry, extattr, dying_inode, Readable, Writable, derived Ord"],
        ["of fs_tree.rs ExtAttrNamespace, ObjKeyDiscriminant, ObjKey and FSKey with their impls, of property.rs PropertyName, token for token; num_enum's derive (Debug only) dropped", "bitfield!: the getters it documents, written out"],
        ["MetroHash64 gives any number (the obligations hold whatever it gives)", "offsets of less than 2^56 and objects below 2^64 - 1: callers' duty", "names of up to two bytes in the obligations on names (the code looks at a name only to refuse a slash and to hash it)"],
        "Each obligation is a contract function that calls the real code; its Kani contract is proved for all argument values: a key gives back its parts, equal keys have equal parts, order is that of the parts, and each range contains a key (any 128 bits) exactly if its parts are in it."),
    "N01": dict(level="proof", technique=V_TECH, theorems=["get", "insert", "remove", "same", "from_table", "g_update", "g_swap"],
        level_note=NOTE_V % "the tree's get, insert and remove (an ordered map whose operations may fail: the database is not verified) and equality of names",
        parts=[dict(kind="verus", contract="htable"), fs_con("fsnames", "every history of up to five (thorough: six) operations on four names that share a key, and 40000 (thorough: 400000) random ones of up to 43 operations over seven names, five hashes, two objects and both kinds of item")],
        rule="one evaluation = one history of gets, inserts and removes on the compiled real hash tables over an in-memory tree, compared with a plain map after every operation; distinct = histories",
        trusted=COMMON_TRUSTED + ["the tree's operations: get returns what is stored, insert and remove change that key only and return what was there, and when one fails it may have changed that key", "two names are equal exactly if their bytes are", "AsRef<OsStr> of the two kinds of name in use is the name; AsRef<ReadWriteFilesystem> the dataset"],
        assumptions=["a value is inserted under its own name", "the tree's operations succeed (otherwise only the other keys are shown to be untouched)", "no other task works on the same key meanwhile"],
        explanation="good() says that a key holds one item or a bucket of at least two different ones, and items() which; the postconditions of insert, get and remove are those of a map from (kind's own part, name) to items, for every number of colliding names, and that no other key changes; the real implementations of HTItem for Dirent and ExtAttr are verified against the trait's contract."),
    "N02": dict(level="proof", technique=V_TECH, theorems=["prop_n02_continue", "prop_n02_start", "prop_n02_all", "prop_n02_once", "ReaddirStream::poll_next", "ReaddirStream::pop_bucket", "Cursor::new", "Fs::readdir"],
        level_note=NOTE_V % "contracts for the tree's range query (its entries in key order: the database is not verified) and for Dirent::into_libc_dirent",
        parts=[dict(kind="verus", contract="listing"), fs_con("fsnames", "every directory of up to five keys with up to three names each, 6000 (thorough: 60000) random ones with buckets of up to 255 names and hashes at the edges, listed whole and in random pieces; continued from the cookie of every single entry; listed on while a bucket is removed")],
        rule="one evaluation = one directory listed by the compiled real Fs::readdir on an in-memory tree, in pieces and from every cookie, compared with what is in it; distinct = directories",
        trusted=COMMON_TRUSTED + ["RangeQuery yields the pairs of the range in key order, each once (the tree below is not verified); dirent_range holds a directory's entries from an offset on (K01)", "into_libc_dirent puts the cookie into d_off and the entry's name and number into the rest (executed by the search)", "bitfield!'s getters are shifts and masks", "Pin<&mut Self> of an Unpin stream is &mut self; fsreads runs its closure on the dataset"],
        assumptions=["a bucket holds 1 to 255 names, and no name has the greatest hash (proved of ObjKey::dir_entry in K01)", "between the pieces the directory does not change, or other buckets are removed"],
        explanation="list() says which entries a directory has, in which order, and which cookie each carries; poll_next's postcondition is that each poll shows the next entry of the rest and nothing else, readdir's that the rest is at first what list_from() defines for its cookie; prop_n02_continue proves, for every directory and every entry, that continuing from the entry's cookie shows exactly the entries behind it."),
    "T03": dict(level="proof", technique=V_TECH, theorems=["LeafData::.*", "IntData::.*", "NodeData::.*", "get_r", "last_key_r", "get_range_r", "get_range", "RangeQuery::.*", "prop_t03_.*", "fix_int", "lemma_fixed", "xlock", "xlock_nc", "rlock", "xlock_root", "xlock_and_merge_root", "range_delete_get_bounds", "ranges_overlap", "lemma_down", "lemma_last"],
        level_note=NOTE_V % "contracts for BTreeMap, binary_search_by, Vec::splice, the values' own dpop and ddrop, locks and the store" + " Proved: everything a single node does (find, insert, remove, remove a range, list a range, split, join, share with a sibling, its credit and what it releases), the descent of get and last_key through any well-formed tree, a scan of any range (get_range and the stream over it: each pair of the range once, in order, also when resumed), how an underfull child is joined or shared with its sibling (fix_int), what locking a child or the root for reading or writing does to the parent and brings (rlock, xlock, xlock_nc, xlock_root, xlock_and_merge_root), and which children a range touches. Bounded, not proved: that inserting, removing and flushing, which lock two levels hand over hand, keep a whole tree well-formed, and what operations at the same time do; the compiled real tree shows that on random histories and schedules.",
        parts=[dict(kind="verus", contract="tree"), tree_con("tree", "24000 (thorough: 250000) random histories of up to 1000 operations over up to 600 keys on three kinds of tree with eight kinds of limits, alone or up to four at the same time in a random order of their steps; structure, records, values and credit checked whenever nothing runs")],
        rule="one evaluation = one history of insertions, removals, lookups, scans, range removals, flushes, reopenings and zone cleanings on the compiled real tree over records in memory, in one random order of the tasks' steps, compared with a sorted map; distinct = histories",
        trusted=COMMON_TRUSTED + ["BTreeMap is a map whose keys come in order (new, len, get, insert, remove, split_off, append, range, extract_if, keys)", "binary_search_by on keys in order; Vec::splice and drain", "a value's dpop and ddrop release what it refers to, allocated_space is its size", "Credit by its contract, verified in W01", "a node's lock brings its content, the store's get and pop what is at the address or an error; nothing else runs between a guard's release and the node's next use; a guard is what it guards", "keys are compared by a total order (u128 stands for any)", "Pin<&mut Self> of an Unpin stream is &mut self; polling the boxed future of get_range gives what get_range's contract says, or nothing yet", "the stream yields a definite listing of a tree that does not change under it"],
        assumptions=["a leaf has fewer than 2^28 entries of less than 2^28 bytes each", "credit in use is less than 2^58 bytes", "the largest fan-out is at least twice the smallest plus one (Tree::create uses four times)", "the search uses limits whose largest fan-out is at least four times the smallest, as Tree::create does", "the search runs tasks in one thread (locks of its own), and no operation of the store fails"],
        explanation="A leaf is a map, an inner node a sequence of children in the order of their least keys. split's postcondition: both halves together hold exactly what there was, in order, within the limits, each with the credit its own entries need; merge's and take_*'s: the two siblings together hold what they held, none below its limit. fix_int's: every child but the two is as it was, the two together hold what they held, the parent's keys stay in order and tell each child's least key (or lower), each child's transactions are those of its content, and the two numbers say which of the two is gone. range_delete_get_bounds' : no key of the range is below a child before or behind the bounds, and children to be removed whole have no key outside of the range. get_r's, over well-formed trees of any height: the value found is the entry, and none is found only if there is none. get_range_r's: the pairs it yields are all that the map has in the range up to the bound from which it asks to go on; no scan reaches bounds at which the ordered map panics; poll_next's: every poll yields the next pair of the listing of the range, and the end only behind the last."),
    "D01": ps("D01", ["prop_d01_.*", "clone_loc"], ["prop_d01_round_trip_id", "prop_d01_round_trip_loc", "prop_d01_injective", "theorem_injective"]),
    "D02": ps("D02", ["prop_d02_.*"], ["prop_d02_distinct_disks", "theorem_distinct_disks"]),
    "D03": ps("D03", ["prop_d03_.*", "PrimeSIter::.*", "next", "next_elem"], ["prop_d03_iterate"]),
    "D04": ps("D04", ["prop_d04_.*"], ["prop_d04_monotone", "prop_d04_gap_free", "prop_d04_repetition", "theorem_monotone"]),
}

NOT_APPLICABLE = {
"C03": "The statement quantifies over task interleavings, failures and cancellations of async futures; neither Kani (no threads, no async executor) nor Verus (no closures with captured mutable state, no futures) accepts the macro-generated async code, and no sequential contract expresses it.",
"X01": "A whole-system crash property over FreeBSD-only async code (database, pool, cluster, label) that does not compile here; it is a history property over device state, not a postcondition of functions a deductive verifier for Rust can take.",
"X02": "Concurrent async B+tree over tokio, futures-locks and dynamic traits that do not build offline; lock-coupled concurrent histories are outside Kani and Verus.",
"X03": "Async device I/O with fault sequences over types (mockable vdevs, nix AIO) that do not build here; the pure parts (codec, layout) are decided by E01, E02, D01-D04.",
"X04": "Async interaction of cleaner, writers and the record index over the crates above; no sequential contract expresses non-interference with concurrent writers.",
"X05": "Whole-history POSIX semantics over the async tree; not expressible as contracts on functions that can be extracted here.",
"X06": "The compressors are foreign code (lz4_flex, zstd, byteshuffle), absent from the offline cache; a contract could only be assumed, which would decide nothing.",
"X07": "The parser's code is generated by LALRPOP (table driven, closures and boxed state), beyond Verus' subset and Kani's loop reach; the grammar file itself is not code a deductive verifier reads.",
}
