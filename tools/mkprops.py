import json
P=[]
def p(id,title,st,over,otext,why,files,mech,obs=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=otext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or ["public API results"],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],hook_needed=hook)))
DX="src/filedb/inner/dbxxx.rs"; IX="src/filedb/inner/idx.rs"; KY="src/filedb/inner/key.rs"; VL="src/filedb/inner/val.rs"; HX="src/filedb/inner/htx.rs"; VF="src/filedb/inner/vfile.rs"; NC="src/filedb/inner/nc.rs"; PC="src/filedb/inner/piece.rs"; TR="src/filedb/inner/tr.rs"; LB="src/lib.rs"; MM="src/memdb.rs"; MD="src/filedb/mod.rs"; IM="src/filedb/inner/mod.rs"; DM="src/filedb/dbmap/mod.rs"
KT=["src/filedb/dbmap/kt_dbbytes.rs","src/filedb/dbmap/kt_dbint.rs","src/filedb/dbmap/kt_dbstring.rs"]
p("P01","A map is a last-write-wins dictionary",
 "In a file map of any key type (string, integer, bytes), a get returns the value most recently put for exactly that key, or nothing if the key was never put or was deleted since. A delete removes the key and returns the value it had, or nothing if it was absent. No operation changes the entry of any other key, whatever the order and number of operations.",
 ["histories","inputs"],"every finite sequence of put/get/delete on a map of each key type, over every tree shape (node split, merge, rotation, root growth and collapse), with small and default index nodes",
 "the tests run a few fixed insert/delete sequences in one order and look at a handful of keys; the split/merge/rotate cases that occur depend on the whole history",
 [DX,IX,TR,LB],[("tree insert with split","%s insert_into_node_tree_kt/split"%DX),("tree delete with unify/rotate","%s delete_from_node_tree_kt/delete_at/balance_left/balance_right"%DX),("lookup","%s find_in_node_tree_kt"%DX)],
 state=[("content","key -> value that the history defines","spec SiameseDb!mem")])
p("P02","The hash index never changes a result",
 "The hash index is only an accelerator: every get, put, delete and iteration has the same result whether or not keys share a hash slot. This includes gets, updates and deletes of a key after a colliding key was inserted, updated or deleted, and after the storage of a deleted key was reused by another key, also across a reopen.",
 ["histories","inputs"],"every history over groups of keys whose hashes fall in the same slot, mixed with keys that do not collide",
 "two keys collide with probability 1/16M, so the tests never reach a colliding pair, a stale slot or a slot cleared by another key",
 [HX,DX,LB],[("slot read with key comparison and tree fallback","%s get_kt/put_kt"%DX),("slot overwrite on insert, clear on delete","%s delete_at, insert paths"%DX)],
 state=[("slot","which key piece a hash slot points at","spec Htx!slot")])
p("P03","Iteration yields exactly the current entries in ascending key order",
 "Iterating a map yields every current entry exactly once, with its current value, in strictly ascending byte order of keys, and then ends and stays ended. This holds for an empty map, after any history of puts and deletes, and for every way to iterate (shared, mutable, by reference, consuming).",
 ["histories","inputs"],"every tree shape a history can produce, each iteration form, maps of every size including empty",
 "the tests iterate a few maps built by ascending inserts; the walk is a hand written stack machine whose cases depend on the tree shape",
 [DX,"src/filedb/dbmap/mod.rs",LB],[("stack walk","%s DbXxxIterMut::next_piece_offset"%DX),("iteration forms","%s, %s"%(DM,DX))])
p("P04","Bulk operations equal the single operations in slice order",
 "A bulk get, put or delete has exactly the effect of applying its elements one after the other in the order given: for repeated keys the last put wins, and of repeated deletes the first one gets the value. Results are returned at the position of the corresponding request, the string variants included, whatever the order, repetition or number of the keys.",
 ["inputs","histories"],"every bulk argument (any order, repeated keys, absent keys, empty slice) on every map content and key type",
 "the tests use distinct keys only and check few positions; the implementation reorders the keys internally",
 [LB],[("sort, process, restore positions","%s bulk_get/bulk_put/bulk_put_string/bulk_delete"%LB)])
p("P05","A clean close and reopen preserves the exact content",
 "When every handle to a database has been dropped, with or without a previous flush or sync, opening it again shows each map with exactly the entries it had, and the reopened map keeps behaving correctly under further operations. This holds over any number of sessions.",
 ["histories","configurations"],"every history split into sessions at every point, with every buffer configuration, with and without flush/sync before the close",
 "the tests reopen after a sync of small maps; entries held only in node cache or file buffers at close depend on cache capacity and history",
 [IX,NC,DX,VF],[("node cache written on drop","%s Drop for VarFileNodeCache"%IX),("file buffers written on drop","rabuf Drop"),("top node and free lists in headers","%s, %s"%(IX,PC))])
p("P06","A successful sync makes the map durable; a flush survives a kill",
 "After a map's sync_all or sync_data returned Ok, storage alone (only data written before an fsync or fdatasync of the file that completed) recovers exactly the map's content, given that the content it was opened with was durable, and no write made since is left unsynced in any of its files. After flush returned Ok, killing the process loses nothing. Whenever the map reports that it is not dirty, no change made since it was opened can be lost, whether by a kill or by a power loss.",
 ["histories","crash_points"],"every history of puts, deletes, flushes and syncs (also on a freshly created, never written map) with a process kill or power loss after each successful flush or sync and at each not-dirty point",
 "the tests never look at what reached the files or storage; the in-process view is right even when nothing was written",
 [DX,IX,NC,VF],[("dirty flag","%s put_kt, write_node, flush, sync_all, sync_data"%DX),("node cache flush before file sync","%s sync_all/sync_data/flush"%IX)],
 obs=["write/ftruncate/fsync/fdatasync calls of the process","reopening an image of the files"],state=[("dirty","unsynced changes exist","%s FileDbXxxInner"%DX)])
p("P07","A failed write or fsync is reported and a retried sync still saves",
 "If any write or fsync fails during flush, sync_all or sync_data, that call returns an error instead of Ok and the map stays dirty. The in-memory content is unchanged by the failure, and when the fault has gone a repeated sync that returns Ok makes the complete content durable.",
 ["fault_sequences","histories"],"every position of a failing write (I/O error, full disk) or fsync/fdatasync within a flush or sync, on each of the map's files, followed by a retry",
 "no test injects I/O faults",
 [DX,IX,NC,VF],[("error propagation and dirty flag kept","%s flush/sync_all/sync_data"%DX),("node stays dirty until written","%s write_node/flush"%NC)],
 obs=["return values under injected write/fsync failures","reopening an image of the files"])
p("P08","The index is always a well formed balanced search tree",
 "After every operation the stored index of a map is a search tree holding each live key exactly once in ascending order, with all leaves at the same depth. No node exceeds the maximum number of keys, every node other than the root keeps at least the minimum number of branches, a node has one more branch than keys, and the root is empty only if the map is.",
 ["histories","inputs"],"every tree shape reachable by inserts and deletes (exhaustively by shape for the small node configuration, sampled for the default one)",
 "the tests call the check functions on a few final trees; rebalancing cases depend on sibling occupancy on every level",
 [DX,IX,TR],[("split","%s split_on_insert"%DX),("unify/rotate","%s balance_left/balance_right"%DX),("root trim","%s trim"%DX)],
 obs=["the .idx/.key files decoded by an independent reader"])
p("P09","Every byte of the data and index files is accounted for exactly once",
 "After any history the record and index files consist, without gap or overlap, of the header and of records each of which is either referred to by exactly one live entry or tree node, or is on exactly one free list, the one of its size. No live entry refers to free space, and no space is lost: neither live nor free.",
 ["histories","inputs"],"every history of puts, updates (growing and shrinking) and deletes over all size classes, small and large records, and sessions",
 "no test inspects space; a leak or double use corrupts another key only much later",
 [PC,KY,VL,IX,VF],[("free lists","%s push_free_piece_list/pop_free_piece_list/pop_free_piece_list_large"%PC),("size classes","%s PieceMgr::roundup"%PC),("record write/reuse","%s, %s write_piece; %s write_node"%(KY,VL,IX))],
 obs=["the .key/.val/.idx files decoded by an independent reader"])
p("P10","Freed space is reused before a file grows",
 "A record or index file grows only when no free record of the required size is available, so that the space of deleted and outgrown records is reused. In particular, repeating cycles of inserting and deleting the same data, of any size, does not grow the files beyond the size needed for the peak of live data.",
 ["histories","inputs"],"every history of puts, updates and deletes with sizes over all classes; repeated cycles",
 "no test looks at file sizes over cycles",
 [PC,KY,VL,IX],[("pop before append","%s, %s write_piece, %s write_node"%(KY,VL,IX)),("first fit for large records","%s pop_free_piece_list_large"%PC),("freeing of outgrown/deleted records and merged nodes","%s delete paths"%DX)],
 obs=["file lengths compared with the allocator of the specification"])
p("P11","Maps and databases are isolated from each other",
 "An operation on one map never changes what is observed of another map, in the same database or another one: content, iteration, dirtiness and durability are per map. This holds for maps of different key types and for names where one is a prefix of the other, in any interleaving of operations, syncs and sessions.",
 ["histories","schedules"],"every interleaving of operations over several maps of different types in one or two databases",
 "the tests use one map at a time or distant names",
 [IM,MD,DX],[("registry by name and type","%s FileDbInner"%IM),("one file set per map name","open_with_params of key/val/idx/htx files")])
p("P12","All handles to the same open map show one state",
 "Every handle obtained for a map of an open database (by name again, with other parameters, by cloning the map or database handle) reads and writes the same state, immediately and in any interleaving. Dropping some handles, or the database handle first, loses nothing and the remaining handles keep working; the content is complete on disk once the last handle is gone.",
 ["histories","schedules"],"every interleaving of operations through several handles with drops and re-acquisitions",
 "the tests use one handle per map",
 [MD,IM,DM],[("shared inner state","%s FileDbMap clone; %s db_map_* lookup"%(DM,IM))])
p("P13","A map cannot be opened as another key type",
 "Opening an existing map with a key type other than the one it was created with is refused, in the same session or a later one. The refusal leaves the stored content unchanged: the map can afterwards be opened with its own type with exactly its entries.",
 ["histories","configurations"],"every ordered pair of different key types, for empty and filled maps, in the same and in later sessions",
 "one of the six type pairs at most is touched by tests, never together with the state of the content afterwards",
 [KY,VL,IX,HX]+KT,[("type signature in each file header","check_*_header of the files; signature() of the key types")])
p("P14","Buffer parameters never affect results",
 "Every combination of buffer size parameters (fixed sizes from tiny to large, per mille from 0 to 1000 and more, automatic) for the value, key, index and hash files gives the same results, the same durability and readable files. Reopening a map with other parameters than it was written with shows the same content.",
 ["configurations","histories"],"all kinds of buffer parameter per file, over histories large enough to overflow the buffers",
 "the tests use the default parameters, with which the buffers hardly ever overflow",
 [VF,KY,VL,IX,HX,MD],[("buffer construction","%s with_capacity/with_per_mille"%VF),("spill and refetch of chunks","rabuf")])
p("P15","The in-memory database behaves like the file database",
 "For every sequence of operations offered by both, a map of the in-memory database returns the same results as a file map of the same key type: put, get, delete, their string and bulk variants, with any key, including keys that are not valid UTF-8. Its handles share one state per name and type.",
 ["histories","inputs"],"every history on both back ends, every key type, arbitrary byte keys",
 "the tests run a few distinct ASCII keys on the memory back end",
 [MM,LB],[("ordered map per name and type","%s MemoryDbInner"%MM)])
p("P16","The check and statistics functions tell the truth",
 "On every map state the built in check functions answer without failing and agree with the stored structure: balanced, search-ordered and dense checks, tree depth, numbers of free and used records and nodes per size, key and value length and record size statistics, keys-per-node statistics, hash fill count. The graph dump lists every key once, in order.",
 ["histories","configurations"],"every map state (empty, one node, deep, larger than the node cache, after deletes)",
 "the tests call a few of them on small fresh maps and do not compare them with an independent count",
 [IX,DX,DM,MD,HX,PC],[("tree walks","%s idx_keys_count_stats/count_of_used_node/..."%IX),("free list walks","%s count_of_free_piece_list"%PC)])
p("P17","Read operations change nothing",
 "Gets, bulk gets, iteration, buffer prefill and the check functions never change the content of a map or its dirtiness, and on a map without unsynced changes they write nothing to its files. A session that only reads leaves all files byte for byte as they were.",
 ["histories","configurations"],"every sequence of read operations on every map state and buffer configuration, followed by close and reopen",
 "no test compares the files around read operations",
 [DX,IX,NC,VF,HX],[("clean cache entries and chunks are not written","%s dirty bits"%NC),("dirty only set by writes","%s"%DX)],
 obs=["file bytes and write calls around read-only sequences"])
p("P18","Keys and values are opaque bytes stored with full fidelity",
 "Any byte string is stored and returned exactly, as key and as value: empty, with zero bytes or 0xff, one key a prefix of another, and of any length from nothing to many times the internal buffer and record size classes. Distinct byte strings are distinct keys, ordered by their bytes; integer keys are ordered by number over the whole 64-bit range.",
 ["inputs","histories"],"all key and value lengths around every size class and buffer boundary, byte patterns, prefix families, boundary integers",
 "the tests use short ASCII keys and a few value sizes",
 [KY,VL,LB,DX]+KT,[("length prefixed records","%s, %s dat_write_piece_one/read_piece"%(KY,VL)),("byte order comparison","cmp_u8 of the key types"),("big endian integers","src/filedb/dbmap/kt_dbint.rs")])
p("P19","The on-disk format stays readable and correct",
 "Files written by the pinned release are opened with exactly their content and stay fully usable, and files written now follow the documented layout: signatures, type tags, header fields, record, node and hash-slot encoding, little-endian. A reader written from the documented layout alone recovers exactly the map's content from the files after a clean close or sync.",
 ["histories","configurations"],"stored databases of every key type with every kind of record, and every content written by a current history",
 "no test reads files of an earlier build or decodes the files independently; writer and reader can change together",
 [KY,VL,IX,HX,TR,VF,PC],[("file headers","write_*_init_header/check_*_header"),("encodings","%s, %s dat_write_piece_one; %s idx_write_node_one; %s"%(KY,VL,TR,VF)),("hash function","%s HashValue"%LB)],
 obs=["golden database files","the four files decoded by an independent reader"])
p("P20","Creating a map survives a kill at any point",
 "If the process is killed at any point while a new map is being opened, before or between any of the writes this issues, the directory is left so that the map opens again later as an empty, fully usable map of the same type. Maps that existed before are unaffected.",
 ["crash_points","configurations"],"every prefix of the sequence of file system effects (create, write, set length) of opening a new map, for every key type and buffer configuration",
 "no test stops in the middle of an open",
 [KY,VL,IX,HX,DX],[("header written when the file is empty","open_with_params of each file"),("creation order and completion of an interrupted creation","%s open_with_params, %s"%(HX,DX))],
 obs=["images of the directory after each write/ftruncate call of the open"])
p("P21","Syncing the database syncs every map of every type",
 "When sync_all or sync_data on a database returns Ok, every map opened through that database, of every key type and through whatever handle it was changed, is durable in the sense of P06 and reports not dirty. If syncing any of them fails, an error is returned.",
 ["histories","fault_sequences"],"every set of maps of mixed types with changes in any subset, and a failure in any one of them",
 "the tests do not look at storage after a database sync",
 [MD,IM],[("sync applied to every registered map","%s FileDbInner sync_all/sync_data"%IM)],
 obs=["write/fsync calls of the process","reopening an image of the files"])
p("P22","Build options never change behaviour",
 "In every combination of the crate's optional features that builds (fixed or variable width fields and nodes, with or without the hash index, the node cache and its replacement policies, direct or decoded node search, node sizes), and in release builds as in debug builds, a map gives the same results, iteration order, durability and persistence as in the default debug build: the features select encodings and accelerators only.",
 ["configurations","histories"],"the crate's feature combinations and both build profiles, each over the histories of the other properties",
 "the tests run in one build at a time, the default debug one; code selected by another feature or removed in a release build is never executed by them",
 ["Cargo.toml",DX,IX,NC,TR,VF,"src/filedb/inner/mod.rs"],[("variable width integers and nodes","%s, %s (vf_vu64, vf_node_u64)"%(VF,TR)),("node search without the hash index or the cache","%s, %s (htx, node_cache, idx_find_uu)"%(DX,IX)),("assertions removed in release builds","debug_assert! throughout")])
p("P23","Failing and partial reads never give a wrong answer",
 "If the system fails to read a file, or to write out a full buffer, while a map is opened or read (get, bulk get, iteration, buffer filling), the operation reports it by an error or a panic instead of returning a wrong or missing result or ending an iteration early; whatever it returns as a result under such failures is right. Nothing is changed or lost by it: once the system works again the same handle shows all of its content, and the next save saves it. A put or delete that returns Ok under such failures took effect. Partial and interrupted reads and writes, which a system may make at any time, have no visible effect.",
 ["fault_sequences","histories"],"a failure of any read call, or of any write call made during a read, of any of the four files, once or lastingly, at every point of a history, with cold and with full buffers; partial and interrupted calls throughout",
 "the tests run on a file system that never fails",
 [DX,IX,HX,KY,VL,NC,VF,TR],[("errors are handed on","%s get_kt and find_in_node_tree_kt"%DX),("iteration unwraps reads","%s DbXxxIterMut"%DX),("the node cache is written before a lookup by offset","%s flush_node_cache_clear, %s clear/write_node"%(IX,NC))],
 obs=["public API results while read/write calls of the process fail","file images afterwards"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P),max(len(x['title']) for x in P))
