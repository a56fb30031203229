import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
I=["inputs"];H=["histories"];IH=["inputs","histories"]
p("C01","Log entries round-trip bit-exactly, for any key and value bytes",
 "An entry appended to the entry log, with any key, value and next key (including bytes equal to, overlapping or adjacent to the record separator) and any list of deactivated serial numbers short enough for its one-byte count, reads back with exactly the same fields and list, and the reported position of the next record is the position at which the next append lands. No record starts anywhere but at its own separator, so a scan from any record start visits exactly the records appended after it, in order.",
 I,"all keys/values/next keys, heights, serial numbers, deactivation lists of up to 255 items, all lengths that fit the 24-bit length field",
 "The tests append a few dozen fixed or random entries; separator bytes inside keys/values, at their borders, and every length modulo the padding are inputs no sample covers.",
 ["datatree/entryfile.go"],[("length/padding arithmetic","datatree/entryfile.go:getNextPos,getPaddingSize"),("separator escaping","datatree/entryfile.go:getAllPos,EntryToBytes,recoverMagicBytes"),("payload codec","datatree/entryfile.go:writeEntryPayload,EntryFromBytes")],
 [("entry file","sequence of padded records","datatree/entryfile.go:EntryFile")],["ReadEntry","ReadEntryAndSNList","ReadEntryRawBytes"])
p("C02","Moving a record as raw bytes equals re-encoding the entry",
 "Taking the stored bytes of a record, reading its key and serial number out of them, patching the serial number and appending them again with a new deactivation list yields exactly the bytes that encoding the same entry with the new serial number and list would have produced. The key and serial number extracted from raw bytes equal those of the decoded entry, for records with and without separator bytes inside.",
 I,"all entries and deactivation lists",
 "Tests compact only entries without embedded separators and compare end results of a few histories; the equality of two encoders is a statement over all inputs.",
 ["datatree/entryfile.go","datatree/tree.go"],[("raw field access","datatree/entryfile.go:ExtractKeyFromRawBytes,ExtractSerialNum,UpdateSerialNum,SNListToBytes"),("raw append","datatree/tree.go:AppendEntryRawBytes")],[],["AppendEntryRawBytes"])
p("C03","Segmented head-prunable file behaves as one append-only byte log",
 "Appending byte slices returns the log position where they start, and after a flush reading any range inside one append returns exactly the appended bytes, whatever the buffer and segment boundaries crossed and whether or not the read-ahead buffer is used. The reported size is the end of the log (the position the next append returns); truncating keeps every byte below the cut and makes the next append start at it; pruning the head removes only whole segments below the given position.",
 ["inputs","histories"],"all sequences of append, flush, read, truncate and prune with appends not longer than the write buffer, all buffer sizes dividing the segment size",
 "The unit test appends a handful of small slices; buffer splits, segment overflow and read-ahead refills depend on exact length arithmetic over all histories.",
 ["datatree/hpfile.go"],[("append with buffering and roll-over","datatree/hpfile.go:Append,flush"),("positional reads","datatree/hpfile.go:ReadAt,readAtWithBuf,PreReader"),("cutting","datatree/hpfile.go:Truncate,PruneHead")],
 [("log","segments + write buffer","datatree/hpfile.go:HPFile")],["Append","ReadAt","Size"])
p("C04","Stored twig trees return the right node for every id",
 "After the 4095 Merkle nodes and first-entry position of a full twig are appended to the twig file, asking for any node id of that twig returns exactly that node when it is stored, and the hash recomputed from the stored leaves when its level is not stored; asking for the first-entry position returns the stored one or fails its checksum. This holds for any number of twigs in the file and with or without a node cache filled by earlier lookups.",
 I,"all twig ids, all node ids 1..4095, all node contents, all first-entry positions",
 "The test samples node ids on one or two twigs; offsets of the skipped levels and the little-cone recomputation must be right for each of 4095 ids.",
 ["datatree/twigmtfile.go"],[("layout with skipped levels","datatree/twigmtfile.go:AppendTwig,GetHashNode"),("cone recovery","datatree/twigmtfile.go:getHashNodeInIgnoreRange,getLeafRange")],[],["GetHashNode","GetFirstEntryPos"])
p("C05","Activity bits change exactly where asked, and are reported",
 "Activating or deactivating the entry with some serial number changes that entry's activity bit and no other bit of any twig, reading the bit back gives the value last written, and out-of-range offsets are refused. Every deactivation is recorded in order in the list written with the next log record, and every change marks the enclosing 512-entry hash region as touched.",
 IH,"all serial numbers of live twigs, all prior bit contents",
 "Tests flip a few bits; the frame condition (no other bit anywhere changes) is a statement over all 2048 offsets and all prior states.",
 ["datatree/tree.go"],[("bit ops","datatree/tree.go:setBit,clearBit,getBit"),("book-keeping","datatree/tree.go:setEntryActiviation,AppendEntry")],
 [("activeBits","2048 bits per twig","datatree/tree.go:Twig")],["GetActiveBit","DeactiviateEntry"])
p("C06","Twig roots commit to the activity bits after every sync",
 "After a block ends, for every twig whose bits were touched, the stored hashes over its activity bits and its twig root equal the level-tagged SHA-256 Merkle hashes of the current bits and the current leaf-tree root, and untouched twigs keep their hashes. The list of changed subtrees handed upward is sorted, duplicate-free and names the parent of exactly every touched twig.",
 IH,"all sets of touched regions, all bit contents, any number of twigs",
 "Which regions are touched in a block is arbitrary; tests check few fixed patterns on small trees.",
 ["datatree/tree.go","datatree/hasher.go"],[("level by level sync","datatree/tree.go:syncL1,syncL2,syncL3,syncTop,syncMT4ActiveBits"),("batched hashing","datatree/hasher.go:Hasher")],[],["EndBlock"])
p("C07","The in-memory leaf tree is a Merkle tree of the appended records",
 "After any number of records are appended to the youngest twig and the leaf tree is synced, each appended record's leaf is the SHA-256 of its stored bytes, each never-written leaf is the hash of the null entry, and every inner node is the level-tagged hash of its two children, up to the twig's leaf root. Incremental syncing of any range of changed leaves gives the same tree as building it from scratch.",
 IH,"all change ranges [start,end] within a twig, all leaf contents, all positions at which blocks end",
 "Ranges are picked by where blocks happen to end; tests try few; odd/even borders and the parallel batches must be right for all 2048*2049/2 ranges.",
 ["datatree/tree.go","datatree/hasher.go"],[("range sync","datatree/tree.go:syncMTree,syncMT4YoungestTwig"),("null tree","datatree/tree.go:init")],[],["EndBlock"])
p("C08","Upper tree nodes and the shard root commit to all twig roots",
 "After the changed twigs are propagated upward, every updated upper node is the level-tagged hash of its two children, a child that does not exist yet counts as the fixed padding hash of its level, and the returned root is the node at the top of the tree for the current number of twigs. Nodes outside the paths from changed twigs to the root are left alone.",
 IH,"all numbers of twigs, all change sets, trees with pruned left parts",
 "The shape changes each time the twig count passes a power of two and depends on pruned parts; tests use a few sizes.",
 ["datatree/tree.go"],[("level-wise propagation","datatree/tree.go:syncUpperNodes,syncNodesByLevel,calcMaxLevel,maxNAtLevel,getTwigRoot"),("position packing","datatree/tree.go:Pos,Level,Nth")],[],["EndBlock"])
p("C09","Inclusion proofs verify, serialise losslessly, and cannot be altered",
 "A proof is accepted only if its chain of level-tagged hashes links the leaf hash and the activity-bit chunk to the stated root, at the tree position given by its serial number; the proof produced for any existing entry is accepted; and serialising then parsing a proof gives the same proof, while byte strings of the wrong length are rejected. A proof in which any hash was changed and the rest kept is rejected.",
 I,"all serial numbers, all node contents, all upper path lengths, all alterations of one field",
 "Tests check proofs of one small tree; acceptance of every valid proof and rejection of every altered one quantify over all proofs.",
 ["datatree/proof.go"],[("verification","datatree/proof.go:Check,CheckProof"),("codec","datatree/proof.go:ToBytes,BytesToProofPath"),("path construction","datatree/proof.go:getLeftPath,getRightPath,getUpperPathAndRoot,GetProof")],[],["GetProofBytesAndCheck"])
p("C10","Snapshots of tree memory round-trip and detect corruption",
 "Twigs, upper nodes, edge nodes and the youngest leaf tree written to a snapshot load back with identical contents and identity, and a record whose checksum does not match its bytes is reported as an error rather than loaded silently. Node positions pack and unpack to the same level and index.",
 I,"all twig contents, node sets, positions with level < 64 and index < 2^55",
 "One snapshot of one small tree is tested; field order and offsets must match for all contents, and each corrupted byte must be noticed.",
 ["datatree/load.go","datatree/recover.go","datatree/tree.go"],[("twig codec","datatree/load.go:Dump,LoadTwigFromFile"),("node codec","datatree/load.go:DumpNodes,LoadNodes;datatree/recover.go:EdgeNodesToBytes,BytesToEdgeNodes"),("leaf tree codec","datatree/load.go:DumpMtree4YT,LoadMtree4YT")],[],["SaveMemToDisk","LoadTree"])
p("C11","Per-shard metadata survives commit and reload unchanged",
 "Every metadata value (height, file sizes, serial-number counter, oldest live twig, last pruned twig, root hash, edge nodes, twig heights) reads back as last written for its own shard without disturbing another shard or another kind of value, and after commit and reopening the store the reloaded values equal the committed ones. Advancing the serial number past a twig boundary records the current height for the new twig, and only then.",
 IH,"all shards, all values, all interleavings of setters, commit and reload",
 "The test sets each field once with small numbers; key collisions, negative values and per-shard isolation need all inputs.",
 ["metadb/metadb.go"],[("key/value codec","metadb/metadb.go:Commit,ReloadFromKVDB,setTwigHeight,GetTwigHeight"),("serial counter","metadb/metadb.go:IncrMaxSerialNum")],[],["ReloadFromKVDB"])
p("C12","Live keys form one sorted linked chain after every block",
 "After any block of inserts, updates and deletes, every live entry's next key is the smallest live key above it, from the start guard to the end guard, so the chain visits exactly the live keys in order and proves absence of all others. Setting and deleting a key within the same block leaves the chain as if the key had never been there when it was absent before.",
 H,"all sequences of blocks of inserts, updates, deletes (several adjacent deletes or inserts, set then delete in one block)",
 "Tests run random histories through mocks and compare with themselves; chain breaks need particular adjacent combinations inside one block.",
 ["moeingads.go"],[("link repair","moeingads.go:update,getPrev,getNext,isFakeInserted,isInserted,isModified"),("neighbour loading","moeingads.go:PrepareForUpdate,PrepareForDeletion,getPrevEntry")],[],["CheckConsistency","GetEntry"])
p("C13","Each live key has exactly one active record, holding its last value",
 "After each block, a key that was last set has exactly one active record, with the last value written, the height of its last change and the height before; a key that was deleted has no active record and cannot be found; and serial numbers are given to appended records consecutively per shard. Keys not written and not neighbours of a written key keep their record.",
 H,"all sequences of blocks",
 "The number of active records per key is never asserted by tests, and depends on combinations of operations within a block and on neighbour updates.",
 ["moeingads.go","datatree/tree.go"],[("per-shard application","moeingads.go:update,DeactiviateEntry,flushDeactivedSNList"),("set/delete marking","moeingads.go:Set,Delete")],[],["GetEntry","GetActiveBit"])
p("C14","Compaction never changes any key's value or the set of live keys",
 "Moving the active records out of the oldest twig keeps every live key readable with the same key, value, next key and heights, leaves no active record in the evicted twig, and gives each moved record a fresh serial number. Dead records are not resurrected.",
 H,"all states in which compaction triggers",
 "Compaction starts only in big states; tests lower thresholds and check few histories.",
 ["moeingads.go","datatree/entryfile.go","datatree/tree.go"],[("move loop","moeingads.go:compactForShard"),("active scan","datatree/entryfile.go:getActiveEntriesInTwig"),("eviction","datatree/tree.go:EvictTwig,EndBlock")],[],["GetEntry"])
p("C15","The state root is the Merkle root of the eight shard roots in order",
 "The reported state root equals SHA-256 over the pairwise SHA-256 tree of the eight shard roots in shard order, so it is the same for equal shard roots and changes when any shard root changes (unless SHA-256 collides). Reading it changes nothing.",
 I,"all eight-tuples of shard roots",
 "Tests only compare roots of equal histories; a swapped or omitted shard root would be consistent in all of them.",
 ["moeingads.go"],[("fold","moeingads.go:GetRootHash")],[],["GetRootHash"])
p("C16","Keys are partitioned totally and order-consistently",
 "Every 8-byte key belongs to exactly one shard and one index channel, both monotone in the byte they are derived from and within bounds, equal partitions per shard, and keys of any other length (the guards) go to a fixed shard. Hash-derived keys are mapped strictly between the guards and stay distinct whenever they differ in the low seven bits of the first byte.",
 I,"all keys and bytes",
 "A wrong border affects few byte values and only loses data when a key with it is used.",
 ["types/types.go","indextree/recentcache.go"],[("partition","types/types.go:GetShardID,GetIndexChanID,LimitRange")],[],["GetShardID"])
p("C17","Layered stores give read-your-writes and write back exactly the net effect",
 "A read through the overlay returns the value last set in the overlay, nothing if it was last deleted there, and the parent's value otherwise, and returned slices are the caller's own; writing back applies to the parent each overlay key exactly once with its final value or deletion, and nothing else. The read cache of the root store never returns a value different from the underlying database.",
 H,"all sequences of get, set, delete, write-back over any number of keys (empty values mean deletion)",
 "Tests use random histories on few keys; cache staleness depends on order of cache fill, eviction, delete.",
 ["store/cache.go","store/trunk.go","store/root.go"],[("overlay","store/cache.go:CacheStore"),("trunk","store/trunk.go:Get,writeBack,Update"),("root cache","store/root.go:Get,Set,Delete,addToCache")],[],["Get"])
p("C18","Long-key store is a map: short-key collisions never mix values",
 "Through the store that maps arbitrary keys onto 8-byte slots with chained probing, getting a key returns the value last set for exactly that key, and nothing after deletion or if never set, whatever other keys share slots on its probe path. Slot contents serialise and parse back without loss, and malformed slot bytes are rejected.",
 IH,"all keys and values, all histories of set, get, delete, including colliding probe paths",
 "Collisions of 8-byte hash prefixes do not occur by chance in tests with full key size.",
 ["store/rabbit/rabbit.go","store/rabbit/simple_cache.go","store/rabbit/simple_multi.go"],[("probing and pass-by counts","store/rabbit/rabbit.go:find,setHelper,Delete"),("slot codec","store/rabbit/simple_cache.go:ToBytes,BytesToCachedValue")],[],["Get","Has"])
p("C19","Index lookups and range iterators return exactly the live keys in order",
 "Looking up a key gives the position last set for it and not found after deletion; a forward (reverse) iterator over [start,end) visits exactly the live keys in that half-open range in ascending (descending) order with their positions, and an empty or inverted range yields nothing. Iterators and reads are refused while a write phase is open.",
 IH,"all key sets, all ranges, both directions, all histories of set and delete",
 "Border keys (range ends that are or are not live, first/last key, extreme 64-bit keys) are sampled only by chance.",
 ["indextree/indextree.go","indextree/b/cppbtree/btree.go","indextree/mock_indextree.go"],[("iterators","indextree/indextree.go:Iterator,ReverseIterator,Next"),("b-tree binding","indextree/b/cppbtree")],[],["Iterator","ReverseIterator","Get"])
p("C20","Historical reads return the position as of the requested height",
 "With history enabled, reading a key at height h returns the position set by the last write at or below h, not found if that write was a deletion or there is none, and refuses heights at or below the prune height; other keys, however similar, never influence the result. Dropping old versions removes only index records created below the prune height and never touches metadata records.",
 IH,"all write histories, all keys, all heights below 2^64-1",
 "Tests read back a few heights; version borders (exactly at, one below, one above a write), neighbours in key order and deletions need all of them.",
 ["indextree/indextree.go","indextree/rocks_db.go"],[("versioned keys","indextree/indextree.go:Set,Delete,GetAtHeight"),("reverse seek","indextree/rocks_db.go:newRocksDBIterator"),("prune filter","indextree/rocks_db.go:Filter")],[],["GetAtHeight"])
p("C21","Recovery from the log rebuilds the state that was there",
 "Re-reading the records written since the oldest live twig rebuilds the same activity bits, leaf hashes, first-entry positions, upper nodes and root that the running store had, so that a cleanly closed store always reopens with the recorded root, with the same contents, and goes on producing the same roots as one that was never closed.",
 H,"all histories at every point of a close, with and without compaction and pruning before it",
 "Tests reopen at a few points; each recovery step must mirror each append step for all records.",
 ["datatree/recover.go","moeingads.go"],[("replay step","datatree/recover.go:RecoverEntry"),("scan","datatree/recover.go:ScanEntries"),("rebuild","datatree/recover.go:RecoverTree,RecoverUpperNodes,RecoverInactiveTwigRoots")],[],["NewMoeingADS"])
p("C22","Metadata never runs ahead of the data files at a crash",
 "At the moment the block's metadata becomes durable, every byte of the log files below the sizes recorded in it has been flushed, and a crash at any earlier moment leaves the previous block's metadata and all the file bytes it refers to, so reopening restores either the previous or the new block, never a mix.",
 ["crash_points","histories"],"every crash point of every block",
 "No test crashes the store; the order of flush and commit is visible only at a crash.",
 ["moeingads.go","datatree/hpfile.go","datatree/tree.go","indextree/rocks_db.go"],[("commit protocol","moeingads.go:EndWrite,allShardEndBlock,initGuards"),("flush","datatree/hpfile.go:StartFlushing,WaitForFlushing"),("atomic batch","indextree/rocks_db.go:CloseOldBatch")],[],["NewMoeingADS after a crash"])
p("C23","Concurrent readers see whole blocks only",
 "Readers running concurrently with block execution see the state before or after the block, never a partially applied block, and no schedule of the internal workers changes results, races or deadlocks.",
 ["schedules"],"all goroutine schedules",
 "The race detector samples schedules.",
 ["moeingads.go","datatree/hasher.go","store/root.go","indextree/indextree.go"],[("rw locks","store/root.go:RLock;indextree/indextree.go:BeginWrite"),("worker pools","datatree/hasher.go:ParallelRun")],[],["Get during EndWrite"])
p("C24","Pruning removes only dead history and the store stays reopenable",
 "Pruning below a height removes only log data of twigs that have no live entries and finished below that height, keeps enough boundary nodes to go on computing the same roots, leaves every live key readable and provable, and what was pruned is recorded durably, so closing and reopening right after pruning works and gives the same root.",
 H,"all histories and prune heights",
 "Tests prune a small tree once; which nodes are needed depends on alignment of the cut.",
 ["moeingads.go","datatree/tree.go","datatree/recover.go"],[("prune selection","moeingads.go:PruneBeforeHeight"),("node reaping","datatree/tree.go:PruneTwigs,removeUselessNodes,getEdgeNodes")],[],["PruneBeforeHeight","NewMoeingADS"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
