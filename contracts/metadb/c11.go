package metadb

import (
	"encoding/binary"

	"github.com/smartbch/moeingads/datatree"
	"github.com/smartbch/moeingads/indextree"
	"github.com/smartbch/moeingads/types"
)

// C11: every metadata value reads back as last written for its own shard.

func ghost(db *MetaDB) *types.GhostKV { return indextree.GhostDB(db.kvdb) }

func live(g *types.GhostKV) bool { return g != nil && g.PendSet != nil && g.PendDel != nil }

func shardOK(i int) bool { return 0 <= i && i < types.ShardCount }

func key1(kind byte) string { return string([]byte{kind}) }

func key2(kind byte, shard int) string { return string([]byte{kind, byte(shard)}) }

func keyTwig(shard int, twigID int64) string {
	var k [10]byte
	k[0], k[1] = ByteTwigHeight, byte(shard)
	binary.LittleEndian.PutUint64(k[2:], uint64(twigID))
	return string(k[:])
}

func le64(v int64) string {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(v))
	return string(b[:])
}

func un64(s string) int64 { return int64(binary.LittleEndian.Uint64([]byte(s))) }

func pending(g *types.GhostKV, k string, v string) bool {
	w, ok := g.PendSet[k]
	return ok && w == v && !g.PendDel[k]
}

func hasSet(g *types.GhostKV, k string) bool { _, ok := g.PendSet[k]; return ok }

func same(g *types.GhostKV, k string) bool {
	return hasSet(g, k) == vcOld(func() bool { return hasSet(g, k) }) &&
		g.PendSet[k] == vcOld(func() string { return g.PendSet[k] }) &&
		g.PendDel[k] == vcOld(func() bool { return g.PendDel[k] })
}

func onlyChanged(g *types.GhostKV, k0 string) bool {
	return vcAll(func(k string) bool { return k == k0 || same(g, k) })
}

// reads: the value of a durable key, or the default
func stored(g *types.GhostKV, k string) bool { _, ok := g.Disk[k]; return ok }

func val64(g *types.GhostKV, k string) int64 {
	if v, ok := g.Disk[k]; ok {
		return un64(v)
	}
	return 0
}

// ---- plain fields

func contract_MetaDB_GetRootHash(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	r := db.GetRootHash(shardID)
	vcEnsures("value", r == db.rootHash[shardID])
}

func contract_MetaDB_SetRootHash(db *MetaDB, shardID int, h [32]byte) {
	vcRequires(shardOK(shardID))
	vcModifies(&db.rootHash)
	db.SetRootHash(shardID, h)
	vcEnsures("written", db.rootHash[shardID] == h)
	vcEnsures("other shards keep theirs", vcForall(0, types.ShardCount, func(i int) bool {
		return i == shardID || db.rootHash[i] == vcOld(func() [32]byte { return db.rootHash[i] })
	}))
}

func contract_MetaDB_SetCurrHeight(db *MetaDB, h int64) {
	vcModifies(&db.currHeight)
	db.SetCurrHeight(h)
	vcEnsures("written", db.currHeight == h)
}

func contract_MetaDB_GetCurrHeight(db *MetaDB) {
	r := db.GetCurrHeight()
	vcEnsures("value", r == db.currHeight)
}

func contract_MetaDB_SetLastPrunedTwig(db *MetaDB, shardID int, twigID int64) {
	vcRequires(shardOK(shardID))
	vcModifies(&db.lastPrunedTwig)
	db.SetLastPrunedTwig(shardID, twigID)
	vcEnsures("written", db.lastPrunedTwig[shardID] == twigID)
	vcEnsures("other shards keep theirs", vcForall(0, types.ShardCount, func(i int) bool {
		return i == shardID || db.lastPrunedTwig[i] == vcOld(func() int64 { return db.lastPrunedTwig[i] })
	}))
}

func contract_MetaDB_GetLastPrunedTwig(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	r := db.GetLastPrunedTwig(shardID)
	vcEnsures("value", r == db.lastPrunedTwig[shardID])
}

func contract_MetaDB_GetMaxSerialNum(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	r := db.GetMaxSerialNum(shardID)
	vcEnsures("value", r == db.maxSerialNum[shardID])
}

func contract_MetaDB_GetYoungestTwigID(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	vcRequires(db.maxSerialNum[shardID] >= 0)
	r := db.GetYoungestTwigID(shardID)
	vcEnsures("twig of the next serial number", r == db.maxSerialNum[shardID]/datatree.LeafCountInTwig)
}

func contract_MetaDB_GetOldestActiveTwigID(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	r := db.GetOldestActiveTwigID(shardID)
	vcEnsures("value", r == db.oldestActiveTwigID[shardID])
}

func contract_MetaDB_IncrOldestActiveTwigID(db *MetaDB, shardID int) {
	vcRequires(shardOK(shardID))
	vcRequires(db.oldestActiveTwigID[shardID] < 1<<62)
	vcModifies(&db.oldestActiveTwigID)
	db.IncrOldestActiveTwigID(shardID)
	vcEnsures("one more", db.oldestActiveTwigID[shardID] == vcOld(func() int64 { return db.oldestActiveTwigID[shardID] })+1)
	vcEnsures("other shards keep theirs", vcForall(0, types.ShardCount, func(i int) bool {
		return i == shardID || db.oldestActiveTwigID[i] == vcOld(func() int64 { return db.oldestActiveTwigID[i] })
	}))
}

// ---- values kept in the store

func contract_MetaDB_SetTwigMtFileSize(db *MetaDB, shardID int, size int64) {
	g := ghost(db)
	vcRequires(shardOK(shardID) && live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.SetTwigMtFileSize(shardID, size)
	vcEnsures("pending", pending(g, key2(ByteTwigMtFileSize, shardID), le64(size)))
	vcEnsures("no other key", onlyChanged(g, key2(ByteTwigMtFileSize, shardID)))
}

func contract_MetaDB_GetTwigMtFileSize(db *MetaDB, shardID int) {
	g := ghost(db)
	k := key2(ByteTwigMtFileSize, shardID)
	vcRequires(shardOK(shardID) && g != nil && (!stored(g, k) || len(g.Disk[k]) == 8))
	r := db.GetTwigMtFileSize(shardID)
	vcEnsures("value", r == val64(g, k))
}

func contract_MetaDB_SetEntryFileSize(db *MetaDB, shardID int, size int64) {
	g := ghost(db)
	vcRequires(shardOK(shardID) && live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.SetEntryFileSize(shardID, size)
	vcEnsures("pending", pending(g, key2(ByteEntryFileSize, shardID), le64(size)))
	vcEnsures("no other key", onlyChanged(g, key2(ByteEntryFileSize, shardID)))
}

func contract_MetaDB_GetEntryFileSize(db *MetaDB, shardID int) {
	g := ghost(db)
	k := key2(ByteEntryFileSize, shardID)
	vcRequires(shardOK(shardID) && g != nil && (!stored(g, k) || len(g.Disk[k]) == 8))
	r := db.GetEntryFileSize(shardID)
	vcEnsures("value", r == val64(g, k))
}

func contract_MetaDB_setTwigHeight(db *MetaDB, shardID int, twigID int64, height int64) {
	g := ghost(db)
	vcRequires(shardOK(shardID) && live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.setTwigHeight(shardID, twigID, height)
	vcEnsures("pending", pending(g, keyTwig(shardID, twigID), le64(height)))
	vcEnsures("no other key", onlyChanged(g, keyTwig(shardID, twigID)))
}

func contract_MetaDB_GetTwigHeight(db *MetaDB, shardID int, twigID int64) {
	g := ghost(db)
	k := keyTwig(shardID, twigID)
	vcRequires(shardOK(shardID) && g != nil && (!stored(g, k) || len(g.Disk[k]) == 8))
	r := db.GetTwigHeight(shardID, twigID)
	vcEnsures("value", vcImplies(stored(g, k), r == un64(g.Disk[k])))
	vcEnsures("unknown twig", vcImplies(!stored(g, k), r == -1))
}

func contract_MetaDB_DeleteTwigHeight(db *MetaDB, shardID int, twigID int64) {
	g := ghost(db)
	k := keyTwig(shardID, twigID)
	vcRequires(shardOK(shardID) && live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.DeleteTwigHeight(shardID, twigID)
	vcEnsures("deletion pending", g.PendDel[k] && !hasSet(g, k))
	vcEnsures("no other key", onlyChanged(g, k))
}

func contract_MetaDB_SetEdgeNodes(db *MetaDB, shardID int, bz []byte) {
	g := ghost(db)
	vcRequires(shardOK(shardID) && live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.SetEdgeNodes(shardID, bz)
	vcEnsures("pending", pending(g, key2(ByteEdgeNodes, shardID), string(bz)))
	vcEnsures("no other key", onlyChanged(g, key2(ByteEdgeNodes, shardID)))
}

func contract_MetaDB_GetEdgeNodes(db *MetaDB, shardID int) {
	g := ghost(db)
	k := key2(ByteEdgeNodes, shardID)
	vcRequires(shardOK(shardID) && g != nil)
	r := db.GetEdgeNodes(shardID)
	vcEnsures("present", (r != nil) == stored(g, k))
	vcEnsures("value", vcImplies(stored(g, k), string(r) == g.Disk[k]))
	vcEnsures("absent", vcImplies(!stored(g, k), len(r) == 0))
}

// Advancing the serial number past a twig boundary, and only then, records the
// height of the new twig.
func contract_MetaDB_IncrMaxSerialNum(db *MetaDB, shardID int) {
	g := ghost(db)
	vcRequires(shardOK(shardID) && live(g))
	vcRequires(0 <= db.maxSerialNum[shardID] && db.maxSerialNum[shardID] < 1<<62)
	vcModifies(&db.maxSerialNum, g.PendSet, g.PendDel)
	db.IncrMaxSerialNum(shardID)
	sn := db.maxSerialNum[shardID]
	vcEnsures("one more", sn == vcOld(func() int64 { return db.maxSerialNum[shardID] })+1)
	vcEnsures("other shards keep theirs", vcForall(0, types.ShardCount, func(i int) bool {
		return i == shardID || db.maxSerialNum[i] == vcOld(func() int64 { return db.maxSerialNum[i] })
	}))
	k := keyTwig(shardID, sn/datatree.LeafCountInTwig)
	if sn%datatree.LeafCountInTwig == 0 {
		vcEnsures("height of the new twig", pending(g, k, le64(db.currHeight)))
		vcEnsures("no other key", onlyChanged(g, k))
	} else {
		vcEnsures("no key", vcAll(func(k string) bool { return same(g, k) }))
	}
}

// ---- commit and reload

func isMeta(k string) bool {
	if len(k) == 1 {
		return k[0] == ByteCurrHeight
	}
	return len(k) == 2 && k[1] < types.ShardCount &&
		(k[0] == ByteLastPrunedTwig || k[0] == ByteMaxSerialNum || k[0] == ByteOldestActiveTwigID || k[0] == ByteRootHash)
}

func contract_MetaDB_Commit(db *MetaDB) {
	g := ghost(db)
	vcRequires(live(g))
	vcModifies(g.PendSet, g.PendDel)
	db.Commit()
	vcEnsures("height", pending(g, key1(ByteCurrHeight), le64(db.currHeight)))
	for i := 0; i < types.ShardCount; i++ {
		vcEnsures("last pruned twig", pending(g, key2(ByteLastPrunedTwig, i), le64(db.lastPrunedTwig[i])))
		vcEnsures("serial number", pending(g, key2(ByteMaxSerialNum, i), le64(db.maxSerialNum[i])))
		vcEnsures("oldest twig", pending(g, key2(ByteOldestActiveTwigID, i), le64(db.oldestActiveTwigID[i])))
		vcEnsures("root", pending(g, key2(ByteRootHash, i), string(db.rootHash[i][:])))
	}
	vcEnsures("no other key", vcAll(func(k string) bool { return isMeta(k) || same(g, k) }))
}

func is8(g *types.GhostKV, k string) bool { return stored(g, k) && len(g.Disk[k]) == 8 }

func contract_MetaDB_ReloadFromKVDB(db *MetaDB) {
	g := ghost(db)
	vcRequires(g != nil && is8(g, key1(ByteCurrHeight)))
	for i := 0; i < types.ShardCount; i++ {
		vcRequires(is8(g, key2(ByteLastPrunedTwig, i)) && is8(g, key2(ByteMaxSerialNum, i)) && is8(g, key2(ByteOldestActiveTwigID, i)))
		vcRequires(stored(g, key2(ByteRootHash, i)) && len(g.Disk[key2(ByteRootHash, i)]) == 32)
	}
	vcModifies(&db.currHeight, &db.lastPrunedTwig, &db.maxSerialNum, &db.oldestActiveTwigID, &db.rootHash)
	db.ReloadFromKVDB()
	vcEnsures("height", db.currHeight == un64(g.Disk[key1(ByteCurrHeight)]))
	for i := 0; i < types.ShardCount; i++ {
		vcEnsures("last pruned twig", db.lastPrunedTwig[i] == un64(g.Disk[key2(ByteLastPrunedTwig, i)]))
		vcEnsures("serial number", db.maxSerialNum[i] == un64(g.Disk[key2(ByteMaxSerialNum, i)]))
		vcEnsures("oldest twig", db.oldestActiveTwigID[i] == un64(g.Disk[key2(ByteOldestActiveTwigID, i)]))
		vcEnsures("root", string(db.rootHash[i][:]) == g.Disk[key2(ByteRootHash, i)])
	}
}

// Reading inverts writing, and no two metadata items share a key: with the
// contracts above, every value of a shard reads back as last written.

func lemma_int_round_trip(v int64) {
	vcAssert("length", len(le64(v)) == 8)
	vcAssert("value", un64(le64(v)) == v)
}

func lemma_keys_apart(a, b byte, i, j int, s, t int64) {
	vcRequires(shardOK(i) && shardOK(j))
	vcAssert("kind and shard", vcImplies(key2(a, i) == key2(b, j), a == b && i == j))
	vcAssert("shard and twig", vcImplies(keyTwig(i, s) == keyTwig(j, t), i == j && s == t))
	vcAssert("lengths", key1(a) != key2(b, i) && key1(a) != keyTwig(i, s) && key2(a, i) != keyTwig(j, s))
}
