package indextree

import "github.com/smartbch/moeingads/types"

// uf_curr names the batch of a store; the ghost view stays the same when the
// batch is replaced.
func uf_curr(db IKVDB) types.Batch { return nil }

// GhostDB is the ghost view of the store behind an IKVDB.
func GhostDB(db IKVDB) *types.GhostKV { return types.Uf_kv(uf_curr(db)) }

func contract_iface_IKVDB_LockBatch(db IKVDB)   { db.LockBatch() }
func contract_iface_IKVDB_UnlockBatch(db IKVDB) { db.UnlockBatch() }

func contract_iface_IKVDB_CurrBatch(db IKVDB) {
	b := db.CurrBatch()
	vcReturns(b, uf_curr(db))
}

func contract_iface_IKVDB_Get(db IKVDB, key []byte) {
	g := GhostDB(db)
	vcFreshResult(0)
	r := db.Get(key)
	v, ok := g.Disk[string(key)]
	vcEnsures("present", (r != nil) == ok)
	vcEnsures("value", vcImplies(ok, string(r) == v))
	vcEnsures("absent", vcImplies(!ok, len(r) == 0))
}

func uf_pruneHeight(db IKVDB) uint64 { return 0 }
func uf_pruneOn(db IKVDB) bool       { return false }

func contract_iface_IKVDB_GetPruneHeight(db IKVDB) {
	h, on := db.GetPruneHeight()
	vcEnsures("height", h == uf_pruneHeight(db) && on == uf_pruneOn(db))
}

// The last record below a key, in the byte order of the store.
func uf_anyBelow(g *types.GhostKV, end string) bool    { return false }
func uf_lastBelow(g *types.GhostKV, end string) string { return "" }

func contract_iface_IKVDB_ReverseIterator(db IKVDB, start, end []byte) {
	vcRequires(len(start) == 0 && end != nil)
	d := GhostDB(db)
	it := db.ReverseIterator(start, end)
	g := types.Uf_iter(it)
	vcEnsures("iterator", it != nil && g != nil)
	vcEnsures("on the last record below the end", g.Valid == uf_anyBelow(d, string(end)))
	if g.Valid {
		v, ok := d.Disk[g.Key]
		vcEnsures("a record", ok && v == g.Value && g.Key == uf_lastBelow(d, string(end)))
	}
}
