package store

import (
	"github.com/smartbch/moeingads/store/types"
	adstypes "github.com/smartbch/moeingads/types"
)

// C17: layered stores.

// ---- the overlay's map; an empty value means deleted

func cached(m map[string]string, k string) bool { _, ok := m[k]; return ok }

func contract_CacheStore_Get(cs *CacheStore, key []byte) {
	vcFreshResult(0)
	v, ok := cs.m[string(key)]
	res, status := cs.Get(key)
	vcEnsures("missed", (status == types.Missed) == !ok)
	vcEnsures("deleted", (status == types.JustDeleted) == (ok && len(v) == 0))
	vcEnsures("hit", (status == types.Hit) == (ok && len(v) != 0))
	vcEnsures("value", vcImplies(ok && len(v) != 0, string(res) == v))
	vcEnsures("none", vcImplies(!ok || len(v) == 0, res == nil))
}

func contract_CacheStore_Set(cs *CacheStore, key, value []byte) {
	vcRequires(cs.m != nil)
	vcModifies(cs.m)
	cs.Set(key, value)
	v, ok := cs.m[string(key)]
	vcEnsures("set", ok && v == string(value))
	vcEnsures("others kept", vcAll(func(k string) bool {
		return k == string(key) || cs.m[k] == vcOld(func() string { return cs.m[k] }) &&
			cached(cs.m, k) == vcOld(func() bool { return cached(cs.m, k) })
	}))
}

func contract_CacheStore_Delete(cs *CacheStore, key []byte) {
	vcRequires(cs.m != nil)
	vcModifies(cs.m)
	cs.Delete(key)
	v, ok := cs.m[string(key)]
	vcEnsures("marked deleted", ok && v == "")
	vcEnsures("others kept", vcAll(func(k string) bool {
		return k == string(key) || cs.m[k] == vcOld(func() string { return cs.m[k] }) &&
			cached(cs.m, k) == vcOld(func() bool { return cached(cs.m, k) })
	}))
}

func contract_CacheStore_RealDelete(cs *CacheStore, key []byte) {
	vcModifies(cs.m)
	cs.RealDelete(key)
	vcEnsures("gone", !cached(cs.m, string(key)))
	vcEnsures("others kept", vcAll(func(k string) bool {
		return k == string(key) || cs.m[k] == vcOld(func() string { return cs.m[k] }) &&
			cached(cs.m, k) == vcOld(func() bool { return cached(cs.m, k) })
	}))
}

// ---- the overlay reads through

func uf_rootValue(root int, k string) string { return "" }
func uf_rootNil(root int, k string) bool     { return false }

func contract_iface_RootStoreI_Get(root types.RootStoreI, key []byte) {
	vcFreshResult(0)
	r := root.Get(key)
	vcEnsures("value", string(r) == uf_rootValue(0, string(key)))
	vcEnsures("none", (r == nil) == uf_rootNil(0, string(key)))
}

func contract_TrunkStore_Get(ts *TrunkStore, key []byte) {
	vcRequires(ts.cache != nil && ts.root != nil)
	vcPanicsIf(ts.isWriting != 0) // refused
	v, ok := ts.cache.m[string(key)]
	r := ts.Get(key)
	vcEnsures("last set here", vcImplies(ok && v != "", r != nil && string(r) == v))
	vcEnsures("deleted here", vcImplies(ok && v == "", r == nil))
	vcEnsures("the parent's", vcImplies(!ok, string(r) == uf_rootValue(0, string(key)) && (r == nil) == uf_rootNil(0, string(key))))
}

// ---- the root store's read cache

func inCache(root *RootStore, s int, k string) bool { _, ok := root.cache[s][k]; return ok }

func contract_RootStore_addToCache(root *RootStore, key, value []byte) {
	s := adstypes.GetShardID(key)
	vcRequires(root.cache[s] != nil)
	vcModifies(root.cache[s])
	root.addToCache(key, value)
	e, ok := root.cache[s][string(key)]
	vcEnsures("cached", ok && e.value == string(value))
	vcEnsures("nothing else changes or appears", vcAll(func(k string) bool {
		return k == string(key) || !inCache(root, s, k) || vcOld(func() bool { return inCache(root, s, k) }) &&
			root.cache[s][k].value == vcOld(func() string { return root.cache[s][k].value })
	}))
}

// ---- write-back applies exactly the overlay's entries to the parent

// What the parent was told, in recV (value, "" for a deletion) and recD.
var recV map[string]string
var recD map[string]bool

func inShard(k string, shardID int) bool { return adstypes.GetShardID([]byte(k)) == shardID }

func contract_iface_RootStoreI_Set(root types.RootStoreI, key, value []byte) {
	vcRequires(recV != nil && recD != nil)
	vcModifies(recV, recD)
	root.Set(key, value)
	vcEnsures("told", cached(recV, string(key)) && recV[string(key)] == string(value) && !recD[string(key)])
	vcEnsures("others", vcAll(func(k string) bool {
		return k == string(key) || cached(recV, k) == vcOld(func() bool { return cached(recV, k) }) &&
			recV[k] == vcOld(func() string { return recV[k] }) && recD[k] == vcOld(func() bool { return recD[k] })
	}))
}

func contract_iface_RootStoreI_Delete(root types.RootStoreI, key []byte) {
	vcRequires(recV != nil && recD != nil)
	vcModifies(recV, recD)
	root.Delete(key)
	vcEnsures("told", cached(recV, string(key)) && recV[string(key)] == "" && recD[string(key)])
	vcEnsures("others", vcAll(func(k string) bool {
		return k == string(key) || cached(recV, k) == vcOld(func() bool { return cached(recV, k) }) &&
			recV[k] == vcOld(func() string { return recV[k] }) && recD[k] == vcOld(func() bool { return recD[k] })
	}))
}

func contract_iface_RootStoreI_BeginWrite(root types.RootStoreI) { root.BeginWrite() }
func contract_iface_RootStoreI_EndWrite(root types.RootStoreI)   { root.EndWrite() }
func contract_iface_RootStoreI_Lock(root types.RootStoreI)       { root.Lock() }
func contract_iface_RootStoreI_Unlock(root types.RootStoreI)     { root.Unlock() }

func inv_CacheStore_ScanAllEntriesInShard_0(cs *CacheStore, shardID int) bool {
	return recV != nil && recD != nil && vcAll(func(k string) bool {
		return cached(recV, k) == (vcVisited(cs.m, k) && cached(cs.m, k) && inShard(k, shardID) || vcEntry(func() bool { return cached(recV, k) })) &&
			vcImplies(cached(recV, k), vcEntry(func() bool { return cached(recV, k) }) || recV[k] == cs.m[k] && recD[k] == (cs.m[k] == "")) &&
			vcImplies(!inShard(k, shardID), recV[k] == vcEntry(func() string { return recV[k] }) && recD[k] == vcEntry(func() bool { return recD[k] }))
	})
}

func contract_CacheStore_ScanAllEntriesInShard__all(cs *CacheStore, shardID int) {
	vcRequires(recV != nil && recD != nil && vcAll(func(k string) bool { return !cached(recV, k) }))
	vcModifies(recV, recD)
	cs.ScanAllEntriesInShard(shardID, func(k, v []byte, isDeleted bool) {
		vcAssert("each entry once", !cached(recV, string(k)))
		recV[string(k)] = string(v)
		recD[string(k)] = isDeleted
	})
	vcEnsures("exactly the entries of the shard", vcAll(func(k string) bool {
		return cached(recV, k) == (cached(cs.m, k) && inShard(k, shardID))
	}))
	vcEnsures("with their values and deletions", vcAll(func(k string) bool {
		return vcImplies(cached(recV, k), recV[k] == cs.m[k] && recD[k] == (cs.m[k] == ""))
	}))
}

func contract_TrunkStore_writeBack(ts *TrunkStore) {
	vcRequires(ts.cache != nil && ts.root != nil)
	vcRequires(recV != nil && recD != nil && vcAll(func(k string) bool { return !cached(recV, k) }))
	vcPanicsIf(ts.isWriting != 0)
	vcModifies(recV, recD, &ts.isWriting)
	ts.writeBack()
	vcEnsures("exactly the overlay's entries", vcAll(func(k string) bool {
		return cached(recV, k) == cached(ts.cache.m, k)
	}))
	vcEnsures("with their values and deletions", vcAll(func(k string) bool {
		return vcImplies(cached(recV, k), recV[k] == ts.cache.m[k] && recD[k] == (ts.cache.m[k] == ""))
	}))
}
