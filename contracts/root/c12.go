package moeingads

import (
	"github.com/smartbch/moeingads/types"
)

// C12, C13: the classification of a block's touched entries and the search
// for a live neighbour.

func absent(e *HotEntry) bool { // a record which is not there after the block
	return e.Operation == types.OpDelete || (e.EntryPtr.SerialNum == -1 && e.EntryPtr.Value == nil)
}

func wholeList(es []*HotEntry) bool {
	return vcForall(0, len(es), func(k int) bool { return es[k] != nil && es[k].EntryPtr != nil })
}

func contract_isFakeInserted(hotEntry *HotEntry) {
	vcRequires(hotEntry != nil && hotEntry.EntryPtr != nil)
	r := isFakeInserted(hotEntry)
	vcEnsures("new and never set", r == (hotEntry.EntryPtr.SerialNum == -1 && hotEntry.EntryPtr.Value == nil))
}

func contract_isInserted(hotEntry *HotEntry) {
	vcRequires(hotEntry != nil && hotEntry.EntryPtr != nil)
	r := isInserted(hotEntry)
	vcEnsures("set and new", r == (hotEntry.Operation == types.OpInsertOrChange && hotEntry.EntryPtr.SerialNum == -1))
}

func contract_isModified(hotEntry *HotEntry) {
	vcRequires(hotEntry != nil && hotEntry.EntryPtr != nil)
	r := isModified(hotEntry)
	vcEnsures("set and stored before", r == (hotEntry.Operation == types.OpInsertOrChange && hotEntry.EntryPtr.SerialNum >= 0))
}

func contract_getPrev(cachedEntries []*HotEntry, i int) {
	vcRequires(0 <= i && i < len(cachedEntries) && wholeList(cachedEntries))
	vcPanicsIf(vcForall(0, i, func(k int) bool { return absent(cachedEntries[k]) }))
	j := getPrev(cachedEntries, i)
	vcEnsures("before", 0 <= j && j < i)
	vcEnsures("live", !absent(cachedEntries[j]))
	vcEnsures("nearest", vcForall(j+1, i, func(k int) bool { return absent(cachedEntries[k]) }))
}

func inv_getPrev_0(cachedEntries []*HotEntry, i, j int) bool {
	return j < i && -1 <= j && vcForall(j+1, i, func(k int) bool { return absent(cachedEntries[k]) })
}

func contract_getNext(cachedEntries []*HotEntry, i int) {
	vcRequires(0 <= i && i < len(cachedEntries) && wholeList(cachedEntries))
	vcPanicsIf(vcForall(i+1, len(cachedEntries), func(k int) bool { return absent(cachedEntries[k]) }))
	j := getNext(cachedEntries, i)
	vcEnsures("after", i < j && j < len(cachedEntries))
	vcEnsures("live", !absent(cachedEntries[j]))
	vcEnsures("nearest", vcForall(i+1, j, func(k int) bool { return absent(cachedEntries[k]) }))
}

func inv_getNext_0(cachedEntries []*HotEntry, i, j int) bool {
	return j > i && j <= len(cachedEntries) && vcForall(i+1, j, func(k int) bool { return absent(cachedEntries[k]) })
}

func contract_makeHintHotEntry(key string) {
	vcFreshResult(0)
	e := makeHintHotEntry(key)
	vcEnsures("entry", e != nil && e.EntryPtr != nil && e.Operation == types.OpNone && !e.IsModified && !e.IsTouchedByNext)
	vcEnsures("its key", string(e.EntryPtr.Key) == key)
	vcEnsures("live but neither new nor modified", !absent(e) && e.EntryPtr.SerialNum < -1)
}

func bucket(key string) int { return int(key[0]) / 4 }

func contract_BucketMap_Store(bm *BucketMap, key string, value *HotEntry) {
	vcRequires(len(key) > 0 && bm.maps[bucket(key)] != nil)
	m := bm.maps[bucket(key)]
	vcModifies(m)
	bm.Store(key, value)
	v, ok := m[key]
	vcEnsures("stored", ok && v == value)
	vcEnsures("others unchanged", vcAll(func(k string) bool { return k == key || m[k] == vcOld(func() *HotEntry { return m[k] }) }))
}

func contract_BucketMap_Load(bm *BucketMap, key string) {
	vcRequires(len(key) > 0)
	v, ok := bm.Load(key)
	w, ok2 := bm.maps[bucket(key)][key]
	vcEnsures("its bucket's record", ok == ok2 && v == w)
}

func contract_BucketSet_Store(bs *BucketSet, key string) {
	vcRequires(len(key) > 0 && bs.maps[bucket(key)] != nil)
	m := bs.maps[bucket(key)]
	vcModifies(m)
	bs.Store(key)
	_, ok := m[key]
	vcEnsures("stored", ok)
}
