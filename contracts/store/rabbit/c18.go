package rabbit

import (
	"github.com/smartbch/moeingads/store/types"
)

// C18: arbitrary keys on 8-byte slots.

// ---- slot codec

func le32(b []byte, o int) int {
	return int(b[o]) + int(b[o+1])*256 + int(b[o+2])*65536 + int(b[o+3])*16777216
}

func contract_CachedValue_ToBytes(v *CachedValue) {
	vcRequires(len(v.key) < 4294967296)
	vcFreshResult(0)
	b := v.ToBytes()
	n := len(v.key)
	vcEnsures("a slot", b != nil && len(b) >= 9+n)
	vcEnsures("empty marker", v.isEmpty == (b[0] != 0))
	vcEnsures("pass-by count", le32(b, 1) == int(v.passbyNum))
	vcEnsures("key length", le32(b, 5) == n)
	vcEnsures("key", string(b[9:9+n]) == string(v.key))
	vcEnsures("value", v.isEmpty || string(b[9+n:]) == string(v.value))
	vcEnsures("no value when empty", !v.isEmpty || len(b) == 9+n)
}

func wellFormed(b []byte) bool { return len(b) >= 9 && len(b) >= 9+le32(b, 5) }

func contract_BytesToCachedValue(buf []byte) {
	vcFreshOrNil(0)
	cv := BytesToCachedValue(buf)
	vcEnsures("malformed slots are rejected, others accepted", (cv != nil) == wellFormed(buf))
	if cv != nil {
		n := le32(buf, 5)
		vcEnsures("empty marker", cv.isEmpty == (buf[0] != 0))
		vcEnsures("pass-by count", int(cv.passbyNum) == le32(buf, 1))
		vcEnsures("key", string(cv.key) == string(buf[9:9+n]))
		vcEnsures("value", cv.isEmpty || string(cv.value) == string(buf[9+n:]))
		vcEnsures("no value when empty", !cv.isEmpty || cv.value == nil)
		vcEnsures("clean", !cv.isDirty && !cv.isDeleted)
	}
}

func lemma_slot_roundtrip(v *CachedValue) {
	vcRequires(len(v.key) < 4294967296)
	w := BytesToCachedValue(v.ToBytes())
	vcEnsures("parses", w != nil)
	vcEnsures("flag and count", w.isEmpty == v.isEmpty && w.passbyNum == v.passbyNum)
	vcEnsures("key", string(w.key) == string(v.key))
	vcEnsures("value", v.isEmpty || string(w.value) == string(v.value))
}

// ---- the transaction's cache of slots

func contract_SimpleCacheStore_GetValue(scs *SimpleCacheStore, key [KeySize]byte) {
	v, ok := scs.m[key]
	vcRequires(!ok || v != nil)
	cv, status := scs.GetValue(key)
	vcEnsures("missed", (status == types.Missed) == !ok)
	vcEnsures("deleted", (status == types.JustDeleted) == (ok && v.isDeleted))
	vcEnsures("hit", (status == types.Hit) == (ok && !v.isDeleted))
	vcEnsures("value", vcImplies(status == types.Hit, cv == v))
	vcEnsures("none", vcImplies(status != types.Hit, cv == nil))
}

func cachedSlot(scs *SimpleCacheStore, k [KeySize]byte) bool { _, ok := scs.m[k]; return ok }

func contract_SimpleCacheStore_SetValue(scs *SimpleCacheStore, key [KeySize]byte, value *CachedValue) {
	vcRequires(scs.m != nil)
	vcModifies(scs.m)
	scs.SetValue(key, value)
	v, ok := scs.m[key]
	vcEnsures("set", ok && v == value)
	vcEnsures("others kept", vcAll(func(k [KeySize]byte) bool {
		return k == key || scs.m[k] == vcOld(func() *CachedValue { return scs.m[k] }) &&
			cachedSlot(scs, k) == vcOld(func() bool { return cachedSlot(scs, k) })
	}))
}

// ---- slots read through to the parent

func uf_parent(k string) string          { return "" }
func uf_parentNil(k string) bool         { return false }
func uf_parentAt(k string, h uint64) string  { return "" }
func uf_parentAtNil(k string, h uint64) bool { return false }

func contract_iface_BaseStoreI_Get(p types.BaseStoreI, key []byte) {
	vcFreshResult(0)
	r := p.Get(key)
	vcEnsures("value", string(r) == uf_parent(string(key)))
	vcEnsures("none", (r == nil) == uf_parentNil(string(key)))
}

func contract_iface_BaseStoreI_GetAtHeight(p types.BaseStoreI, key []byte, height uint64) {
	vcFreshResult(0)
	r := p.GetAtHeight(key, height)
	vcEnsures("value", string(r) == uf_parentAt(string(key), height))
	vcEnsures("none", (r == nil) == uf_parentAtNil(string(key), height))
}

func contract_iface_BaseStoreI_PrepareForUpdate(p types.BaseStoreI, key []byte)   { p.PrepareForUpdate(key) }
func contract_iface_BaseStoreI_PrepareForDeletion(p types.BaseStoreI, key []byte) { p.PrepareForDeletion(key) }

func contract_SimpleMultiStore_GetCachedValue(sms *SimpleMultiStore, key [KeySize]byte) {
	vcRequires(sms.cache != nil && sms.cache.m != nil && sms.parent != nil)
	v, ok := sms.cache.m[key]
	vcRequires(!ok || v != nil)
	vcPanicsIf(sms.isClosed)
	vcModifies(sms.cache.m)
	cv := sms.GetCachedValue(key)
	vcEnsures("cached", vcImplies(ok && !v.isDeleted, cv == v))
	vcEnsures("deleted", vcImplies(ok && v.isDeleted, cv == nil))
	vcEnsures("others kept", vcAll(func(k [KeySize]byte) bool {
		return k == key || sms.cache.m[k] == vcOld(func() *CachedValue { return sms.cache.m[k] }) &&
			cachedSlot(sms.cache, k) == vcOld(func() bool { return cachedSlot(sms.cache, k) })
	}))
	vcEnsures("a cached slot is kept", vcImplies(ok, sms.cache.m[key] == v && cachedSlot(sms.cache, key)))
}

func contract_SimpleMultiStore_GetCachedValue__loads(sms *SimpleMultiStore, key [KeySize]byte) {
	vcRequires(sms.cache != nil && sms.cache.m != nil && sms.parent != nil && !sms.isClosed)
	vcRequires(!cachedSlot(sms.cache, key))
	vcModifies(sms.cache.m)
	cv := sms.GetCachedValue(key)
	s := uf_parent(string(key[:]))
	none := uf_parentNil(string(key[:]))
	if sms.height != ^uint64(0) {
		s = uf_parentAt(string(key[:]), sms.height)
		none = uf_parentAtNil(string(key[:]), sms.height)
	}
	b := []byte(s)
	vcEnsures("exists exactly when the parent has a slot", (cv != nil) == (!none && wellFormed(b)))
	if cv != nil {
		n := le32(b, 5)
		vcEnsures("key", string(cv.key) == string(b[9:9+n]))
		vcEnsures("empty marker", cv.isEmpty == (b[0] != 0))
		vcEnsures("pass-by count", int(cv.passbyNum) == le32(b, 1))
		vcEnsures("value", cv.isEmpty || string(cv.value) == string(b[9+n:]))
		vcEnsures("cached now", sms.cache.m[key] == cv)
	}
}

func contract_SimpleMultiStore_MustGetCachedValue(sms *SimpleMultiStore, key [KeySize]byte) {
	vcRequires(sms.cache != nil)
	v, ok := sms.cache.m[key]
	vcRequires(!ok || v != nil)
	vcPanicsIf(sms.isClosed || !ok || v.isDeleted)
	cv := sms.MustGetCachedValue(key)
	vcEnsures("cached", cv == v)
}

func contract_SimpleMultiStore_SetCachedValue(sms *SimpleMultiStore, key [KeySize]byte, cv *CachedValue) {
	vcRequires(sms.cache != nil && sms.cache.m != nil && sms.parent != nil)
	vcPanicsIf(sms.isClosed)
	vcModifies(sms.cache.m, &cv.isDirty)
	sms.SetCachedValue(key, cv)
	vcEnsures("dirty", cv.isDirty)
	vcEnsures("set", sms.cache.m[key] == cv && cachedSlot(sms.cache, key))
	vcEnsures("others kept", vcAll(func(k [KeySize]byte) bool {
		return k == key || sms.cache.m[k] == vcOld(func() *CachedValue { return sms.cache.m[k] }) &&
			cachedSlot(sms.cache, k) == vcOld(func() bool { return cachedSlot(sms.cache, k) })
	}))
}
