package datatree

import "encoding/binary"

// C01, C02: the bytes of a log record.

func le32(b []byte, o int) int { return int(binary.LittleEndian.Uint32(b[o : o+4])) }

func s32(n int) string { return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}) }

func s64(n uint64) string {
	return string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(n >> 32), byte(n >> 40), byte(n >> 48), byte(n >> 56)})
}

func plainLen(e Entry) int { return 36 + len(e.Key) + len(e.Value) + len(e.NextKey) }

// the record's fields before separators are masked
func plain(e Entry) string {
	return s32(len(e.Key)) + string(e.Key) + s32(len(e.Value)) + string(e.Value) + s32(len(e.NextKey)) + string(e.NextKey) +
		s64(uint64(e.Height)) + s64(uint64(e.LastHeight)) + s64(uint64(e.SerialNum))
}

// plain(e), hidden from callers
func uf_plain(k, v, n string, h, l, sn int64) string { return "" }

func hidden(e Entry) string {
	return uf_plain(string(e.Key), string(e.Value), string(e.NextKey), e.Height, e.LastHeight, e.SerialNum)
}

func snsAt(b []byte, o int, sns []int64) bool {
	return vcForall(0, len(sns), func(i int) bool { return le64At(b, o+8*i) == sns[i] })
}

func smallEntry(e Entry) bool {
	return plainLen(e) < 1<<22
}

func contract_writeEntryPayload(b []byte, entry Entry, deactivedSerialNumList []int64) {
	vcRequires(smallEntry(entry) && len(deactivedSerialNumList) < 256)
	vcRequires(len(b) == plainLen(entry)+8*len(deactivedSerialNumList))
	vcRequires(vcSep(b, entry.Key) && vcSep(b, entry.Value) && vcSep(b, entry.NextKey))
	vcModifies(b)
	writeEntryPayload(b, entry, deactivedSerialNumList)
	vcDefineLocal(hidden(entry) == plain(entry))
	vcEnsures("fields", string(b[:plainLen(entry)]) == hidden(entry))
	vcEnsures("serial numbers", snsAt(b, plainLen(entry), deactivedSerialNumList))
}

func inv_writeEntryPayload_0(b []byte, entry Entry, deactivedSerialNumList []int64, i int) bool {
	return i == plainLen(entry)+8*vcIter() && string(b[:plainLen(entry)]) == plain(entry) &&
		snsAt(b, plainLen(entry), deactivedSerialNumList[:vcIter()])
}

// a record's fields lie at these offsets of its bytes
func valueOff(b []byte) int { return 4 + le32(b, 0) }
func nextOff(b []byte) int  { return valueOff(b) + 4 + le32(b, valueOff(b)) }
func intsOff(b []byte) int  { return nextOff(b) + 4 + le32(b, nextOff(b)) }

func contract_EntryFromBytes(b []byte, numberOfSN int) {
	vcRequires(0 <= numberOfSN && numberOfSN < 256 && len(b) < 1<<40)
	vcRequires(len(b) >= 4 && len(b) >= valueOff(b)+4 && len(b) >= nextOff(b)+4 && len(b) >= intsOff(b)+24+8*numberOfSN)
	vcFreshResult(0, 1)
	e, sns := EntryFromBytes(b, numberOfSN)
	vcEnsures("key", string(e.Key) == string(b[4:valueOff(b)]))
	vcEnsures("value", string(e.Value) == string(b[valueOff(b)+4:nextOff(b)]))
	vcEnsures("next key", string(e.NextKey) == string(b[nextOff(b)+4:intsOff(b)]))
	o := intsOff(b)
	vcEnsures("integers", e.Height == le64At(b, o) && e.LastHeight == le64At(b, o+8) && e.SerialNum == le64At(b, o+16))
	vcEnsures("count", len(sns) == numberOfSN)
	vcEnsures("serial numbers", snsAt(b, o+24, sns))
}

func inv_EntryFromBytes_0(b []byte, deactivedSerialNumList []int64, i int) bool {
	return i == intsOff(b)+24+8*vcIter() && snsAt(b, intsOff(b)+24, deactivedSerialNumList[:vcIter()])
}

// the fields of e lie in b
func fieldsAt(b []byte, e Entry) bool {
	k, v, n := len(e.Key), len(e.Value), len(e.NextKey)
	return string(b[4:4+k]) == string(e.Key) && string(b[8+k:8+k+v]) == string(e.Value) &&
		string(b[12+k+v:12+k+v+n]) == string(e.NextKey) &&
		le32(b, 0) == k && le32(b, 4+k) == v && le32(b, 8+k+v) == n &&
		le64At(b, 12+k+v+n) == e.Height && le64At(b, 20+k+v+n) == e.LastHeight && le64At(b, 28+k+v+n) == e.SerialNum
}

func lemma_plain_fields(b []byte, e Entry) {
	vcRequires(smallEntry(e) && plainLen(e) <= len(b) && len(b) < 1<<40)
	vcRequires(string(b[:plainLen(e)]) == hidden(e))
	vcDefineLocal(hidden(e) == plain(e))
	vcAssert("fields", fieldsAt(b, e))
}

// decoding gives the fields back
func lemma_payload_round_trip(b []byte, e Entry, sns []int64) {
	vcRequires(smallEntry(e) && len(sns) < 256 && len(b) == plainLen(e)+8*len(sns))
	vcRequires(fieldsAt(b, e) && snsAt(b, plainLen(e), sns))
	vcAssert("offsets", valueOff(b) == 4+len(e.Key) && nextOff(b) == 8+len(e.Key)+len(e.Value) && intsOff(b) == plainLen(e)-24)
	e2, sns2 := EntryFromBytes(b, len(sns))
	vcAssert("key", string(e2.Key) == string(e.Key))
	vcAssert("value", string(e2.Value) == string(e.Value))
	vcAssert("next key", string(e2.NextKey) == string(e.NextKey))
	vcAssert("integers", e2.Height == e.Height && e2.LastHeight == e.LastHeight && e2.SerialNum == e.SerialNum)
	vcAssert("serial numbers", len(sns2) == len(sns) && vcForall(0, len(sns), func(i int) bool { return sns2[i] == sns[i] }))
}

// ---- separators

func occurs(s []byte, p int, sep []byte) bool {
	return vcForall(0, 8, func(t int) bool { return s[p+t] == sep[t] })
}

// p lists the places found from the left, without overlap
func placesOK(s, sep []byte, p []int) bool {
	return vcForall(0, len(p), func(j int) bool {
		return 0 <= p[j] && p[j]+8 <= len(s) && occurs(s, p[j], sep)
	}) && vcForall(1, len(p), func(j int) bool { return p[j-1]+8 <= p[j] })
}

func lastEnd(p []int) int {
	if len(p) == 0 {
		return 0
	}
	return p[len(p)-1] + 8
}

// and nothing was passed over
func noneBetween(s, sep []byte, p []int) bool {
	return vcForall(0, len(p), func(j int) bool {
		return vcForall(0, p[j], func(q int) bool { return j > 0 && q < p[j-1]+8 || !occurs(s, q, sep) })
	})
}

func noneAfter(s, sep []byte, p []int) bool {
	return vcForall(0, len(s)-7, func(q int) bool { return q < lastEnd(p) || lastEnd(p)+8 >= len(s) || !occurs(s, q, sep) })
}

func contract_getAllPos(s []byte, sep []byte) {
	vcRequires(len(sep) == 8 && len(s) < 1<<40)
	vcFreshResult(0)
	p := getAllPos(s, sep)
	vcEnsures("places", placesOK(s, sep, p))
	vcEnsures("count", 8*len(p) <= len(s))
}

func contract_getAllPos__complete(s []byte, sep []byte) {
	vcRequires(len(sep) == 8 && len(s) < 1<<40)
	vcFreshResult(0)
	p := getAllPos(s, sep)
	vcEnsures("none between", noneBetween(s, sep, p))
	vcEnsures("none after", noneAfter(s, sep, p))
}

func inv_getAllPos_0(s, sep []byte, start int, allpos []int) bool {
	return placesOK(s, sep, allpos) && noneBetween(s, sep, allpos) && start == lastEnd(allpos) && 8*len(allpos) <= start
}


// ---- the list of masked places at the head of a record

func uf_magicCount(b []byte) int { return 0 }

// the number of places before the terminator
func magicCount(b []byte) int {
	k := uf_magicCount(b)
	vcDefine(0 <= k && 4*k <= len(b) && vcForall(0, k, func(j int) bool { return le32(b, 4*j) != 1<<32-1 }) &&
		(4*k+4 > len(b) || le32(b, 4*k) == 1<<32-1))
	return k
}

func sle32(s string, o int) int { return int(binary.LittleEndian.Uint32([]byte(s[o : o+4]))) }

// the j-th place listed in s
func uf_place(s string, j int) int { return 0 }

func definePlaces(s string, k int) {
	vcDefine(vcForall(0, k+1, func(j int) bool { return uf_place(s, j) == sle32(s, 4*j) }))
}

// k places, after the list, apart from each other and inside b
func listOK(b []byte, k int) bool {
	s := string(b)
	definePlaces(s, k)
	return 4*k+4 < len(b) && uf_place(s, k) == 1<<32-1 && vcForall(0, k, func(j int) bool {
		return 4*k <= uf_place(s, j) && uf_place(s, j)+12 <= len(b) && uf_place(s, j) < MaxEntryBytes
	}) && vcForall(1, k, func(j int) bool { return uf_place(s, j-1)+8 <= uf_place(s, j) })
}

func contract_recoverMagicBytes(b []byte) {
	k := magicCount(b)
	vcRequires(len(b) < 1<<40 && vcSep(b, &MagicBytes))
	vcRequires(listOK(b, k))
	vcModifies(b)
	old := string(b)
	n := recoverMagicBytes(b)
	vcEnsures("list length", n == 4*k+4)
	vcEnsures("separators are back", vcForall(0, k, func(j int) bool {
		return vcForall(0, 8, func(t int) bool { return b[uf_place(old, j)+4+t] == MagicBytes[t] })
	}))
	vcEnsures("the rest is as it was", vcForall(0, len(b), func(i int) bool {
		return b[i] == old[i] || vcExists(0, k, func(j int) bool { return uf_place(old, j)+4 <= i && i < uf_place(old, j)+12 })
	}))
}

func inv_recoverMagicBytes_0(b []byte, n int) bool {
	old := vcPre(func() string { return string(b) })
	k := vcPre(func() int { return uf_magicCount(b) })
	m := vcIter()
	return n == 4*m && m <= k &&
		vcForall(0, m, func(j int) bool { return m == k || uf_place(old, j)+8 <= uf_place(old, m) }) &&
		vcForall(0, 4*k+4, func(i int) bool { return b[i] == old[i] }) &&
		vcForall(0, m, func(j int) bool {
			return vcForall(0, 8, func(t int) bool { return b[uf_place(old, j)+4+t] == MagicBytes[t] })
		}) && vcForall(0, len(b), func(i int) bool {
		return b[i] == old[i] || vcExists(0, m, func(j int) bool { return uf_place(old, j)+4 <= i && i < uf_place(old, j)+12 })
	})
}

// out holds the record of e: the places of separators in its fields are
// listed at the head and masked
func maskedRight(out []byte, pl string, k int) bool {
	s := string(out[4:])
	return vcForall(0, k, func(j int) bool {
		return vcForall(0, 8, func(t int) bool { return pl[uf_place(s, j)-4*k+t] == MagicBytes[t] })
	}) && (k > 0 || vcForall(0, len(pl), func(i int) bool { return out[8+i] == pl[i] }))
}

func contract_PutUint24(b []byte, n uint32) {
	vcRequires(len(b) >= 3 && n < 1<<24)
	vcModifies(b)
	old := string(b)
	PutUint24(b, n)
	vcEnsures("bytes", uint32(b[0])+256*uint32(b[1])+65536*uint32(b[2]) == n)
	vcEnsures("rest", vcForall(3, len(b), func(i int) bool { return b[i] == old[i] }))
}

func contract_GetUint24(b []byte) {
	vcRequires(len(b) >= 3)
	n := GetUint24(b)
	vcEnsures("bytes", uint32(b[0])+256*uint32(b[1])+65536*uint32(b[2]) == n)
}

func contract_EntryToBytes(entry Entry, deactivedSerialNumList []int64) {
	vcRequires(smallEntry(entry) && len(deactivedSerialNumList) < 256)
	vcFreshResult(0)
	out := EntryToBytes(entry, deactivedSerialNumList)
	p, n := plainLen(entry), len(deactivedSerialNumList)
	k := (len(out) - 8 - p - 8*n) / 4
	vcEnsures("length", k >= 0 && len(out) == 8+4*k+p+8*n)
	vcEnsures("list of places", listOK(out[4:], k))
	vcEnsures("integers are not masked", vcForall(0, k, func(j int) bool { return uf_place(string(out[4:]), j)+8 <= 4*k+p-24 }))
	vcEnsures("head", out[0] == byte(n) && uint32(out[1])+256*uint32(out[2])+65536*uint32(out[3]) == uint32(4+4*k+p))
	vcEnsures("fields", maskedRight(out, hidden(entry), k))
	vcEnsures("serial numbers", k > 0 || snsAt(out, 8+p, deactivedSerialNumList))
}

func inv_EntryToBytes_0(entry Entry, b []byte, magicBytesPosList []int) bool {
	old := vcPre(func() string { return string(b) })
	m, l := vcIter(), magicBytesPosList
	return m <= len(l) && vcForall(0, m, func(j int) bool { return m == len(l) || l[j]+8 <= l[m] }) &&
		vcForall(0, m, func(j int) bool { return vcForall(0, 8, func(t int) bool { return b[8+l[j]+t] == 0 }) }) &&
		vcForall(plainLen(entry)-16, len(b), func(i int) bool { return b[i] == old[i] }) &&
		vcForall(0, len(b), func(i int) bool {
			return b[i] == old[i] || vcExists(0, m, func(j int) bool { return 8+l[j] <= i && i < 16+l[j] })
		})
}

func inv_EntryToBytes_1(entry Entry, buf []byte, magicBytesPosList []int, i int) bool {
	m, l := vcIter(), magicBytesPosList
	return i == m && m <= len(l) && vcForall(0, m, func(j int) bool { return le32(buf, 4+4*j) == l[j]+4*len(l) }) &&
		vcForall(0, m, func(j int) bool {
			return vcForall(0, 8, func(t int) bool { return hidden(entry)[le32(buf, 4+4*j)-4*len(l)+t] == MagicBytes[t] })
		})
}
