package datatree

// C02: fields read and patched in raw record bytes.

func contract_ExtractSerialNum(entryBz []byte) {
	vcRequires(len(entryBz) >= 8 && len(entryBz) < 1<<40)
	r := ExtractSerialNum(entryBz)
	vcEnsures("last field", r == le64At(entryBz, len(entryBz)-8))
}

func contract_UpdateSerialNum(entryBz []byte, sn int64) {
	vcRequires(len(entryBz) >= 8 && len(entryBz) < 1<<40)
	vcModifies(entryBz)
	old := string(entryBz)
	UpdateSerialNum(entryBz, sn)
	n := len(entryBz)
	vcEnsures("patched", le64At(entryBz, n-8) == sn)
	vcEnsures("rest kept", vcForall(0, n-8, func(i int) bool { return entryBz[i] == old[i] }))
}

func contract_SNListToBytes(deactivedSerialNumList []int64) {
	vcRequires(len(deactivedSerialNumList) < 256)
	vcFreshResult(0)
	r := SNListToBytes(deactivedSerialNumList)
	vcEnsures("length", len(r) == 8*len(deactivedSerialNumList))
	vcEnsures("numbers", snsAt(r, 0, deactivedSerialNumList))
}

func inv_SNListToBytes_0(deactivedSerialNumList []int64, res []byte, i int) bool {
	return i == 8*vcIter() && len(res) == 8*len(deactivedSerialNumList) && snsAt(res, 0, deactivedSerialNumList[:vcIter()])
}

func contract_ExtractKeyFromRawBytes(b []byte) {
	vcRequires(len(b) >= 44 && len(b) < 1<<22 && vcSep(b, &MagicBytes))
	// no separator was masked
	vcRequires(le32(b, 4) == 1<<32-1 && le32(b, 8)+12 <= len(b))
	vcFreshResult(0)
	r := ExtractKeyFromRawBytes(b)
	vcEnsures("key", string(r) == string(b[12:12+le32(b, 8)]))
}

func contract_ExtractKeyFromRawBytes__masked(b []byte) {
	k := magicCount(b[4:])
	vcRequires(len(b) >= 44 && len(b) < 1<<22 && vcSep(b, &MagicBytes))
	vcRequires(k > 0 && listOK(b[4:], k))
	n := 4 + 4*k + 4 // the payload
	vcRequires(n+4 < len(b) && n+4+le32(b, n) <= len(b) && le32(b, n) < 1<<22)
	vcRequires(uf_place(string(b[4:]), 0) >= 4*k+4) // the length is not masked
	vcFreshResult(0)
	s := string(b[4:])
	r := ExtractKeyFromRawBytes(b)
	vcEnsures("length", len(r) == le32(b, n))
	vcEnsures("separators are back", vcForall(0, k, func(j int) bool {
		return vcForall(0, 8, func(t int) bool {
			p := uf_place(s, j) + 4 + t - (4*k + 8)
			return p >= len(r) || r[p] == MagicBytes[t]
		})
	}))
}
