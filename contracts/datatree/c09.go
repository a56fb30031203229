package datatree

import sha256 "github.com/minio/sha256-simd"

// C09: inclusion proofs.

func nodeHash(level int, a, b []byte) [32]byte {
	var buf [65]byte
	buf[0] = byte(level)
	copy(buf[1:33], a)
	copy(buf[33:], b)
	return sha256.Sum256(buf[:])
}

func contract_hash2(level byte, a, b []byte) {
	vcRequires(len(a) == 32 && len(b) == 32)
	vcFreshResult(0)
	r := hash2(level, a, b)
	h := nodeHash(int(level), a, b)
	vcDefineLocal(uf_node(int(level), string(a), string(b)) == string(h[:]))
	vcEnsures("length", len(r) == 32)
	vcEnsures("hash", string(r) == uf_node(int(level), string(a), string(b)))
}

// nodeHash, hidden from callers
func uf_node(level int, a, b string) string { return "" }

// the hash of the parent of a node and its peer
func parentOf(level int, n ProofNode) string {
	if n.PeerAtLeft {
		return uf_node(level, string(n.PeerHash[:]), string(n.SelfHash[:]))
	}
	return uf_node(level, string(n.SelfHash[:]), string(n.PeerHash[:]))
}

func leftLinked(pp *ProofPath, n int) bool {
	return vcForall(0, n, func(i int) bool { return string(pp.LeftOfTwig[i+1].SelfHash[:]) == parentOf(i, pp.LeftOfTwig[i]) })
}

func rightLinked(pp *ProofPath, n int) bool {
	return vcForall(0, n, func(i int) bool { return string(pp.RightOfTwig[i+1].SelfHash[:]) == parentOf(8+i, pp.RightOfTwig[i]) })
}

func twigLinked(pp *ProofPath) bool {
	return string(pp.UpperPath[0].SelfHash[:]) == uf_node(11, parentOf(10, pp.LeftOfTwig[10]), parentOf(10, pp.RightOfTwig[2]))
}

// the first n links of the upper path; the last node links to the root instead
func upperLinked(pp *ProofPath, n int) bool {
	last := len(pp.UpperPath) - 1
	return vcForall(0, n, func(i int) bool { return i == last || string(pp.UpperPath[i+1].SelfHash[:]) == parentOf(12+i, pp.UpperPath[i]) })
}

func rootLinked(pp *ProofPath) bool {
	n := len(pp.UpperPath)
	return string(pp.Root[:]) == parentOf(11+n, pp.UpperPath[n-1])
}

func contract_ProofPath_Check(pp *ProofPath, complete bool) {
	vcRequires(!complete && len(pp.UpperPath) >= 1 && len(pp.UpperPath) < 200)
	err := pp.Check(complete)
	vcEnsures("accepted only when the left path is linked", vcImplies(err == nil, leftLinked(pp, 10)))
	vcEnsures("accepted only when the right path is linked", vcImplies(err == nil, rightLinked(pp, 2)))
	vcEnsures("accepted only when the twig root is linked", vcImplies(err == nil, twigLinked(pp)))
	vcEnsures("accepted only when the upper path is linked", vcImplies(err == nil, upperLinked(pp, len(pp.UpperPath))))
	vcEnsures("accepted only when the root is linked", vcImplies(err == nil, rootLinked(pp)))
}

func inv_ProofPath_Check_0(pp *ProofPath, i int) bool {
	return 0 <= i && i <= 10 && leftLinked(pp, i)
}

func inv_ProofPath_Check_1(pp *ProofPath, i int) bool {
	return 0 <= i && i <= 2 && rightLinked(pp, i)
}

func inv_ProofPath_Check_2(pp *ProofPath, i int) bool {
	n := len(pp.UpperPath)
	return 0 <= i && i <= n && upperLinked(pp, i) && vcImplies(i == n, rootLinked(pp))
}

// ---- the bytes of a proof: chunk c holds 32 bytes at 8+32c

func chunkIs(b []byte, c int, h [32]byte) bool {
	return vcForall(0, 32, func(t int) bool { return b[8+32*c+t] == h[t] })
}

func leftChunks(b []byte, pp *ProofPath, n int) bool {
	return vcForall(0, 32*n, func(p int) bool { return b[40+p] == pp.LeftOfTwig[p/32].PeerHash[p%32] })
}

func rightChunks(b []byte, pp *ProofPath, n int) bool {
	return vcForall(0, 32*n, func(p int) bool { return b[424+p] == pp.RightOfTwig[p/32].PeerHash[p%32] })
}

func upperChunks(b []byte, pp *ProofPath, n int) bool {
	return vcForall(0, 32*n, func(p int) bool { return b[520+p] == pp.UpperPath[p/32].PeerHash[p%32] })
}

func contract_ProofPath_ToBytes(pp *ProofPath) {
	vcRequires(len(pp.UpperPath) < 200)
	vcFreshResult(0)
	b := pp.ToBytes()
	n := len(pp.UpperPath)
	vcEnsures("length", len(b) == 8+32*(17+n))
	vcEnsures("serial number", le64At(b, 0) == pp.SerialNum)
	vcEnsures("leaf hash", chunkIs(b, 0, pp.LeftOfTwig[0].SelfHash))
	vcEnsures("left peers", leftChunks(b, pp, 11))
	vcEnsures("activity bits", chunkIs(b, 12, pp.RightOfTwig[0].SelfHash))
	vcEnsures("right peers", rightChunks(b, pp, 3))
	vcEnsures("upper peers", upperChunks(b, pp, n))
	vcEnsures("root", chunkIs(b, 16+n, pp.Root))
}

func inv_ProofPath_ToBytes_0(pp *ProofPath, res []byte, i int) bool {
	return 0 <= i && i <= 11 && cap(res) == 8+32*(17+len(pp.UpperPath)) && len(res) == 8+32*(1+i) && le64At(res, 0) == pp.SerialNum &&
		chunkIs(res, 0, pp.LeftOfTwig[0].SelfHash) && leftChunks(res, pp, i)
}

func inv_ProofPath_ToBytes_1(pp *ProofPath, res []byte, i int) bool {
	return 0 <= i && i <= 3 && cap(res) == 8+32*(17+len(pp.UpperPath)) && len(res) == 8+32*(13+i) && le64At(res, 0) == pp.SerialNum &&
		chunkIs(res, 0, pp.LeftOfTwig[0].SelfHash) && leftChunks(res, pp, 11) &&
		chunkIs(res, 12, pp.RightOfTwig[0].SelfHash) && rightChunks(res, pp, i)
}

func inv_ProofPath_ToBytes_2(pp *ProofPath, res []byte, i int) bool {
	return 0 <= i && i <= len(pp.UpperPath) && cap(res) == 8+32*(17+len(pp.UpperPath)) && len(res) == 8+32*(16+i) && le64At(res, 0) == pp.SerialNum &&
		chunkIs(res, 0, pp.LeftOfTwig[0].SelfHash) && leftChunks(res, pp, 11) &&
		chunkIs(res, 12, pp.RightOfTwig[0].SelfHash) && rightChunks(res, pp, 3) && upperChunks(res, pp, i)
}

// bit i of the serial number
func uf_bit(sn int64, i int) bool { return false }

func leftRead(b []byte, pp *ProofPath, n int) bool {
	return leftChunks(b, pp, n) && vcForall(0, n, func(i int) bool { return pp.LeftOfTwig[i].PeerAtLeft == uf_bit(pp.SerialNum, i) })
}

func rightRead(b []byte, pp *ProofPath, n int) bool {
	return rightChunks(b, pp, n)
}

func upperRead(b []byte, pp *ProofPath, n int) bool {
	return upperChunks(b, pp, n) && vcForall(0, n, func(i int) bool { return pp.UpperPath[i].PeerAtLeft == uf_bit(pp.SerialNum, 11+i) })
}

func contract_BytesToProofPath(bz []byte) {
	vcRequires(len(bz) < 8+32*64)
	vcFreshOrNil(0)
	vcDefineLocal(vcForall(0, 64, func(i int) bool { return uf_bit(le64At(bz, 0), i) == ((le64At(bz, 0)>>i)&1 == 1) }))
	vcDefineLocal(vcForall(0, 50, func(i int) bool { return uf_bit(le64At(bz, 0), 11+i) == ((le64At(bz, 0)>>(11+i))&1 == 1) }))
	pp, err := BytesToProofPath(bz)
	n := (len(bz) - 8) / 32
	vcEnsures("rejected exactly when of wrong length", (err == nil) == (len(bz) == 8+32*n && n >= 18))
	vcEnsures("a proof or an error", (err == nil) == (pp != nil))
	if err == nil {
		vcEnsures("upper length", len(pp.UpperPath) == n-17)
		vcEnsures("serial number", pp.SerialNum == le64At(bz, 0))
		vcEnsures("leaf hash", chunkIs(bz, 0, pp.LeftOfTwig[0].SelfHash))
		vcEnsures("left peers", leftRead(bz, pp, 11))
		vcEnsures("activity bits", chunkIs(bz, 12, pp.RightOfTwig[0].SelfHash))
		vcEnsures("right peers", rightRead(bz, pp, 3))
		vcEnsures("upper peers", upperRead(bz, pp, n-17))
		vcEnsures("root", chunkIs(bz, n-1, pp.Root))
	}
}

func inv_BytesToProofPath_0(in_bz, bz []byte, pp *ProofPath, i int) bool {
	return 0 <= i && i <= 11 && len(bz) == len(in_bz)-40-32*i && chunkIs(in_bz, 0, pp.LeftOfTwig[0].SelfHash) && leftRead(in_bz, pp, i)
}

func inv_BytesToProofPath_1(in_bz, bz []byte, pp *ProofPath, i int) bool {
	return 0 <= i && i <= 3 && len(bz) == len(in_bz)-424-32*i && chunkIs(in_bz, 12, pp.RightOfTwig[0].SelfHash) && rightRead(in_bz, pp, i)
}

func inv_BytesToProofPath_2(in_bz, bz []byte, pp *ProofPath, i int) bool {
	return 0 <= i && i <= len(pp.UpperPath) && len(bz) == len(in_bz)-520-32*i && upperRead(in_bz, pp, i)
}

// ---- paths of the node of a serial number

// the node of level l above leaf n, in heap order
func contract_getRightPath(twig *Twig, sn int64) {
	vcRequires(sn >= 0)
	r := getRightPath(twig, sn)
	n := int(sn % 2048)
	for l := 0; l < 3; l++ {
		vcEnsures("side", r[l].PeerAtLeft == ((n/256)>>l%2 == 1))
	}
	vcEnsures("chunk", vcForall(0, 32, func(t int) bool { return r[0].SelfHash[t] == twig.activeBits[n/256*32+t] }))
	vcEnsures("peer chunk", vcForall(0, 32, func(t int) bool { return r[0].PeerHash[t] == twig.activeBits[peer(n/256)*32+t] }))
	vcEnsures("level 1", vcForall(0, 32, func(t int) bool {
		return r[1].SelfHash[t] == twig.activeBitsMTL1[n/512][t] && r[1].PeerHash[t] == twig.activeBitsMTL1[peer(n/512)][t]
	}))
	vcEnsures("level 2", vcForall(0, 32, func(t int) bool {
		return r[2].SelfHash[t] == twig.activeBitsMTL2[n/1024][t] && r[2].PeerHash[t] == twig.activeBitsMTL2[peer(n/1024)][t]
	}))
}

func peer(n int) int { return n + 1 - 2*(n%2) }

func contract_getLeftPathInMem(mt4twig [4096][32]byte, sn int64) {
	vcRequires(sn >= 0)
	r := getLeftPathInMem(mt4twig, sn)
	n := int(sn % 2048)
	for l := 0; l <= 10; l++ {
		self := n>>l
		vcEnsures("side", r[l].PeerAtLeft == (self%2 == 1))
		vcEnsures("self", vcForall(0, 32, func(t int) bool { return r[l].SelfHash[t] == mt4twig[2048>>l+self][t] }))
		vcEnsures("peer", vcForall(0, 32, func(t int) bool { return r[l].PeerHash[t] == mt4twig[2048>>l+peer(self)][t] }))
	}
}
