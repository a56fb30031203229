package moeingads

import "crypto/sha256"

// C15: the state root is the Merkle root of the eight shard roots in order.

func h2(a, b [32]byte) [32]byte {
	var buf [64]byte
	copy(buf[:32], a[:])
	copy(buf[32:], b[:])
	return sha256.Sum256(buf[:])
}

func root8(n [8][32]byte) [32]byte {
	return h2(h2(h2(n[0], n[1]), h2(n[2], n[3])), h2(h2(n[4], n[5]), h2(n[6], n[7])))
}

func shardRoots(mads *MoeingADS) (n [8][32]byte) {
	for i := 0; i < 8; i++ {
		n[i] = mads.meta.GetRootHash(i)
	}
	return
}

func contract_MoeingADS_GetRootHash(mads *MoeingADS) {
	vcRequires(mads.meta != nil)
	vcFreshResult(0)
	r := mads.GetRootHash()
	n := shardRoots(mads)
	h := root8(n)
	vcEnsures("length", len(r) == 32)
	vcEnsures("fold of the eight roots", vcBytesEq(r, h[:]))
}

// A change of one shard root changes the state root unless SHA-256 collides.
func lemma_root_depends_on_every_shard(n [8][32]byte, i int, v [32]byte) {
	vcRequires(0 <= i && i < 8 && n[i] != v)
	m := n
	m[i] = v
	for a := 0; a < 4; a++ { // no collision among the hashes of the two trees
		vcRequires(vcImplies(h2(n[2*a], n[2*a+1]) == h2(m[2*a], m[2*a+1]), n[2*a] == m[2*a] && n[2*a+1] == m[2*a+1]))
	}
	var n4, m4 [4][32]byte
	for a := 0; a < 4; a++ {
		n4[a], m4[a] = h2(n[2*a], n[2*a+1]), h2(m[2*a], m[2*a+1])
	}
	var n2, m2 [2][32]byte
	for a := 0; a < 2; a++ {
		n2[a], m2[a] = h2(n4[2*a], n4[2*a+1]), h2(m4[2*a], m4[2*a+1])
		vcRequires(vcImplies(n2[a] == m2[a], n4[2*a] == m4[2*a] && n4[2*a+1] == m4[2*a+1]))
	}
	vcRequires(vcImplies(h2(n2[0], n2[1]) == h2(m2[0], m2[1]), n2[0] == m2[0] && n2[1] == m2[1]))
	vcAssert("changes", root8(n) != root8(m))
}
