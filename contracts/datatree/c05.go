package datatree

// C05: activity bits.

func bitOf(bits []byte, i int) bool { return bits[i/8]&(byte(1)<<(i%8)) != 0 }

func contract_Twig_setBit(twig *Twig, offset int) {
	vcPanicsIf(offset < 0 || offset >= LeafCountInTwig) // refused
	vcModifies(&twig.activeBits)
	twig.setBit(offset)
	vcEnsures("bit set", twig.activeBits[offset/8]&(byte(1)<<(offset%8)) != 0)
	vcEnsures("exactly one byte", vcForall(0, 256, func(i int) bool {
		return i == offset/8 || twig.activeBits[i] == vcOld(func() byte { return twig.activeBits[i] })
	}))
	vcEnsures("exactly one bit", twig.activeBits[offset/8] == vcOld(func() byte { return twig.activeBits[offset/8] })|(byte(1)<<(offset%8)))
}

func contract_Twig_clearBit(twig *Twig, offset int) {
	vcPanicsIf(offset < 0 || offset >= LeafCountInTwig) // refused
	vcModifies(&twig.activeBits)
	twig.clearBit(offset)
	vcEnsures("bit clear", twig.activeBits[offset/8]&(byte(1)<<(offset%8)) == 0)
	vcEnsures("exactly one byte", vcForall(0, 256, func(i int) bool {
		return i == offset/8 || twig.activeBits[i] == vcOld(func() byte { return twig.activeBits[i] })
	}))
	vcEnsures("exactly one bit", twig.activeBits[offset/8] == vcOld(func() byte { return twig.activeBits[offset/8] })&^(byte(1)<<(offset%8)))
}

func contract_Twig_getBit(twig *Twig, offset int) {
	vcPanicsIf(offset < 0 || offset >= LeafCountInTwig) // refused
	r := twig.getBit(offset)
	vcEnsures("reads the bit", r == (twig.activeBits[offset/8]&(byte(1)<<(offset%8)) != 0))
}

// ---- the tree: the bit of the serial number, the list and the touched region

// A change of any other twig is excluded by the frame conditions.

func twigOf(tree *Tree, sn int64) *Twig { return tree.activeTwigs[sn>>TwigShift] }

func hasTwig(tree *Tree, sn int64) bool {
	twig, ok := tree.activeTwigs[sn>>TwigShift]
	return sn >= 0 && ok && twig != nil
}

func touched(tree *Tree, r int64) bool { _, ok := tree.touchedPosOf512b[r]; return ok }

func contract_Tree_GetActiveBit(tree *Tree, sn int64) {
	vcRequires(hasTwig(tree, sn))
	r := tree.GetActiveBit(sn)
	vcEnsures("reads the bit", r == twigOf(tree, sn).getBit(int(sn%LeafCountInTwig)))
}

func contract_Tree_setEntryActiviation(tree *Tree, sn int64, active bool) {
	vcRequires(hasTwig(tree, sn) && tree.touchedPosOf512b != nil)
	twig := twigOf(tree, sn)
	off := int(sn % LeafCountInTwig)
	vcModifies(&twig.activeBits, &tree.deactivedSNList)
	vcModifies(tree.touchedPosOf512b, tree.deactivedSNList[:cap(tree.deactivedSNList)])
	tree.setEntryActiviation(sn, active)
	vcEnsures("bit written", twig.getBit(off) == active)
	vcEnsures("no other bit", vcForall(0, LeafCountInTwig, func(i int) bool {
		return i == off || twig.getBit(i) == vcOld(func() bool { return twig.getBit(i) })
	}))
	n := vcOld(func() int { return len(tree.deactivedSNList) })
	if active {
		vcEnsures("list kept", len(tree.deactivedSNList) == n)
	} else {
		vcEnsures("deactivation recorded last", len(tree.deactivedSNList) == n+1 && tree.deactivedSNList[n] == sn)
	}
	vcEnsures("earlier ones kept in order", vcForall(0, n, func(i int) bool {
		return tree.deactivedSNList[i] == vcOld(func() int64 { return tree.deactivedSNList[i] })
	}))
	vcEnsures("region touched", touched(tree, sn/512))
	vcEnsures("no other region", vcAll(func(r int64) bool {
		return r == sn/512 || touched(tree, r) == vcOld(func() bool { return touched(tree, r) })
	}))
}

func contract_Tree_ActiviateEntry(tree *Tree, sn int64) {
	vcRequires(hasTwig(tree, sn) && tree.touchedPosOf512b != nil)
	twig := twigOf(tree, sn)
	off := int(sn % LeafCountInTwig)
	vcModifies(&twig.activeBits, &tree.deactivedSNList)
	vcModifies(tree.touchedPosOf512b, tree.deactivedSNList[:cap(tree.deactivedSNList)])
	tree.ActiviateEntry(sn)
	vcEnsures("bit set", twig.getBit(off))
	vcEnsures("no other bit", vcForall(0, LeafCountInTwig, func(i int) bool {
		return i == off || twig.getBit(i) == vcOld(func() bool { return twig.getBit(i) })
	}))
	n := vcOld(func() int { return len(tree.deactivedSNList) })
	vcEnsures("list kept", len(tree.deactivedSNList) == n && vcForall(0, n, func(i int) bool {
		return tree.deactivedSNList[i] == vcOld(func() int64 { return tree.deactivedSNList[i] })
	}))
	vcEnsures("region touched", touched(tree, sn/512))
	vcEnsures("no other region", vcAll(func(r int64) bool {
		return r == sn/512 || touched(tree, r) == vcOld(func() bool { return touched(tree, r) })
	}))
}

func contract_Tree_DeactiviateEntry(tree *Tree, sn int64) {
	vcRequires(hasTwig(tree, sn) && tree.touchedPosOf512b != nil)
	twig := twigOf(tree, sn)
	off := int(sn % LeafCountInTwig)
	vcModifies(&twig.activeBits, &tree.deactivedSNList)
	vcModifies(tree.touchedPosOf512b, tree.deactivedSNList[:cap(tree.deactivedSNList)])
	r := tree.DeactiviateEntry(sn)
	vcEnsures("bit cleared", !twig.getBit(off))
	vcEnsures("no other bit", vcForall(0, LeafCountInTwig, func(i int) bool {
		return i == off || twig.getBit(i) == vcOld(func() bool { return twig.getBit(i) })
	}))
	n := vcOld(func() int { return len(tree.deactivedSNList) })
	vcEnsures("recorded last", len(tree.deactivedSNList) == n+1 && tree.deactivedSNList[n] == sn && r == n+1)
	vcEnsures("earlier ones kept in order", vcForall(0, n, func(i int) bool {
		return tree.deactivedSNList[i] == vcOld(func() int64 { return tree.deactivedSNList[i] })
	}))
	vcEnsures("region touched", touched(tree, sn/512))
	vcEnsures("no other region", vcAll(func(r int64) bool {
		return r == sn/512 || touched(tree, r) == vcOld(func() bool { return touched(tree, r) })
	}))
}

func contract_Tree_DeactivedSNListSize(tree *Tree) {
	r := tree.DeactivedSNListSize()
	vcEnsures("length", r == len(tree.deactivedSNList))
}
