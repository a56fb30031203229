package datatree

// C21: replaying one record.

// A replayed record which is not the last one of its twig.
func contract_Tree_RecoverEntry(tree *Tree, p int64, entry *Entry, deactivedSNList []int64, oldestActiveTwigID int64) {
	vcRequires(entry != nil && smallEntry(*entry) && len(deactivedSNList) < 256 && tree.touchedPosOf512b != nil && tree.activeTwigs != nil)
	vcRequires(hasTwig(tree, entry.SerialNum) && entry.SerialNum%LeafCountInTwig != LeafCountInTwig-1)
	vcRequires(vcForall(0, len(deactivedSNList), func(k int) bool {
		sn := deactivedSNList[k]
		return sn >= 0 && (sn/LeafCountInTwig < oldestActiveTwigID || hasTwig(tree, sn))
	}))
	sn := entry.SerialNum
	start := tree.mtree4YTChangeStart
	twig := twigOf(tree, sn)
	fpos := twig.FirstEntryPos
	vcModifiesAll()
	tree.RecoverEntry(p, entry, deactivedSNList, oldestActiveTwigID)
	pos := int(sn % LeafCountInTwig)
	vcEnsures("youngest twig", tree.youngestTwigID == sn/LeafCountInTwig)
	vcEnsures("changed range", tree.mtree4YTChangeEnd == pos && (start == -1 && tree.mtree4YTChangeStart == pos || start != -1 && tree.mtree4YTChangeStart == start))
	vcEnsures("region touched", touched(tree, sn/512))
	vcEnsures("first entry", twig.FirstEntryPos == p && pos == 0 || twig.FirstEntryPos == fpos && pos != 0)
}
