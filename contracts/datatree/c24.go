package datatree

// C24: pruning of the tree above the twigs.

func contract_Tree_TwigCanBePruned(tree *Tree, twigID int64) {
	_, active := tree.activeTwigs[twigID]
	r := tree.TwigCanBePruned(twigID)
	vcEnsures("only without live entries", r == !active)
}

// edgeNth is the left-most node of a level which is still needed when the twigs
// below end are gone.
func edgeNth(end int64, k int) int64 {
	e := end / int64(vcPow2(k))
	if e%2 != 0 && k != 0 {
		e--
	}
	return e
}

func okTree(tree *Tree) bool {
	return tree.nodes != nil && tree.youngestTwigID >= 1 && calcMaxLevel(tree.youngestTwigID) <= 60 && tree.youngestTwigID < 1<<48 &&
		vcAll(func(p NodePos) bool { n, ok := tree.nodes[p]; return !ok || n != nil })
}

func isEdge(tree *Tree, e *EdgeNode, end int64, k int) bool {
	p := NodePos(int64(12+k)*(1<<56) + edgeNth(end, k))
	return e != nil && e.Pos == p && len(e.Value) == 32 && vcSameMem(e.Value, (*tree.nodes[p])[:])
}

func contract_Tree_getEdgeNodes(tree *Tree, end int64) {
	vcRequires(okTree(tree) && 0 <= end && end <= tree.youngestTwigID)
	m := calcMaxLevel(tree.youngestTwigID)
	vcMayPanic()
	r := tree.getEdgeNodes(end)
	vcEnsures("one for each level", len(r) == m-11)
	vcEnsures("the left-most needed node", vcForall(0, m-11, func(k int) bool { return isEdge(tree, r[k], end, k) }))
}

func inv_Tree_getEdgeNodes_0(tree *Tree, in_end, end int64, newEdgeNodes []*EdgeNode, maxLevel, level int) bool {
	return 12 <= level && level <= maxLevel+1 && end == in_end/int64(vcPow2(level-12)) && len(newEdgeNodes) == level-12 &&
		vcForall(0, level-12, func(k int) bool { return isEdge(tree, newEdgeNodes[k], in_end, k) })
}

// ---- the nodes which are no longer needed

func sameNode(tree *Tree, p NodePos) bool {
	n, ok := tree.nodes[p]
	return ok == vcOld(func() bool { _, ok := tree.nodes[p]; return ok }) && n == vcOld(func() *[32]byte { return tree.nodes[p] })
}

// neededNode: at or to the right of the left-most needed node of its level.
func neededNode(p NodePos, end int64) bool {
	return int64(p)%(1<<56) >= edgeNth(end, int(int64(p)/(1<<56))-12)
}

func contract_Tree_removeUselessNodes(tree *Tree, start, end int64) {
	vcRequires(okTree(tree) && 0 <= start && start <= end && end <= tree.youngestTwigID)
	vcModifies(tree.nodes)
	tree.removeUselessNodes(start, end)
	vcEnsures("needed nodes stay", vcAll(func(p NodePos) bool {
		return p < 0 || int64(p)/(1<<56) < 12 || !neededNode(p, end) || sameNode(tree, p)
	}))
}

func keptOrLeft(tree *Tree, end int64, p NodePos) bool {
	n, ok := tree.nodes[p]
	return p < 0 || int64(p)/(1<<56) < 12 || !neededNode(p, end) || 
		ok == vcEntry(func() bool { _, ok := tree.nodes[p]; return ok }) && n == vcEntry(func() *[32]byte { return tree.nodes[p] })
}

func inv_Tree_removeUselessNodes_0(tree *Tree, in_start, in_end, start, end int64, maxLevel, level int) bool {
	return 12 <= level && level <= maxLevel+1 && end == in_end/int64(vcPow2(level-12)) && 0 <= start && start <= end &&
		vcAll(func(p NodePos) bool { return keptOrLeft(tree, in_end, p) })
}

func inv_Tree_removeUselessNodes_1(tree *Tree, in_end, end, endRound, i int64, level int) bool {
	return i >= -1 && endRound == edgeNth(in_end, level-12) && 
		vcAll(func(p NodePos) bool { return keptOrLeft(tree, in_end, p) })
}
