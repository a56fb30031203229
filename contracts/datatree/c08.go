package datatree

// C08: the tree above the twigs.

// ---- positions are pairs

func contract_Pos(level int, n int64) {
	vcRequires(0 <= level && level < 64 && -1 <= n && n < 1<<56)
	p := Pos(level, n)
	vcEnsures("packed", n < 0 || int64(p) == int64(level)*(1<<56)+n)
	vcEnsures("no node", n >= 0 || p == -1)
}

func contract_NodePos_Level(np NodePos) {
	vcRequires(np >= 0)
	l := np.Level()
	vcEnsures("level", l == int64(np)/(1<<56))
}

func contract_NodePos_Nth(np NodePos) {
	vcRequires(np >= 0 && int64(np)%(1<<56) < 1<<55)
	n := np.Nth()
	vcEnsures("nth", n == int64(np)%(1<<56))
}

func lemma_positions_are_pairs(l1 int, n1 int64, l2 int, n2 int64) {
	vcRequires(0 <= l1 && l1 < 64 && 0 <= n1 && n1 < 1<<55 && 0 <= l2 && l2 < 64 && 0 <= n2 && n2 < 1<<55)
	p, q := Pos(l1, n1), Pos(l2, n2)
	vcEnsures("level", p.Level() == int64(l1))
	vcEnsures("nth", p.Nth() == n1)
	vcEnsures("distinct", (p == q) == (l1 == l2 && n1 == n2))
}

// ---- the height of the tree and the width of a level

func contract_calcMaxLevel(youngestTwigID int64) {
	vcRequires(youngestTwigID >= 1)
	r := calcMaxLevel(youngestTwigID)
	vcEnsures("range", 13 <= r && r <= 76)
	vcEnsures("the youngest twig fits", int64(vcPow2(r-12))-1 >= youngestTwigID)
	vcEnsures("no lower root would do", int64(vcPow2(r-13)) <= youngestTwigID)
}

func contract_maxNAtLevel(youngestTwigID int64, level int) {
	vcRequires(youngestTwigID >= 0 && level < 76)
	vcPanicsIf(level < 13)
	r := maxNAtLevel(youngestTwigID, level)
	vcEnsures("ancestor of the youngest twig", r == youngestTwigID/int64(vcPow2(level-13)))
}

// ---- the root of a twig

func contract_Tree_getTwigRoot(tree *Tree, n int64) {
	vcRequires(0 <= n && n < 1<<48)
	twig, active := tree.activeTwigs[n]
	vcRequires(!active || twig != nil)
	node, ok := tree.nodes[Pos(12, n)]
	vcRequires(!ok || node != nil)
	r, found := tree.getTwigRoot(n)
	vcEnsures("found", found == (active || ok))
	if active {
		vcEnsures("of the active twig", r == twig.twigRoot)
	} else if ok {
		vcEnsures("of the evicted twig", r == *node)
	}
}

// ---- eviction keeps the twig's root

func contract_Tree_EvictTwig(tree *Tree, twigID int64) {
	vcModifies(&tree.twigsToBeDeleted, tree.twigsToBeDeleted[:cap(tree.twigsToBeDeleted)])
	n := len(tree.twigsToBeDeleted)
	tree.EvictTwig(twigID)
	vcEnsures("queued", len(tree.twigsToBeDeleted) == n+1 && tree.twigsToBeDeleted[n] == twigID)
	vcEnsures("after the others", vcForall(0, n, func(i int) bool {
		return tree.twigsToBeDeleted[i] == vcOld(func() int64 { return tree.twigsToBeDeleted[i] })
	}))
}
