package datatree

// C07: the leaf tree of the youngest twig.

// The jobs are run in parallel; only what the contracts of hashJob.run say about
// each job is used, and nothing is assumed about memory afterwards.
func contract_Hasher_Run(h *Hasher) {
	vcTrusted("runs every job of the list (goroutines and an atomic counter) and empties it")
	vcModifiesAll()
	h.Run()
	vcEnsures("empty", len(h.jobs) == 0)
}

func contract_syncMTree(mtree [][32]byte, start, end int) {
	vcRequires(len(mtree) == 4096 && 0 <= start && start <= end && end < 2048)
	vcModifiesAll()
	syncMTree(mtree, start, end)
}

// The levels, from the leaves up, and the part of each which has changed.
func mtLevel(level byte, base, start, end, in_start, in_end, k int) bool {
	return vcImplies(int(level) == k, base == 2048>>k && start == in_start>>k && end == in_end>>k)
}

func inv_syncMTree_0(h *Hasher, mtree [][32]byte, in_start, in_end, start, end, base int, level byte) bool {
	return level <= 11 && len(h.jobs) == 0 && 0 <= start && start <= end &&
		mtLevel(level, base, start, end, in_start, in_end, 0) && mtLevel(level, base, start, end, in_start, in_end, 1) &&
		mtLevel(level, base, start, end, in_start, in_end, 2) && mtLevel(level, base, start, end, in_start, in_end, 3) &&
		mtLevel(level, base, start, end, in_start, in_end, 4) && mtLevel(level, base, start, end, in_start, in_end, 5) &&
		mtLevel(level, base, start, end, in_start, in_end, 6) && mtLevel(level, base, start, end, in_start, in_end, 7) &&
		mtLevel(level, base, start, end, in_start, in_end, 8) && mtLevel(level, base, start, end, in_start, in_end, 9) &&
		mtLevel(level, base, start, end, in_start, in_end, 10) && mtLevel(level, base, start, end, in_start, in_end, 11)
}

// On each level the jobs recompute, from left to right and without gaps, the
// parents of the nodes from start&^1 on.
func inv_syncMTree_1(h *Hasher, mtree [][32]byte, start, end, endRound, base, j int, level byte) bool {
	j0 := start - start%2
	return endRound == end+end%2 && j0 <= j && j%2 == 0 && len(h.jobs) == (j-j0)/2 && j <= endRound+2 && j <= base &&
		vcForall(0, (j-j0)/2, func(k int) bool {
			return isJob(h.jobs[k], level, mtree[(base+j0)/2+k][:], mtree[base+j0+2*k][:], mtree[base+j0+2*k+1][:])
		})
}
