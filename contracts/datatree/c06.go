package datatree

// C06: the jobs which bring a twig's hashes up to date.

func isJob(j hashJob, level byte, target, a, b []byte) bool {
	return j.level == level && vcSameMem(j.target, target) && len(j.target) == 32 &&
		vcSameMem(j.srcA, a) && len(j.srcA) == 32 && vcSameMem(j.srcB, b) && len(j.srcB) == 32
}

func sameJob(a, b hashJob) bool {
	return a.level == b.level && vcSameMem(a.target, b.target) && len(a.target) == len(b.target) &&
		vcSameMem(a.srcA, b.srcA) && len(a.srcA) == len(b.srcA) && vcSameMem(a.srcB, b.srcB) && len(a.srcB) == len(b.srcB)
}

func earlierJobs(h *Hasher, n int) bool {
	return vcForall(0, n, func(k int) bool { return sameJob(h.jobs[k], vcOld(func() hashJob { return h.jobs[k] })) })
}

func contract_Hasher_Add(h *Hasher, level byte, target, srcA, srcB []byte) {
	vcRequires(len(h.jobs) < 1<<40)
	n := len(h.jobs)
	vcModifies(&h.jobs, h.jobs[:cap(h.jobs)])
	h.Add(level, target, srcA, srcB)
	j := h.jobs[n]
	vcEnsures("one more job", len(h.jobs) == n+1)
	vcEnsures("level", j.level == level)
	vcEnsures("target", vcSameMem(j.target, target) && len(j.target) == len(target))
	vcEnsures("left source", vcSameMem(j.srcA, srcA) && len(j.srcA) == len(srcA))
	vcEnsures("right source", vcSameMem(j.srcB, srcB) && len(j.srcB) == len(srcB))
	vcEnsures("earlier jobs", earlierJobs(h, n))
}

func contract_hashJob_run(job hashJob) {
	vcRequires(len(job.target) == 32 && len(job.srcA) == 32 && len(job.srcB) == 32)
	x := nodeHash(int(job.level), job.srcA, job.srcB)
	vcModifies(job.target)
	job.run()
	vcEnsures("the parent's hash", string(job.target) == string(x[:]))
}

func contract_Twig_syncL1(twig *Twig, pos int, h *Hasher) {
	vcRequires(0 <= pos && pos < 4 && len(h.jobs) < 1<<40)
	n := len(h.jobs)
	vcModifies(&h.jobs, h.jobs[:cap(h.jobs)])
	twig.syncL1(pos, h)
	vcEnsures("one more job", len(h.jobs) == n+1)
	vcEnsures("two blocks of bits into their node", isJob(h.jobs[n], 8, twig.activeBitsMTL1[pos][:], twig.activeBits[64*pos:], twig.activeBits[64*pos+32:]))
	vcEnsures("earlier jobs", earlierJobs(h, n))
}

func contract_Twig_syncL2(twig *Twig, pos int, h *Hasher) {
	vcRequires(0 <= pos && pos < 2 && len(h.jobs) < 1<<40)
	n := len(h.jobs)
	vcModifies(&h.jobs, h.jobs[:cap(h.jobs)])
	twig.syncL2(pos, h)
	vcEnsures("one more job", len(h.jobs) == n+1)
	vcEnsures("two nodes into their parent", isJob(h.jobs[n], 9, twig.activeBitsMTL2[pos][:], twig.activeBitsMTL1[2*pos][:], twig.activeBitsMTL1[2*pos+1][:]))
	vcEnsures("earlier jobs", earlierJobs(h, n))
}

func contract_Twig_syncL3(twig *Twig, h *Hasher) {
	vcRequires(len(h.jobs) < 1<<40)
	n := len(h.jobs)
	vcModifies(&h.jobs, h.jobs[:cap(h.jobs)])
	twig.syncL3(h)
	vcEnsures("one more job", len(h.jobs) == n+1)
	vcEnsures("two nodes into their parent", isJob(h.jobs[n], 10, twig.activeBitsMTL3[:], twig.activeBitsMTL2[0][:], twig.activeBitsMTL2[1][:]))
	vcEnsures("earlier jobs", earlierJobs(h, n))
}

func contract_Twig_syncTop(twig *Twig, h *Hasher) {
	vcRequires(len(h.jobs) < 1<<40)
	n := len(h.jobs)
	vcModifies(&h.jobs, h.jobs[:cap(h.jobs)])
	twig.syncTop(h)
	vcEnsures("one more job", len(h.jobs) == n+1)
	vcEnsures("left root and bits into the twig root", isJob(h.jobs[n], 11, twig.twigRoot[:], twig.leftRoot[:], twig.activeBitsMTL3[:]))
	vcEnsures("earlier jobs", earlierJobs(h, n))
}
