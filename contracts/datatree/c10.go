package datatree

import (
	"encoding/binary"
	stdhash "hash"
	"io"

	"github.com/mmcloughlin/meow"
)

// C10: snapshots of tree memory.

func lemma_Pos_round_trip(level int, n int64) {
	vcRequires(0 <= level && level < 64 && 0 <= n && n < 1<<55)
	p := Pos(level, n)
	vcAssert("level", p.Level() == int64(level))
	vcAssert("index", p.Nth() == n)
}

// ---- edge nodes

func edgesOK(ns []*EdgeNode) bool {
	return vcForall(0, len(ns), func(i int) bool { return ns[i] != nil && len(ns[i].Value) == 32 })
}

func le64At(bz []byte, o int) int64 { return int64(binary.LittleEndian.Uint64(bz[o : o+8])) }

// the 32 value bytes of node i are at 40i+8
func valuesAt(bz []byte, ns []*EdgeNode, lo, hi int) bool {
	return vcForall(40*lo, 40*hi, func(p int) bool { return p%40 < 8 || bz[p] == ns[p/40].Value[p%40-8] })
}

func contract_EdgeNodesToBytes(edgeNodes []*EdgeNode) {
	vcRequires(edgesOK(edgeNodes) && len(edgeNodes) < 1<<40)
	vcFreshResult(0)
	r := EdgeNodesToBytes(edgeNodes)
	vcEnsures("length", len(r) == 40*len(edgeNodes))
	vcEnsures("positions", vcForall(0, len(edgeNodes), func(i int) bool { return le64At(r, 40*i) == int64(edgeNodes[i].Pos) }))
	vcEnsures("values", valuesAt(r, edgeNodes, 0, len(edgeNodes)))
}

func inv_EdgeNodesToBytes_0(edgeNodes []*EdgeNode, res []byte) bool {
	k := vcIter()
	return len(res) == 40*len(edgeNodes) &&
		vcForall(0, k, func(i int) bool { return le64At(res, 40*i) == int64(edgeNodes[i].Pos) }) &&
		valuesAt(res, edgeNodes, 0, k)
}

func contract_BytesToEdgeNodes(bz []byte) {
	vcPanicsIf(len(bz)%40 != 0)
	vcFreshResult(0)
	r := BytesToEdgeNodes(bz)
	vcEnsures("length", len(r) == len(bz)/40)
	vcEnsures("nodes", edgesOK(r))
	vcEnsures("positions", vcForall(0, len(r), func(i int) bool { return int64(r[i].Pos) == le64At(bz, 40*i) }))
	vcEnsures("values", valuesAt(bz, r, 0, len(r)))
}

func inv_BytesToEdgeNodes_0(bz []byte, res []*EdgeNode) bool {
	k := vcIter()
	return len(res) == len(bz)/40 && edgesOK(res[:k]) &&
		vcForall(0, k, func(i int) bool { return int64(res[i].Pos) == le64At(bz, 40*i) }) &&
		valuesAt(bz, res, 0, k)
}

func lemma_edge_nodes_round_trip(ns []*EdgeNode) {
	vcRequires(edgesOK(ns) && len(ns) < 1<<40)
	bz := EdgeNodesToBytes(ns)
	r := BytesToEdgeNodes(bz)
	vcAssert("count", len(r) == len(ns))
	vcAssert("positions", vcForall(0, len(r), func(i int) bool { return r[i].Pos == ns[i].Pos }))
	vcAssert("values", vcForall(0, 40*len(r), func(p int) bool {
		return p%40 < 8 || r[p/40].Value[p%40-8] == ns[p/40].Value[p%40-8]
	}))
}


// ---- streams: a file is the bytes written to it (assumed: os.File)

type GhostFile struct {
	Data string
	Off  int // the next byte to read
}

func uf_file(f interface{}) *GhostFile { return nil }

func contract_iface_Writer_Write(w io.Writer, p []byte) {
	g := uf_file(w)
	_, err := w.Write(p)
	if err == nil {
		g.Data = g.Data + string(p)
	} else {
		g.Data = vcNondet[string]()
	}
}

// a read returns as many of the requested bytes as there are
func contract_iface_Reader_Read(r io.Reader, p []byte) {
	g := uf_file(r)
	n, err := r.Read(p)
	rest := len(g.Data) - g.Off
	vcEnsures("end", (err == io.EOF) == (len(p) > 0 && rest == 0))
	vcEnsures("no other error", err == nil || err == io.EOF)
	vcEnsures("count", n == len(p) || n == rest && rest < len(p))
	m := copy(p, g.Data[g.Off:])
	g.Off += m
}

func checksum(s string) string {
	h := meow.New32(0)
	h.Write([]byte(s))
	return string(h.Sum(nil))
}

const twigRec = 560

func sle64(s string) int64 { return int64(binary.LittleEndian.Uint64([]byte(s))) }

// the fields of a twig as the record at o in d
func twigAt(d string, o int, id int64, t *Twig) bool {
	return sle64(d[o:o+8]) == id && sle64(d[o+8:o+16]) == t.FirstEntryPos &&
		d[o+16:o+272] == string(t.activeBits[:]) &&
		vcForall(0, 4, func(i int) bool { return d[o+272+32*i:o+304+32*i] == string(t.activeBitsMTL1[i][:]) }) &&
		d[o+400:o+432] == string(t.activeBitsMTL2[0][:]) && d[o+432:o+464] == string(t.activeBitsMTL2[1][:]) &&
		d[o+464:o+496] == string(t.activeBitsMTL3[:]) && d[o+496:o+528] == string(t.leftRoot[:]) && d[o+528:o+560] == string(t.twigRoot[:])
}

func contract_Twig_Dump(twig *Twig, twigID int64, outfile io.Writer) {
	g := uf_file(outfile)
	vcRequires(g != nil && len(g.Data) < 1<<50)
	vcModifies(&g.Data)
	old := g.Data
	err := twig.Dump(twigID, outfile)
	o := len(old)
	if err == nil {
		vcEnsures("length", len(g.Data) == o+twigRec+4)
		vcEnsures("appended", g.Data[:o] == old)
		vcEnsures("fields", twigAt(g.Data, o, twigID, twig))
		vcEnsures("checksum", g.Data[o+twigRec:o+twigRec+4] == checksum(g.Data[o:o+twigRec]))
	}
}

func contract_LoadTwigFromFile(infile io.Reader) {
	g := uf_file(infile)
	vcRequires(g != nil && 0 <= g.Off && g.Off <= len(g.Data) && len(g.Data) < 1<<50)
	vcModifies(&g.Off)
	o := g.Off
	id, twig, err := LoadTwigFromFile(infile)
	whole := o+twigRec+4 <= len(g.Data)
	if o == len(g.Data) {
		vcEnsures("end of file", err == io.EOF)
	}
	if whole {
		good := g.Data[o+twigRec:o+twigRec+4] == checksum(g.Data[o:o+twigRec])
		vcEnsures("checksum decides", (err == nil) == good)
		vcEnsures("not the end", err != io.EOF)
		vcEnsures("advanced", g.Off == o+twigRec+4)
		vcEnsures("fields", twigAt(g.Data, o, id, &twig))
	}
}

func lemma_twig_dump_load(twig *Twig, twigID int64, f io.ReadWriter) {
	g := uf_file(f)
	vcRequires(g != nil && len(g.Data) < 1<<49 && g.Off == len(g.Data))
	if twig.Dump(twigID, f) != nil {
		return
	}
	id, t2, err := LoadTwigFromFile(f)
	vcAssert("loads", err == nil)
	vcAssert("id", id == twigID)
	vcAssert("position", t2.FirstEntryPos == twig.FirstEntryPos)
	vcAssert("bits", t2.activeBits == twig.activeBits)
	vcAssert("level 1", vcForall(0, 4, func(i int) bool { return t2.activeBitsMTL1[i] == twig.activeBitsMTL1[i] }))
	vcAssert("levels 2 and 3", t2.activeBitsMTL2[0] == twig.activeBitsMTL2[0] && t2.activeBitsMTL2[1] == twig.activeBitsMTL2[1] && t2.activeBitsMTL3 == twig.activeBitsMTL3)
	vcAssert("roots", t2.leftRoot == twig.leftRoot && t2.twigRoot == twig.twigRoot)
}

func ginv_EOF() bool { return io.EOF != nil }

// ---- the tree over the youngest twig: 4096 nodes and their checksum

const mtRec = 4096 * 32

func nodesAt(d string, o int, mt *[4096][32]byte, lo, hi int) bool {
	return vcForall(32*lo, 32*hi, func(p int) bool { return d[o+p] == mt[p/32][p%32] })
}

func contract_Tree_DumpMtree4YT(tree *Tree, outfile io.Writer) {
	g := uf_file(outfile)
	vcRequires(g != nil && len(g.Data) < 1<<50)
	vcModifies(&g.Data)
	old := g.Data
	err := tree.DumpMtree4YT(outfile)
	o := len(old)
	if err == nil {
		vcEnsures("length", len(g.Data) == o+mtRec+4)
		vcEnsures("appended", g.Data[:o] == old)
		vcEnsures("nodes", nodesAt(g.Data, o, &tree.mtree4YoungestTwig, 0, 4096))
		vcEnsures("checksum", g.Data[o+mtRec:o+mtRec+4] == checksum(g.Data[o:o+mtRec]))
	}
}

func inv_Tree_DumpMtree4YT_0(tree *Tree, outfile io.Writer, h stdhash.Hash32) bool {
	g := uf_file(outfile)
	k := vcIter()
	o := vcPre(func() int { return len(g.Data) })
	return len(g.Data) == o+32*k && g.Data[:o] == vcPre(func() string { return g.Data }) &&
		nodesAt(g.Data, o, &tree.mtree4YoungestTwig, 0, k) && vcHashed(h) == g.Data[o:]
}

func contract_Tree_LoadMtree4YT(tree *Tree, infile io.Reader) {
	g := uf_file(infile)
	vcRequires(g != nil && 0 <= g.Off && g.Off <= len(g.Data) && len(g.Data) < 1<<50)
	vcModifies(&g.Off, &tree.mtree4YoungestTwig)
	o := g.Off
	err := tree.LoadMtree4YT(infile)
	if o+mtRec+4 <= len(g.Data) {
		good := g.Data[o+mtRec:o+mtRec+4] == checksum(g.Data[o:o+mtRec])
		vcEnsures("checksum decides", (err == nil) == good)
		vcEnsures("nodes", nodesAt(g.Data, o, &tree.mtree4YoungestTwig, 0, 4096))
	}
}

func inv_Tree_LoadMtree4YT_0(tree *Tree, infile io.Reader, h stdhash.Hash32) bool {
	g := uf_file(infile)
	k := vcIter()
	o := vcPre(func() int { return g.Off })
	return vcImplies(o+mtRec+4 <= len(g.Data), g.Off == o+32*k && vcHashed(h) == g.Data[o:o+32*k] &&
		nodesAt(g.Data, o, &tree.mtree4YoungestTwig, 0, k)) && 0 <= g.Off && g.Off <= len(g.Data)
}

func lemma_mtree_dump_load(tree *Tree, f io.ReadWriter) {
	g := uf_file(f)
	vcRequires(g != nil && len(g.Data) < 1<<49 && g.Off == len(g.Data) && tree != nil)
	tree2 := &Tree{}
	if tree.DumpMtree4YT(f) != nil {
		return
	}
	err := tree2.LoadMtree4YT(f)
	vcAssert("loads", err == nil)
	vcAssert("same nodes", vcForall(0, 4096*32, func(p int) bool {
		return tree2.mtree4YoungestTwig[p/32][p%32] == tree.mtree4YoungestTwig[p/32][p%32]
	}))
}

// ---- upper nodes: records of 44 bytes

const nodeRec = 44

func recPos(d string, o int) NodePos { return NodePos(sle64(d[o : o+8])) }

func recGood(d string, o int) bool { return d[o+40:o+44] == checksum(d[o:o+40]) }

func nodesValid(tree *Tree) bool {
	return vcAll(func(p NodePos) bool { h, ok := tree.nodes[p]; return vcImplies(ok, h != nil) })
}

// the records of d from o on, [0,k), are good and hold nodes of the tree
func recsAreNodes(d string, o int, tree *Tree, k int) bool {
	return vcForall(0, k, func(j int) bool {
		h, ok := tree.nodes[recPos(d, o+nodeRec*j)]
		return ok && d[o+nodeRec*j+8:o+nodeRec*j+40] == string(h[:]) && recGood(d, o+nodeRec*j)
	})
}

func contract_Tree_DumpNodes(tree *Tree, outfile io.Writer) {
	g := uf_file(outfile)
	vcRequires(g != nil && len(g.Data) < 1<<50 && nodesValid(tree))
	vcModifies(&g.Data)
	old := g.Data
	err := tree.DumpNodes(outfile)
	o := len(old)
	if err == nil {
		vcEnsures("length", len(g.Data) == o+nodeRec*len(tree.nodes))
		vcEnsures("appended", g.Data[:o] == old)
		vcEnsures("records are nodes", recsAreNodes(g.Data, o, tree, len(tree.nodes)))
		vcEnsures("every node is there", vcAll(func(p NodePos) bool {
			_, ok := tree.nodes[p]
			return vcImplies(ok, vcExists(0, len(tree.nodes), func(j int) bool { return recPos(g.Data, o+nodeRec*j) == p }))
		}))
	}
}

func inv_Tree_DumpNodes_0(tree *Tree, outfile io.Writer) bool {
	g := uf_file(outfile)
	k := vcCount(tree.nodes)
	o := vcPre(func() int { return len(g.Data) })
	return k >= 0 && len(g.Data) == o+nodeRec*k && g.Data[:o] == vcPre(func() string { return g.Data }) &&
		recsAreNodes(g.Data, o, tree, k) &&
		vcAll(func(p NodePos) bool {
			return vcImplies(vcVisited(tree.nodes, p), vcExists(0, k, func(j int) bool { return recPos(g.Data, o+nodeRec*j) == p }))
		})
}

// the map holds every recorded position, and no other one
func nodesFromRecs(d string, o int, k int, nodes map[NodePos]*[32]byte) bool {
	return vcForall(0, k, func(j int) bool {
		_, ok := nodes[recPos(d, o+nodeRec*j)]
		return ok
	}) && vcAll(func(p NodePos) bool {
		h, ok := nodes[p]
		return vcImplies(ok, h != nil)
	}) && vcAll(func(p NodePos) bool {
		_, ok := nodes[p]
		return vcImplies(ok, vcExists(0, k, func(j int) bool { return recPos(d, o+nodeRec*j) == p }))
	})
}

func contract_Tree_LoadNodes(tree *Tree, infile io.Reader) {
	g := uf_file(infile)
	vcRequires(g != nil && 0 <= g.Off && g.Off <= len(g.Data) && len(g.Data) < 1<<50 && (len(g.Data)-g.Off)%nodeRec == 0)
	vcRequires(tree.nodes != nil && len(tree.nodes) == 0)
	vcRequires(vcAll(func(p NodePos) bool { _, ok := tree.nodes[p]; return !ok }))
	vcModifies(&g.Off, tree.nodes)
	o := g.Off
	n := (len(g.Data) - o) / nodeRec
	err := tree.LoadNodes(infile)
	if err == nil {
		vcEnsures("every record is good", vcForall(0, n, func(j int) bool { return recGood(g.Data, o+nodeRec*j) }))
		vcEnsures("nodes are the records", nodesFromRecs(g.Data, o, n, tree.nodes))
	} else {
		vcEnsures("a record is bad", vcExists(0, n, func(j int) bool { return !recGood(g.Data, o+nodeRec*j) }))
	}
}

func inv_Tree_LoadNodes_0(tree *Tree, infile io.Reader) bool {
	g := uf_file(infile)
	k := vcIter()
	o := vcPre(func() int { return g.Off })
	return k >= 0 && g.Off == o+nodeRec*k && g.Off <= len(g.Data) && 
		vcForall(0, k, func(j int) bool { return recGood(g.Data, o+nodeRec*j) }) &&
		nodesFromRecs(g.Data, o, k, tree.nodes)
}
