package datatree

import (
	"encoding/binary"

	"github.com/mmcloughlin/meow"
)

// C04: the stored Merkle nodes of full twigs.

func contract_getLeafRange(hashID int) {
	vcRequires(256 <= hashID && hashID < 2048)
	start, end := getLeafRange(hashID)
	vcEnsures("eight leaves", end == start+8 && start%8 == 0 && 2048 <= start && end <= 4096)
	// the leaves below the node at level 1, 2 or 3
	a := start / 8
	vcEnsures("of its level 3 ancestor", hashID == a || hashID/2 == a || hashID/4 == a)
}

// where the log keeps node id of a twig: levels 1 to 3 are skipped
func nodeOff(twigID int64, id int) int64 {
	if id < 256 {
		return twigID*TwigMtSize + 12 + 32*(int64(id)-1)
	}
	return twigID*TwigMtSize + 12 + 32*(int64(id)-1-1792)
}

func onDisk(h *HPFile, off int64, n int) bool {
	return hasBytes(h, int(off)/h.blockSize, int(off)%h.blockSize, n)
}

// bytes off.. of the log
func logHas(h *HPFile, off int64, b []byte) bool {
	return inBlock(h, int(off)/h.blockSize, int(off)%h.blockSize, b)
}

func twigFileOK(h *HPFile, twigID int64) bool {
	return 0 <= twigID && twigID < 1<<40 && h.blockSize > 0 && h.blockSize < 1<<40 && filesOpen(h) && preOK(h)
}

func contract_TwigMtFile_GetFirstEntryPos(tf *TwigMtFile, twigID int64) {
	h := tf.HPFile
	off := twigID * TwigMtSize
	vcRequires(twigFileOK(h, twigID) && onDisk(h, off, 12))
	id, y := int(off)/h.blockSize, int(off)%h.blockSize
	d := vcFileOf(h.fileMap[id]).data
	vcModifies(h.preReader.buf, &h.preReader.fileID, &h.preReader.start, &h.preReader.end)
	var b [8]byte
	for t := 0; t < 8; t++ {
		b[t] = vcGet(d, y+t)
	}
	m := meow.New32(0)
	m.Write(b[:])
	sum := m.Sum(nil)
	// the checksum is right
	vcRequires(vcForall(0, 4, func(t int) bool { return vcGet(d, y+8+t) == sum[t] }))
	r := tf.GetFirstEntryPos(twigID)
	vcEnsures("stored position", r == int64(binary.LittleEndian.Uint64(b[:])))
	vcEnsures("read-ahead buffer", preOK(h))
}

func contract_TwigMtFile_GetHashNode(tf *TwigMtFile, twigID int64, hashID int, cache map[int][]byte) {
	h := tf.HPFile
	vcRequires(1 <= hashID && hashID < 256 || 2048 <= hashID && hashID < 4096)
	off := nodeOff(twigID, hashID)
	vcRequires(twigFileOK(h, twigID) && onDisk(h, off, 32))
	vcModifies(h.preReader.buf, &h.preReader.fileID, &h.preReader.start, &h.preReader.end)
	vcFreshResult(0)
	r := tf.GetHashNode(twigID, hashID, cache)
	vcEnsures("stored node", len(r) == 32 && logHas(h, off, r))
	vcEnsures("read-ahead buffer", preOK(h))
}
