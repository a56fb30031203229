package datatree

import (
	"io"
	"os"
)

// C03: the head-prunable file is a log.

// ---- representation

func cur(h *HPFile) *vcFile { return vcFileOf(h.fileMap[h.largestID]) }

func inMap(h *HPFile, id int) bool { _, ok := h.fileMap[id]; return ok }

func hpInv(h *HPFile) bool { return hpRep(h) && h.latestFileSize < int64(h.blockSize) }

func hpRep(h *HPFile) bool {
	return h.fileMap != nil && h.bufferSize > 0 && h.blockSize > 0 && h.blockSize%h.bufferSize == 0 && h.blockSize < 1<<40 &&
		0 <= h.largestID && h.fileMap[h.largestID] != nil &&
		len(h.buffer) <= h.bufferSize && cap(h.buffer) == h.bufferSize &&
		0 <= h.latestFileSize &&
		int64(cur(h).size+len(h.buffer)) == h.latestFileSize && cur(h).pos == cur(h).size &&
		vcAll(func(id int) bool { return vcImplies(inMap(h, id), id <= h.largestID && h.fileMap[id] != nil) }) &&
		vcAll(func(id int) bool { return vcImplies(inMap(h, id) && id != h.largestID, h.fileMap[id] != h.fileMap[h.largestID]) })
}

// byte y of the block being written: on disk or still buffered
func blockByte(h *HPFile, f *vcFile, y int) byte {
	if y < f.size {
		return vcGet(f.data, y)
	}
	return h.buffer[y-f.size]
}

func blen(bufList [][]byte, j int) int {
	if j < len(bufList) {
		return len(bufList[j])
	}
	return 0
}

func boff(bufList [][]byte, j int) int {
	n := 0
	if j > 0 {
		n += blen(bufList, 0)
	}
	if j > 1 {
		n += blen(bufList, 1)
	}
	if j > 2 {
		n += blen(bufList, 2)
	}
	if j > 3 {
		n += blen(bufList, 3)
	}
	return n
}

func contract_HPFile_Size(h *HPFile) {
	vcRequires(hpInv(h) && h.largestID < 1<<20)
	r := h.Size()
	vcEnsures("size", r == int64(h.largestID)*int64(h.blockSize)+h.latestFileSize)
}

func contract_HPFile_flush(h *HPFile) {
	vcRequires(hpRep(h))
	f := cur(h)
	n := f.size
	vcModifies(&h.buffer, &f.data, &f.size, &f.pos)
	h.flush()
	vcEnsures("representation", hpRep(h))
	vcEnsures("nothing stays buffered", len(h.buffer) == 0)
	vcEnsures("same memory", vcSameMem(h.buffer, vcOld(func() []byte { return h.buffer })))
	vcEnsures("bytes", vcForall(0, int(h.latestFileSize), func(y int) bool {
		return vcGet(f.data, y) == vcOld(func() byte { return blockByte(h, f, y) })
	}))
	vcEnsures("disk bytes stay", vcForall(0, n, func(y int) bool {
		return vcGet(f.data, y) == vcOld(func() byte { return vcGet(f.data, y) })
	}))
}

func contract_HPFile_Append(h *HPFile, bufList [][]byte) {
	vcRequires(hpInv(h) && h.largestID < 1<<20 && len(bufList) <= 4)
	vcRequires(apart(h, bufList, 0) && apart(h, bufList, 1) && apart(h, bufList, 2) && apart(h, bufList, 3))
	total := boff(bufList, 4)
	vcRequires(total <= h.bufferSize)
	p, f := int(h.latestFileSize), cur(h)
	l := h.largestID
	n := f.size
	pos := int64(h.largestID)*int64(h.blockSize) + h.latestFileSize
	vcDefineLocal(uf_o(0) == p && uf_o(1) == p+boff(bufList, 1) && uf_o(2) == p+boff(bufList, 2) && uf_o(3) == p+boff(bufList, 3) && uf_o(4) == p+total)
	vcDefineLocal(vcForall(0, p, func(y int) bool { return uf_b(y) == blockByte(h, f, y) }))
	vcDefineLocal(piece(h, bufList, 0) && piece(h, bufList, 1) && piece(h, bufList, 2) && piece(h, bufList, 3))
	vcModifiesArray(h.buffer)
	vcModifies(&h.buffer, h.fileMap, &h.largestID, &h.latestFileSize, &f.data, &f.size, &f.pos)
	r, err := h.Append(bufList)
	vcEnsures("no error", err == nil)
	vcEnsures("at the end", r == pos)
	vcEnsures("representation", hpInv(h))
	vcEnsures("size", int64(h.largestID)*int64(h.blockSize)+h.latestFileSize == pos+int64(total))
	vcEnsures("same block or the next", h.largestID == l && p+total < h.blockSize || h.largestID == l+1 && p+total >= h.blockSize)
	vcEnsures("files stay", vcAll(func(id int) bool {
		return id == l+1 || h.fileMap[id] == vcOld(func() *os.File { return h.fileMap[id] }) && inMap(h, id) == vcOld(func() bool { return inMap(h, id) })
	}))
	vcEnsures("the block holds it all", f.size <= p+total && (h.largestID == l || f.size == p+total))
	vcEnsures("earlier bytes stay", vcForall(0, p, func(y int) bool {
		return blockByte(h, f, y) == vcOld(func() byte { return blockByte(h, f, y) })
	}))
	vcEnsures("disk bytes stay", f.size >= n && vcForall(0, n, func(y int) bool {
		return vcGet(f.data, y) == vcOld(func() byte { return vcGet(f.data, y) })
	}))
	for j := 0; j < 4; j++ {
		if j < len(bufList) {
			vcEnsures("appended bytes", vcForall(0, len(bufList[j]), func(t int) bool {
				return blockByte(h, f, p+boff(bufList, j)+t) == bufList[j][t]
			}))
		}
	}
}

// the block's bytes after the append, and where each piece starts (this call only)
func uf_b(y int) byte { return 0 }
func uf_o(j int) int  { return 0 }

func inv_HPFile_Append_0(hpf *HPFile, bufList [][]byte) bool {
	k := vcIter()
	f := cur(hpf)
	n := vcEntry(func() int { return cur(hpf).size })
	return 0 <= k && k <= len(bufList) &&
		len(hpf.buffer) <= hpf.bufferSize && cap(hpf.buffer) == hpf.bufferSize &&
		vcSameMem(hpf.buffer, vcEntry(func() []byte { return hpf.buffer })) &&
		(piece(hpf, bufList, 0) && piece(hpf, bufList, 1) && piece(hpf, bufList, 2) && piece(hpf, bufList, 3)) &&
		int(hpf.latestFileSize) == uf_o(k) && f.size+len(hpf.buffer) == int(hpf.latestFileSize) && f.pos == f.size &&
		f.size >= n &&
		vcForall(0, int(hpf.latestFileSize), func(y int) bool { return blockByte(hpf, f, y) == uf_b(y) })
}

// piece j fits and does not share memory with the write buffer
func apart(h *HPFile, bufList [][]byte, j int) bool {
	return vcImplies(j < len(bufList), len(bufList[j]) <= h.bufferSize && vcSep(bufList[j], h.buffer))
}

func piece(h *HPFile, bufList [][]byte, j int) bool {
	return vcImplies(j < len(bufList), vcForall(uf_o(j), uf_o(j)+len(bufList[j]), func(y int) bool { return uf_b(y) == bufList[j][y-uf_o(j)] }))
}

func inv_HPFile_Append_1(hpf *HPFile, i int, overflowByteCount int64) bool {
	return 0 <= i && len(hpf.buffer) == int(overflowByteCount) && cap(hpf.buffer) == hpf.bufferSize &&
		vcSameMem(hpf.buffer, vcEntry(func() []byte { return hpf.buffer }))
}

// ---- reading

// bytes y.. of block id
func inBlock(h *HPFile, id, y int, buf []byte) bool {
	return vcForall(0, len(buf), func(t int) bool { return buf[t] == vcGet(vcFileOf(h.fileMap[id]).data, y+t) })
}

func hasBytes(h *HPFile, id, y, n int) bool { return inMap(h, id) && y+n <= vcFileOf(h.fileMap[id]).size }

// the read-ahead buffer agrees with the file it was read from
func preOK(h *HPFile) bool {
	pr := &h.preReader
	return len(pr.buf) == PreReadBufSize && vcSep(pr.buf, h.buffer) &&
		0 <= pr.start && pr.start <= pr.end && pr.end-pr.start <= PreReadBufSize &&
		vcImplies(inMap(h, int(pr.fileID)), int(pr.end) <= vcFileOf(h.fileMap[int(pr.fileID)]).size &&
			inBlock(h, int(pr.fileID), int(pr.start), pr.buf[:pr.end-pr.start]))
}

func filesOpen(h *HPFile) bool {
	return vcAll(func(id int) bool { return vcImplies(inMap(h, id), h.fileMap[id] != nil) })
}

func contract_PreReader_GetToFill(pr *PreReader, fileID, start, end int64) {
	vcRequires(0 <= start && start <= end && end-start <= int64(len(pr.buf)))
	vcModifies(&pr.fileID, &pr.start, &pr.end)
	r := pr.GetToFill(fileID, start, end)
	vcEnsures("range", pr.fileID == fileID && pr.start == start && pr.end == end)
	vcEnsures("buffer", len(r) == int(end-start) && vcSameMem(r, pr.buf))
}

func contract_PreReader_TryRead(pr *PreReader, fileID, start int64, buf []byte) {
	vcRequires(0 <= pr.start && pr.start <= pr.end && pr.end-pr.start <= int64(len(pr.buf)))
	vcRequires(vcSep(buf, pr.buf) && start >= 0 && start < 1<<40 && len(buf) < 1<<40)
	vcModifies(buf)
	r := pr.TryRead(fileID, start, buf)
	vcEnsures("in range", r == (fileID == pr.fileID && pr.start <= start && start+int64(len(buf)) <= pr.end))
	if r {
		vcEnsures("bytes", vcForall(0, len(buf), func(t int) bool { return buf[t] == pr.buf[int(start-pr.start)+t] }))
	}
}

func contract_HPFile_readAtWithBuf(h *HPFile, buf []byte, off int64) {
	vcRequires(h.blockSize > 0 && h.blockSize < 1<<40 && off >= 0 && len(buf) < 1<<40)
	id := int(off) / h.blockSize
	y := int(off) % h.blockSize
	vcRequires(filesOpen(h) && preOK(h) && vcSep(buf, h.preReader.buf))
	// reads past the end are bugs of the caller
	vcRequires(!inMap(h, id) || hasBytes(h, id, y, len(buf)))
	pr := &h.preReader
	vcModifies(buf, pr.buf, &pr.fileID, &pr.start, &pr.end)
	err := h.readAtWithBuf(buf, off)
	vcEnsures("read or refused", (err == nil) == inMap(h, id))
	vcEnsures("bytes", vcImplies(err == nil, inBlock(h, id, y, buf)))
	vcEnsures("read-ahead buffer", preOK(h))
}

func contract_HPFile_ReadAt(h *HPFile, buf []byte, off int64, withBuf bool) {
	vcRequires(h.blockSize > 0 && h.blockSize < 1<<40 && off >= 0 && len(buf) < 1<<40)
	id := int(off) / h.blockSize
	y := int(off) % h.blockSize
	vcRequires(filesOpen(h) && preOK(h) && vcSep(buf, h.preReader.buf))
	vcRequires(!withBuf || !inMap(h, id) || hasBytes(h, id, y, len(buf)))
	pr := &h.preReader
	vcModifies(buf, pr.buf, &pr.fileID, &pr.start, &pr.end)
	err := h.ReadAt(buf, off, withBuf)
	vcEnsures("read", vcImplies(hasBytes(h, id, y, len(buf)), err == nil))
	vcEnsures("refused", vcImplies(!hasBytes(h, id, y, len(buf)), err != nil))
	vcEnsures("bytes", vcImplies(err == nil, inBlock(h, id, y, buf)))
	vcEnsures("end of file", vcImplies(inMap(h, id) && err != nil, err == io.EOF))
	vcEnsures("read-ahead buffer", preOK(h))
}

// ---- records

func contract_getPaddingSize(length int) {
	vcRequires(length >= 0 && length < 1<<41)
	r := getPaddingSize(length)
	vcEnsures("aligned", 0 <= r && r < 8 && (length+r)%8 == 0)
}

func contract_getNextPos(off, length int64) {
	vcRequires(0 <= off && off < 1<<60 && length >= 0 && length < 1<<40)
	r := getNextPos(off, length)
	vcEnsures("the record is passed", r >= off+length+12 && r < off+length+20)
	vcEnsures("aligned", (r-off)%8 == 0)
}

func contract_EntryFile_readMagicBytesAndLength(ef *EntryFile, off int64, withBuf bool) {
	h := ef.HPFile
	vcRequires(h.blockSize > 0 && h.blockSize < 1<<40 && off >= 0)
	id := int(off) / h.blockSize
	y := int(off) % h.blockSize
	vcRequires(filesOpen(h) && preOK(h) && hasBytes(h, id, y, 12))
	d := vcFileOf(h.fileMap[id]).data
	vcRequires(vcSep(h.preReader.buf, &MagicBytes))
	// a record starts here
	vcRequires(vcForall(0, 8, func(t int) bool { return vcGet(d, y+t) == MagicBytes[t] }))
	n := int64(vcGet(d, y+9)) + 256*int64(vcGet(d, y+10)) + 65536*int64(vcGet(d, y+11))
	vcRequires(int(n) < MaxEntryBytes)
	pr := &h.preReader
	vcModifies(pr.buf, &pr.fileID, &pr.start, &pr.end)
	length, sns := ef.readMagicBytesAndLength(off, withBuf)
	vcEnsures("length", length == n)
	vcEnsures("serial numbers", sns == int(vcGet(d, y+8)))
	vcEnsures("read-ahead buffer", preOK(h))
}

func contract_EntryFile_Append(ef *EntryFile, b [2][]byte) {
	h := ef.HPFile
	n0, n1 := len(b[0]), len(b[1])
	vcRequires(hpInv(h) && h.largestID < 1<<20)
	vcRequires(n0+n1+15 < h.bufferSize)
	vcRequires(vcSep(b[0], h.buffer) && vcSep(b[1], h.buffer) && vcSep(&MagicBytes, h.buffer))
	p, f := int(h.latestFileSize), cur(h)
	l := h.largestID
	pos := int64(h.largestID)*int64(h.blockSize) + h.latestFileSize
	vcRequires(pos%8 == 0)
	vcModifiesArray(h.buffer)
	vcModifies(&h.buffer, h.fileMap, &h.largestID, &h.latestFileSize, &f.data, &f.size, &f.pos)
	r := ef.Append(b)
	vcEnsures("at the end", r == pos)
	vcEnsures("representation", hpInv(h))
	size := int64(h.largestID)*int64(h.blockSize) + h.latestFileSize
	vcEnsures("size", size >= pos+int64(8+n0+n1) && size < pos+int64(16+n0+n1) && size%8 == 0)
	vcEnsures("earlier bytes stay", vcForall(0, p, func(y int) bool {
		return blockByte(h, f, y) == vcOld(func() byte { return blockByte(h, f, y) })
	}))
	vcEnsures("separator", vcForall(0, 8, func(t int) bool { return blockByte(h, f, p+t) == MagicBytes[t] }))
	vcEnsures("record", vcForall(0, n0, func(t int) bool { return blockByte(h, f, p+8+t) == b[0][t] }))
	vcEnsures("serial numbers", vcForall(0, n1, func(t int) bool { return blockByte(h, f, p+8+n0+t) == b[1][t] }))
	vcEnsures("in one block", h.largestID == l || f.size >= p+8+n0+n1)
}

// the record at off, as its raw bytes
func contract_EntryFile_readEntry(ef *EntryFile, off int64, withSNList, useRaw, withBuf bool) {
	h := ef.HPFile
	vcRequires(useRaw && h.blockSize > 0 && h.blockSize < 1<<40 && off >= 0 && off < 1<<60)
	id := int(off) / h.blockSize
	y := int(off) % h.blockSize
	vcRequires(filesOpen(h) && preOK(h) && hasBytes(h, id, y, 12) && vcSep(h.preReader.buf, &MagicBytes))
	d := vcFileOf(h.fileMap[id]).data
	vcRequires(vcForall(0, 8, func(t int) bool { return vcGet(d, y+t) == MagicBytes[t] }))
	n := int(vcGet(d, y+9)) + 256*int(vcGet(d, y+10)) + 65536*int(vcGet(d, y+11))
	k := int(vcGet(d, y+8))
	vcRequires(n < MaxEntryBytes && hasBytes(h, id, y, 12+n+8*k))
	pr := &h.preReader
	vcModifies(pr.buf, &pr.fileID, &pr.start, &pr.end)
	vcFreshResult(0)
	bz, sns, next := ef.readEntry(off, withSNList, useRaw, withBuf)
	w := 0
	if withSNList {
		w = k
	}
	vcEnsures("serial numbers", sns == w)
	vcEnsures("length", len(bz) == 4+n+8*w)
	vcEnsures("bytes", vcForall(0, len(bz), func(t int) bool { return bz[t] == vcGet(d, y+8+t) }))
	vcEnsures("next", int(next) >= int(off)+12+n+8*k && int(next) < int(off)+20+n+8*k && (next-off)%8 == 0)
	vcEnsures("read-ahead buffer", preOK(h))
}

func contract_HPFile_PruneHead(h *HPFile, off int64) {
	vcRequires(h.fileMap != nil && h.blockSize > 0 && h.blockSize < 1<<40 && off >= 0 && filesOpen(h))
	first := int(off) / h.blockSize
	vcModifies(h.fileMap)
	err := h.PruneHead(off)
	vcEnsures("no error", err == nil)
	vcEnsures("nothing appears", vcAll(func(id int) bool { return vcImplies(inMap(h, id), vcOld(func() bool { return inMap(h, id) })) }))
	vcEnsures("the others stay", vcAll(func(id int) bool {
		return id < first || inMap(h, id) == vcOld(func() bool { return inMap(h, id) }) && h.fileMap[id] == vcOld(func() *os.File { return h.fileMap[id] })
	}))
}

func inv_HPFile_PruneHead_0(fileID int64, idList []int) bool {
	return vcForall(0, len(idList), func(k int) bool { return idList[k] < int(fileID) })
}

func inv_HPFile_PruneHead_1(hpf *HPFile, idList []int, fileID int64) bool {
	return vcAll(func(id int) bool {
		return vcImplies(id >= int(fileID), inMap(hpf, id) == vcEntry(func() bool { return inMap(hpf, id) }) && hpf.fileMap[id] == vcEntry(func() *os.File { return hpf.fileMap[id] }))
	}) && vcAll(func(id int) bool { return vcImplies(inMap(hpf, id), vcEntry(func() bool { return inMap(hpf, id) })) })
}
