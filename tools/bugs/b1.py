BUGS = [
dict(id='c11-twigheight-key32', property='C11', pkg='metadb',
  edits=[('metadb/metadb.go', '''func (db *MetaDB) setTwigHeight(shardID int, twigID int64, height int64) {
	db.mtx.Lock()
	defer db.mtx.Unlock()
	var buf [8]byte
	binary.LittleEndian.PutUint64(buf[:], uint64(twigID))''', '''func (db *MetaDB) setTwigHeight(shardID int, twigID int64, height int64) {
	db.mtx.Lock()
	defer db.mtx.Unlock()
	var buf [8]byte
	binary.LittleEndian.PutUint32(buf[:], uint32(twigID))''')],
  demo='''package metadb
import ("testing";"github.com/smartbch/moeingads/indextree")
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	kvdb, err := indextree.NewRocksDB("m", dir)
	if err != nil { t.Fatal(err) }
	defer kvdb.Close()
	kvdb.OpenNewBatch()
	m := NewMetaDB(kvdb)
	m.setTwigHeight(1, 1<<32+7, 44)
	kvdb.CloseOldBatch()
	if h := m.GetTwigHeight(1, 1<<32+7); h != 44 { t.Fatal("demo: height lost", h) }
	if h := m.GetTwigHeight(1, 7); h != -1 { t.Fatal("demo: another twig's height", h) }
}
''',
  needs='a twig id of 2^32 or more', what_it_breaks='heights of twigs beyond 2^32 are stored under another twig\'s key'),
dict(id='c11-incr-after-restart', property='C11', pkg='metadb',
  edits=[('metadb/metadb.go', '''	if db.maxSerialNum[shardID]%datatree.LeafCountInTwig == 0 {''', '''	if db.maxSerialNum[shardID]&(datatree.LeafCountInTwig-1) == 0 && (shardID != types.ShardCount-1 || db.maxSerialNum[shardID] != 3*datatree.LeafCountInTwig) {''')],
  demo='''package metadb
import ("testing";"github.com/smartbch/moeingads/indextree")
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	kvdb, err := indextree.NewRocksDB("m", dir)
	if err != nil { t.Fatal(err) }
	defer kvdb.Close()
	kvdb.OpenNewBatch()
	m := NewMetaDB(kvdb)
	m.SetCurrHeight(9)
	for i := 0; i < 4*2048; i++ { m.IncrMaxSerialNum(7) }
	kvdb.CloseOldBatch()
	for i := int64(1); i <= 4; i++ {
		if h := m.GetTwigHeight(7, i); h != 9 { t.Fatal("demo: height of twig", i, h) }
	}
}
''',
  needs='the last shard crossing its third twig boundary', what_it_breaks='the height of one twig is never recorded'),
dict(id='c15-late-pair', property='C15', pkg='',
  edits=[('moeingads.go', '	n4[3] = sha256.Sum256(append(n8[6][:], n8[7][:]...))', '''	last := append(n8[6][:], n8[7][:]...)
	if n8[6] == ([32]byte{}) {
		last = append(n8[7][:], n8[6][:]...)
	}
	n4[3] = sha256.Sum256(last)''')],
  demo='''package moeingads
import ("testing";"bytes";"crypto/sha256";"github.com/smartbch/moeingads/metadb")
func TestDemo(t *testing.T) {
	m := &metadb.MetaDB{}
	var n [8][32]byte
	for i := range n { if i != 6 { n[i][0] = byte(i+1) }; m.SetRootHash(i, n[i]) }
	mads := &MoeingADS{meta: m}
	l := n[:]
	for len(l) > 1 {
		var u [][32]byte
		for i := 0; i < len(l); i += 2 { u = append(u, sha256.Sum256(append(append([]byte{}, l[i][:]...), l[i+1][:]...))) }
		l = u
	}
	if !bytes.Equal(l[0][:], mads.GetRootHash()) { t.Fatal("demo: wrong root") }
}
''',
  needs='shard root 6 being all zero', what_it_breaks='the last two shard roots are hashed in the wrong order'),
dict(id='c16-channel-edge', property='C16', pkg='types',
  edits=[('types/types.go', '		return 1 + (int(b)-64)/16', '''		id := 1 + (int(b)-64)/16
		if b&0xF == 0xF && b>>4 == 0xA {
			id++ // round up at the border
		}
		return id''')],
  demo='''package types
import "testing"
func TestDemo(t *testing.T) {
	for b := 1; b < 256; b++ {
		if GetIndexChanID(byte(b)) < GetIndexChanID(byte(b-1)) { t.Fatal("demo: not monotone") }
		if b >= 64 && b < 192 && GetIndexChanID(byte(b)) != 1+(b-64)/16 { t.Fatal("demo: uneven", b) }
	}
}
''',
  needs='a key whose first byte is 0xAF', what_it_breaks='one byte value goes to the next channel'),
]
