package types

// GhostKV is the ghost view of a key-value store: the operations pending in
// the current write batch, and the durable map below it. The contracts of the
// interface methods (assumed: RocksDB and the mock store are outside the
// verified code) are executed on it.
type GhostKV struct {
	PendSet map[string]string // keys set in the open batch
	PendDel map[string]bool   // keys deleted in the open batch
	Disk    map[string]string
}

// Uf_kv is the ghost view a batch writes to.
func Uf_kv(b Batch) *GhostKV { return nil }

func contract_iface_Batch_Set(b Batch, key, value []byte) {
	g := Uf_kv(b)
	b.Set(key, value)
	g.PendSet[string(key)] = string(value)
	delete(g.PendDel, string(key))
}

func contract_iface_Batch_Delete(b Batch, key []byte) {
	g := Uf_kv(b)
	b.Delete(key)
	g.PendDel[string(key)] = true
	delete(g.PendSet, string(key))
}

// GhostIter is the record an iterator of the store stands on.
type GhostIter struct {
	Valid      bool
	Key, Value string
}

func Uf_iter(it Iterator) *GhostIter { return nil }

func contract_iface_Iterator_Valid(it Iterator) {
	r := it.Valid()
	vcEnsures("valid", r == Uf_iter(it).Valid)
}

func contract_iface_Iterator_Key(it Iterator) {
	vcFreshResult(0)
	r := it.Key()
	vcEnsures("key", string(r) == Uf_iter(it).Key)
}

func contract_iface_Iterator_Value(it Iterator) {
	vcFreshResult(0)
	r := it.Value()
	vcEnsures("value", string(r) == Uf_iter(it).Value)
}

func contract_iface_Iterator_Close(it Iterator) { it.Close() }
