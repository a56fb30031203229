package rabbit

import (
	"bytes"
	"encoding/binary"
	"testing"

	sha256 "github.com/minio/sha256-simd"

	"github.com/smartbch/moeingads/store/types"
	adstypes "github.com/smartbch/moeingads/types"
)

// rbBase is a plain map as parent store.
type rbBase struct {
	m    map[string][]byte
	prep map[string]bool // true: for update
	lock int
}

func (b *rbBase) RLock()                      { b.lock++ }
func (b *rbBase) RUnlock()                    { b.lock-- }
func (b *rbBase) Get(k []byte) []byte         { return append([]byte(nil), b.m[string(k)]...) }
func (b *rbBase) ActiveCount() int            { return len(b.m) }
func (b *rbBase) PrepareForUpdate(k []byte)   { b.prep["u"+string(k)] = true }
func (b *rbBase) PrepareForDeletion(k []byte) { b.prep["d"+string(k)] = true }
func (b *rbBase) GetAtHeight(k []byte, h uint64) []byte {
	return b.Get(append(append([]byte{}, k...), byte(h)))
}
func (b *rbBase) Update(fn func(db types.SetDeleter)) { fn(b) }
func (b *rbBase) Set(k, v []byte) {
	if !b.prep["u"+string(k)] {
		panic("set of a slot that was not prepared for update")
	}
	b.m[string(k)] = append([]byte{}, v...)
}
func (b *rbBase) Delete(k []byte) {
	if !b.prep["d"+string(k)] {
		panic("deletion of a slot that was not prepared")
	}
	delete(b.m, string(k))
}

func rbSlot(h [32]byte) (k [KeySize]byte) {
	copy(k[:], h[:])
	k[0] = adstypes.LimitRange(k[0])
	return
}

// TestVerifC18 plants holes under the slots of other keys, so that probe paths
// have several steps although the slots are wide.
func TestVerifC18(t *testing.T) {
	vfLoop(t, "C18", 300, 6000, func(r *vfRun) {
		tr := &rbBase{m: map[string][]byte{}, prep: map[string]bool{}}
		ref := map[string][]byte{}
		var keys [][]byte
		for i := 0; i < 2+r.Intn(12); i++ {
			keys = append(keys, r.Bytes(r.Intn(40)))
		}
		// strangers: the first slots of some key's path are taken by other keys
		type cell struct {
			slot   [KeySize]byte
			key    []byte
			value  []byte
			passby uint32
		}
		var cells []cell
		for _, k := range keys {
			if r.Intn(2) == 0 {
				continue
			}
			h := sha256.Sum256(k)
			for n := 1 + r.Intn(4); n > 0; n-- {
				c := cell{slot: rbSlot(h), key: r.Bytes(41), value: r.Bytes(1 + r.Intn(9)), passby: uint32(r.Intn(3))}
				dup := false
				for _, x := range cells {
					dup = dup || x.slot == c.slot
				}
				if !dup {
					cells = append(cells, c)
				}
				h = sha256.Sum256(h[:])
			}
		}
		for _, c := range cells {
			tr.PrepareForUpdate(c.slot[:])
			c := c
			tr.Update(func(db types.SetDeleter) {
				db.Set(c.slot[:], (&CachedValue{key: c.key, value: c.value, passbyNum: c.passby}).ToBytes())
			})
		}
		r.Logf("%d keys, %d strangers", len(keys), len(cells))
		for tx := 0; tx < 10; tx++ {
			rb := NewRabbitStore(tr)
			over := map[string][]byte{}
			get := func(k []byte) []byte {
				if v, ok := over[string(k)]; ok {
					return v
				}
				return ref[string(k)]
			}
			for n := r.Intn(12); n > 0; n-- {
				k := keys[r.Intn(len(keys))]
				switch r.Intn(3) {
				case 0:
					r.Logf("del %x", k)
					rb.Delete(k)
					over[string(k)] = nil
				default:
					v := r.Bytes(r.Intn(20))
					r.Logf("set %x %x", k, v)
					rb.Set(k, v)
					over[string(k)] = append([]byte{}, v...)
					for i := range v {
						v[i] ^= 0xff
					}
				}
				for _, k := range keys {
					want := get(k)
					got := rb.Get(k)
					r.Check(bytes.Equal(got, want), "key %x reads %x, expected %x", k, got, want)
					r.Check(rb.Has(k) == (want != nil), "key %x: Has is %v", k, rb.Has(k))
				}
			}
			wb := r.Intn(3) != 0
			rb.Close()
			if wb {
				rb.WriteBack()
				for k, v := range over {
					ref[k] = v
					if v == nil {
						delete(ref, k)
					}
				}
			}
			r.Check(tr.lock == 0, "parent is locked %d times after closing", tr.lock)
			// strangers keep their content; a read-only store sees the same
			ro := NewReadOnlyRabbitStore(tr)
			for _, k := range keys {
				got := ro.Get(k)
				r.Check(bytes.Equal(got, ref[string(k)]) && ro.Has(k) == (ref[string(k)] != nil), "after tx %d key %x reads %x, expected %x", tx, k, got, ref[string(k)])
			}
			ro.Close()
			for _, c := range cells {
				cv := BytesToCachedValue(tr.Get(c.slot[:]))
				r.Check(cv != nil && bytes.Equal(cv.key, c.key) && bytes.Equal(cv.value, c.value) && !cv.isEmpty, "slot %x of another key changed", c.slot)
				r.Check(cv.passbyNum >= c.passby, "slot %x: %d keys pass by, was %d", c.slot, cv.passbyNum, c.passby)
			}
		}
		// after deleting every key the strangers' counters are back
		rb := NewRabbitStore(tr)
		for _, k := range keys {
			rb.Delete(k)
		}
		rb.Close()
		rb.WriteBack()
		for _, c := range cells {
			cv := BytesToCachedValue(tr.Get(c.slot[:]))
			r.Check(cv != nil && cv.passbyNum == c.passby, "slot %x: %v pass by after deleting all, was %d", c.slot, cv, c.passby)
		}
		for _, k := range keys {
			h := sha256.Sum256(k)
			for i := 0; i < 8; i++ {
				s := rbSlot(h)
				other := false
				for _, c := range cells {
					other = other || c.slot == s
				}
				r.Check(other || tr.Get(s[:]) == nil, "slot %x is still used after deleting all keys", s)
				h = sha256.Sum256(h[:])
			}
		}
		// slot codec
		for i := 0; i < 100; i++ {
			cv := &CachedValue{isEmpty: r.Intn(3) == 0, passbyNum: uint32(r.Uint64()), key: r.Bytes(r.Intn(30)), value: r.Bytes(r.Intn(30))}
			bz := cv.ToBytes()
			b := BytesToCachedValue(bz)
			r.Check(b != nil && b.isEmpty == cv.isEmpty && b.passbyNum == cv.passbyNum && bytes.Equal(b.key, cv.key) && (cv.isEmpty || bytes.Equal(b.value, cv.value)), "slot %v decodes as %v", cv, b)
			cut := r.Intn(9 + len(cv.key))
			r.Check(BytesToCachedValue(bz[:cut]) == nil, "%d of %d bytes of a slot are accepted", cut, len(bz))
			big := append([]byte{}, bz...)
			binary.LittleEndian.PutUint32(big[5:9], uint32(len(bz)-9+1+r.Intn(1<<30)))
			r.Check(BytesToCachedValue(big) == nil, "key length beyond the slot accepted")
		}
	})
}
