package main

// Go types -> leaf components, heaps, symbolic values, loads and stores.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vk uint8

const (
	vScalar vk = iota // int, bool, ref (pointer, map, chan)
	vStr              // t = arr, ln
	vSlice            // t = base, off, ln, cp
	vIface            // tag, t
	vStruct           // a
	vTuple            // a
	vBytes            // [N]byte: t = canonical array
	vSArr             // [N]scalar: t = array
	vSnap             // array of composites by value
	vFunc             // clo
	vEPtr             // pointer to an element of a scalar array: t = base, off = idx
	vIter             // map/string iterator
	vMath             // mathematical array (ghost): t
)

type Val struct {
	k                vk
	ty               types.Type
	t, off, ln, cp   *Term
	tag              *Term
	a                []Val
	clo              *Closure
	snap             *Snap
	iter             *Iter
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	id    int
	recv  *Val // bound method
	builtin string
}

type Snap struct {
	heaps map[string]*Term
	addr  *Term
	ty    types.Type
	n     int64
}

type Iter struct {
	dom0    *Term // keys at the start
	m       *Term
	mty     *types.Map
	id      int
	str     *Val
}

// ---------------------------------------------------------------- type helpers

func under(t types.Type) types.Type { return t.Underlying() }

var canonTypes = map[types.Type]types.Type{}

// canon replaces type aliases by what they stand for.
func canon(t types.Type) types.Type {
	if r, ok := canonTypes[t]; ok {
		return r
	}
	r := t
	switch u := t.(type) {
	case *types.Alias:
		r = canon(types.Unalias(u))
	case *types.Pointer:
		r = types.NewPointer(canon(u.Elem()))
	case *types.Slice:
		r = types.NewSlice(canon(u.Elem()))
	case *types.Array:
		r = types.NewArray(canon(u.Elem()), u.Len())
	case *types.Map:
		r = types.NewMap(canon(u.Key()), canon(u.Elem()))
	}
	canonTypes[t] = r
	return r
}

func isByteType(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return SI64
	case types.Int32:
		return SI32
	case types.Int16:
		return sSort(16)
	case types.Int8:
		return sSort(8)
	case types.Uint, types.Uint64, types.Uintptr:
		return SU64
	case types.Uint32:
		return SU32
	case types.Uint16:
		return uSort(16)
	case types.Uint8:
		return SU8
	case types.Float64, types.UntypedFloat, types.Float32:
		return intSort("float", nil, nil) // opaque
	case types.UnsafePointer:
		return SRef
	}
	panic(unsupported("basic type " + b.String()))
}

type unsup struct{ msg string }

func (u unsup) Error() string      { return u.msg }
func unsupported(m string) error   { return unsup{m} }

func isScalarType(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() != types.String && u.Kind() != types.UntypedString
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func scalarSort(t types.Type) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		return basicSort(u)
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	}
	panic(unsupported("scalarSort " + t.String()))
}

func isMathArr(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "vcArr"
}
// isMathMap: ghost map from byte strings to byte strings etc. is an ordinary Go map

var ifaceNames = map[string]string{}

func tyName(t types.Type) string {
	t = canon(t)
	if it, ok := t.(*types.Interface); ok && it.NumMethods() > 0 {
		k := types.TypeString(t, nil)
		if ifaceNames[k] == "" {
			ifaceNames[k] = fmt.Sprintf("iface%d.%s", len(ifaceNames), it.Method(0).Name())
		}
		return ifaceNames[k]
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// heap name for a scalar leaf of the given type
func scalarHeap(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		k := u.Name()
		switch u.Kind() {
		case types.Int:
			k = "int"
		}
		return k
	case *types.Pointer:
		return "p:" + tyName(u.Elem())
	case *types.Map:
		return "m:" + tyName(u)
	case *types.Chan:
		return "c:" + tyName(u)
	}
	return "?" + tyName(t)
}

var heapSorts = map[string]*Sort{}

func heapSort(name string, elem *Sort) *Sort {
	s, ok := heapSorts[name]
	if !ok {
		s = arrSort(SRef, elem, -1)
		heapSorts[name] = s
	}
	return s
}

// ---------------------------------------------------------------- fields

type fieldKey struct {
	st  string
	idx int
}

var fieldIDs = map[fieldKey]int{}
var fieldNames []string

func fieldID(st types.Type, idx int) int {
	k := fieldKey{structKey(st), idx}
	if id, ok := fieldIDs[k]; ok {
		return id
	}
	id := len(fieldNames) + 1
	fieldIDs[k] = id
	s := under(st).(*types.Struct)
	fieldNames = append(fieldNames, s.Field(idx).Name())
	return id
}
func structKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return tyName(n)
	}
	return tyName(t)
}
func fieldName(id int) string {
	if id >= 1 && id <= len(fieldNames) {
		return fieldNames[id-1]
	}
	return fmt.Sprintf("f%d", id)
}

var elemIDs = map[string]int{}

func elemID(t types.Type) int {
	k := tyName(t)
	if id, ok := elemIDs[k]; ok {
		return id
	}
	elemIDs[k] = len(elemIDs) + 1
	return elemIDs[k]
}

func fieldAddr(base *Term, st types.Type, i int) *Term { return Fa(fieldID(st, i), base) }
func elAddr(base *Term, elem types.Type, i *Term) *Term { return El(elemID(elem), base, i) }

// ---------------------------------------------------------------- value construction

func mkScalar(t *Term, ty types.Type) Val { return Val{k: vScalar, t: t, ty: ty} }
func mkInt(t *Term) Val                    { return Val{k: vScalar, t: t, ty: types.Typ[types.Int]} }
func mkBool(t *Term) Val                   { return Val{k: vScalar, t: t, ty: types.Typ[types.Bool]} }

var emptyBytes = CArr(bytesSort(-1), Zero)

func zeroVal(t types.Type) Val {
	if isMathArr(t) {
		return Val{k: vMath, ty: t, t: emptyBytes}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Val{k: vStr, ty: t, t: emptyBytes, ln: Zero}
		case u.Kind() == types.UntypedNil:
			return Val{k: vScalar, ty: t, t: Null}
		case u.Info()&types.IsBoolean != 0:
			return mkScalar(False, t)
		case u.Kind() == types.UnsafePointer:
			return mkScalar(Null, t)
		}
		return mkScalar(Zero, t)
	case *types.Pointer, *types.Map, *types.Chan:
		return mkScalar(Null, t)
	case *types.Slice:
		return Val{k: vSlice, ty: t, t: Null, off: Zero, ln: Zero, cp: Zero}
	case *types.Interface:
		return Val{k: vIface, ty: t, tag: Zero, t: Null}
	case *types.Signature:
		return Val{k: vFunc, ty: t}
	case *types.Struct:
		v := Val{k: vStruct, ty: t}
		for i := 0; i < u.NumFields(); i++ {
			v.a = append(v.a, zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Tuple:
		v := Val{k: vTuple, ty: t}
		for i := 0; i < u.Len(); i++ {
			v.a = append(v.a, zeroVal(u.At(i).Type()))
		}
		return v
	case *types.Array:
		if isByteType(u.Elem()) {
			return Val{k: vBytes, ty: t, t: CArr(bytesSort(u.Len()), Zero)}
		}
		if isScalarType(u.Elem()) {
			s := scalarSort(u.Elem())
			return Val{k: vSArr, ty: t, t: CArr(arrSort(SInt, s, -1), zeroOf(s))}
		}
		return Val{k: vSnap, ty: t, snap: &Snap{addr: nil, ty: t, n: u.Len()}}
	}
	panic(unsupported("zeroVal " + t.String()))
}

// symVal makes a fresh symbolic value; wf facts are appended through assume.
func symVal(name string, t types.Type, assume func(*Term)) Val {
	if isMathArr(t) {
		return Val{k: vMath, ty: t, t: NewVar(name, bytesSort(-1))}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			n := NewVar(name+".len", SI64)
			v := Val{k: vStr, ty: t, ln: n}
			v.t = Ext(NewVar(name, bytesSort(-1)), Zero, n)
			assume(Ge0(n))
			return v
		}
		return mkScalar(NewVar(name, basicSort(u)), t)
	case *types.Pointer, *types.Map, *types.Chan:
		return mkScalar(NewVar(name, SRef), t)
	case *types.Slice:
		v := Val{k: vSlice, ty: t, t: NewVar(name, SRef), off: NewVar(name+".off", SI64), ln: NewVar(name+".len", SI64), cp: NewVar(name+".cap", SI64)}
		wfSlice(v, assume)
		return v
	case *types.Interface:
		return Val{k: vIface, ty: t, tag: NewVar(name+".tag", SInt), t: NewVar(name+".ptr", SRef)}
	case *types.Struct:
		v := Val{k: vStruct, ty: t}
		for i := 0; i < u.NumFields(); i++ {
			v.a = append(v.a, symVal(name+"."+u.Field(i).Name(), u.Field(i).Type(), assume))
		}
		return v
	case *types.Tuple:
		v := Val{k: vTuple, ty: t}
		for i := 0; i < u.Len(); i++ {
			v.a = append(v.a, symVal(fmt.Sprintf("%s.%d", name, i), u.At(i).Type(), assume))
		}
		return v
	case *types.Array:
		if isByteType(u.Elem()) {
			return Val{k: vBytes, ty: t, t: NewVar(name, bytesSort(u.Len()))}
		}
		if isScalarType(u.Elem()) {
			return Val{k: vSArr, ty: t, t: NewVar(name, arrSort(SInt, scalarSort(u.Elem()), -1))}
		}
		sn := &Snap{heaps: map[string]*Term{}, addr: NewRoot(), ty: t, n: u.Len()}
		return Val{k: vSnap, ty: t, snap: sn}
	case *types.Signature:
		return Val{k: vFunc, ty: t, clo: &Closure{builtin: "opaque"}}
	}
	panic(unsupported("symVal " + t.String()))
}

func wfSlice(v Val, assume func(*Term)) {
	assume(Ge0(v.off))
	assume(Ge0(v.ln))
	assume(Ge(v.cp, v.ln))
	assume(Implies(Eq(v.t, Null), Eq(v.cp, Zero)))
	assume(Le(Add(v.off, v.cp), KB(pow2(62))))
}

// ---------------------------------------------------------------- state

type State struct {
	heaps map[string]*Term
	facts *Facts
	env   map[ssa.Value]Val
	defers []deferred
	ghost map[string]Val // executor-level ghost variables (iterators' visited sets etc.)
	fr    *Frame
}

type deferred struct {
	clo  Val
	args []Val
	call *ssa.CallCommon
}

func (s *State) clone() *State {
	n := *s
	n.heaps = make(map[string]*Term, len(s.heaps)+4)
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	n.ghost = make(map[string]Val, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	return &n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	s.facts = s.facts.with(t)
}

func (s *State) activate() { ctx = factCtx{s.facts} }

func (s *State) heap(name string, elem *Sort) *Term {
	return getHeap(s.heaps, name, elem)
}

func getHeap(hs map[string]*Term, name string, elem *Sort) *Term {
	if h, ok := hs[name]; ok {
		return h
	}
	return NamedVar("H0:"+name, heapSort(name, elem))
}

func (s *State) setHeap(name string, h *Term) { s.heaps[name] = h }

// ---------------------------------------------------------------- loads

type mem struct {
	hs     map[string]*Term
	assume func(*Term)
}

func (s *State) mem() mem {
	return mem{s.heaps, func(t *Term) { s.assume(t) }}
}

var sliceComps = []string{"sb:", "so:", "sl:", "sc:"}

func (m mem) load(addr *Term, t types.Type) Val {
	if isMathArr(t) {
		return Val{k: vMath, ty: t, t: Select(getHeap(m.hs, "math", bytesSort(-1)), addr)}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			a := Select(getHeap(m.hs, "stra", bytesSort(-1)), addr)
			n := Select(getHeap(m.hs, "strl", SI64), addr)
			if m.assume != nil {
				m.assume(Ge0(n))
			}
			return Val{k: vStr, ty: t, t: strExt(a, n), ln: n}
		}
		return mkScalar(Select(getHeap(m.hs, scalarHeap(t), basicSort(u)), addr), t)
	case *types.Pointer, *types.Map, *types.Chan:
		return mkScalar(Select(getHeap(m.hs, scalarHeap(t), SRef), addr), t)
	case *types.Slice:
		e := tyName(u.Elem())
		v := Val{k: vSlice, ty: t}
		v.t = Select(getHeap(m.hs, "sb:"+e, SRef), addr)
		v.off = Select(getHeap(m.hs, "so:"+e, SI64), addr)
		v.ln = Select(getHeap(m.hs, "sl:"+e, SI64), addr)
		v.cp = Select(getHeap(m.hs, "sc:"+e, SI64), addr)
		if m.assume != nil && !v.ln.bnd {
			wfSlice(v, m.assume)
		}
		return v
	case *types.Interface:
		n := tyName(u)
		return Val{k: vIface, ty: t, tag: Select(getHeap(m.hs, "it:"+n, SInt), addr), t: Select(getHeap(m.hs, "ip:"+n, SRef), addr)}
	case *types.Signature:
		id := Select(getHeap(m.hs, "func", SInt), addr)
		if n, ok := id.int64(); ok {
			if n == 0 {
				return Val{k: vFunc, ty: t}
			}
			return Val{k: vFunc, ty: t, clo: closTab[n]}
		}
		return Val{k: vFunc, ty: t, clo: &Closure{builtin: "opaque"}}
	case *types.Struct:
		v := Val{k: vStruct, ty: t}
		for i := 0; i < u.NumFields(); i++ {
			v.a = append(v.a, m.load(fieldAddr(addr, t, i), u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if isByteType(u.Elem()) {
			return Val{k: vBytes, ty: t, t: Ext(Select(getHeap(m.hs, "B", bytesSort(-1)), addr), Zero, K(u.Len()))}
		}
		if isScalarType(u.Elem()) {
			es := scalarSort(u.Elem())
			return Val{k: vSArr, ty: t, t: Select(getHeap(m.hs, "a:"+scalarHeap(u.Elem()), arrSort(SInt, es, -1)), addr)}
		}
		hs := make(map[string]*Term, len(m.hs))
		for k, v := range m.hs {
			hs[k] = v
		}
		return Val{k: vSnap, ty: t, snap: &Snap{heaps: hs, addr: addr, ty: t, n: u.Len()}}
	}
	panic(unsupported("load " + t.String()))
}

func strExt(a, n *Term) *Term {
	// strings are canonical: zero outside [0,len)
	if a.op == OpSelect || a.op == OpVar {
		return Ext(a, Zero, n)
	}
	return Ext(a, Zero, n)
}

var closTab = map[int64]*Closure{}

func closID(c *Closure) *Term {
	if c == nil {
		return Zero
	}
	if c.id == 0 {
		c.id = len(closTab) + 1
		closTab[int64(c.id)] = c
	}
	return K(int64(c.id))
}

// ---------------------------------------------------------------- stores

func (s *State) put(name string, elem *Sort, addr, v *Term) {
	h := s.heap(name, elem)
	s.setHeap(name, Store(h, addr, v))
}

func (s *State) store(addr *Term, t types.Type, v Val) {
	if addr.op == OpIte {
		// keep precise: conditional store through ite
	}
	if isMathArr(t) {
		s.put("math", bytesSort(-1), addr, v.t)
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s.put("stra", bytesSort(-1), addr, v.t)
			s.put("strl", SI64, addr, v.ln)
			return
		}
		s.put(scalarHeap(t), basicSort(u), addr, v.t)
		return
	case *types.Pointer, *types.Map, *types.Chan:
		if v.k == vEPtr {
			panic(unsupported("escaping pointer to array element"))
		}
		s.put(scalarHeap(t), SRef, addr, v.t)
		return
	case *types.Slice:
		e := tyName(u.Elem())
		s.put("sb:"+e, SRef, addr, v.t)
		s.put("so:"+e, SI64, addr, v.off)
		s.put("sl:"+e, SI64, addr, v.ln)
		s.put("sc:"+e, SI64, addr, v.cp)
		return
	case *types.Interface:
		n := tyName(u)
		s.put("it:"+n, SInt, addr, v.tag)
		s.put("ip:"+n, SRef, addr, v.t)
		return
	case *types.Signature:
		s.put("func", SInt, addr, closID(v.clo))
		return
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			s.store(fieldAddr(addr, t, i), u.Field(i).Type(), v.a[i])
		}
		return
	case *types.Array:
		if isByteType(u.Elem()) {
			s.put("B", bytesSort(-1), addr, v.t)
			return
		}
		if isScalarType(u.Elem()) {
			es := scalarSort(u.Elem())
			s.put("a:"+scalarHeap(u.Elem()), arrSort(SInt, es, -1), addr, v.t)
			return
		}
		s.storeSnap(addr, v.snap)
		return
	}
	panic(unsupported("store " + t.String()))
}

// storeSnap copies an array of composites.
func (s *State) storeSnap(addr *Term, sn *Snap) {
	u := under(sn.ty).(*types.Array)
	names := leafHeaps(u.Elem())
	for _, hn := range names {
		if sn.addr == nil { // zero value
			z := CArr(heapSort(hn.name, hn.elem), zeroOf(hn.elem))
			s.setHeap(hn.name, HMerge(z, s.heap(hn.name, hn.elem), []Region{{Kind: "U", Ref: addr}}))
			continue
		}
		src := getHeap(sn.heaps, hn.name, hn.elem)
		s.setHeap(hn.name, HCopy(s.heap(hn.name, hn.elem), addr, src, sn.addr))
	}
}

type heapInfo struct {
	name string
	elem *Sort
}

var leafMemo = map[types.Type][]heapInfo{}

// leafHeaps lists the heaps that hold values of type t.
func leafHeaps(t types.Type) []heapInfo {
	if r, ok := leafMemo[t]; ok {
		return r
	}
	set := map[string]*Sort{}
	leafHeapsInto(t, set)
	var out []heapInfo
	for n, e := range set {
		out = append(out, heapInfo{n, e})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	leafMemo[t] = out
	return out
}

func leafHeapsInto(t types.Type, set map[string]*Sort) {
	if isMathArr(t) {
		set["math"] = bytesSort(-1)
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			set["stra"] = bytesSort(-1)
			set["strl"] = SI64
			return
		}
		set[scalarHeap(t)] = basicSort(u)
	case *types.Pointer, *types.Map, *types.Chan:
		set[scalarHeap(t)] = SRef
	case *types.Slice:
		e := tyName(u.Elem())
		set["sb:"+e] = SRef
		set["so:"+e] = SI64
		set["sl:"+e] = SI64
		set["sc:"+e] = SI64
	case *types.Interface:
		n := tyName(u)
		set["it:"+n] = SInt
		set["ip:"+n] = SRef
	case *types.Signature:
		set["func"] = SInt
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leafHeapsInto(u.Field(i).Type(), set)
		}
	case *types.Array:
		if isByteType(u.Elem()) {
			set["B"] = bytesSort(-1)
		} else if isScalarType(u.Elem()) {
			set["a:"+scalarHeap(u.Elem())] = arrSort(SInt, scalarSort(u.Elem()), -1)
		} else {
			leafHeapsInto(u.Elem(), set)
		}
	default:
		panic(unsupported("leafHeaps " + t.String()))
	}
}

// zeroInit initialises fresh memory of type t at addr.
func (s *State) zeroInit(addr *Term, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && opaqueStructs[tyName(n)] {
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		if isMathArr(t) {
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			s.zeroInit(fieldAddr(addr, t, i), u.Field(i).Type())
		}
		return
	}
	s.store(addr, t, zeroVal(t))
}

var opaqueStructs = map[string]bool{"sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true}

// newBacking allocates the backing array of a slice with zeroed elements.
func (s *State) newBacking(elem types.Type) *Term {
	r := NewRoot()
	if isByteType(elem) {
		s.put("B", bytesSort(-1), r, emptyBytes)
		return r
	}
	if isScalarType(elem) {
		es := scalarSort(elem)
		as := arrSort(SInt, es, -1)
		s.put("a:"+scalarHeap(elem), as, r, CArr(as, zeroOf(es)))
		return r
	}
	for _, hn := range leafHeaps(elem) {
		z := CArr(heapSort(hn.name, hn.elem), zeroOf(hn.elem))
		s.setHeap(hn.name, HMerge(z, s.heap(hn.name, hn.elem), []Region{{Kind: "U", Ref: r}}))
	}
	return r
}

// element load/store on a slice/array region
func (m mem) loadElem(base, idx *Term, elem types.Type) Val {
	if isByteType(elem) {
		return mkScalar(Select(Select(getHeap(m.hs, "B", bytesSort(-1)), base), idx), elem)
	}
	if isScalarType(elem) {
		es := scalarSort(elem)
		return mkScalar(Select(Select(getHeap(m.hs, "a:"+scalarHeap(elem), arrSort(SInt, es, -1)), base), idx), elem)
	}
	return m.load(elAddr(base, elem, idx), elem)
}

func (s *State) storeElem(base, idx *Term, elem types.Type, v Val) {
	if isByteType(elem) {
		h := s.heap("B", bytesSort(-1))
		s.setHeap("B", Store(h, base, Store(Select(h, base), idx, v.t)))
		return
	}
	if isScalarType(elem) {
		n := "a:" + scalarHeap(elem)
		as := arrSort(SInt, scalarSort(elem), -1)
		h := s.heap(n, as)
		s.setHeap(n, Store(h, base, Store(Select(h, base), idx, v.t)))
		return
	}
	s.store(elAddr(base, elem, idx), elem, v)
}

// bytesOf returns the canonical array of a []byte value.
func (m mem) bytesOf(v Val) *Term {
	return Ext(Select(getHeap(m.hs, "B", bytesSort(-1)), v.t), v.off, v.ln)
}
func (m mem) region(base *Term) *Term { return Select(getHeap(m.hs, "B", bytesSort(-1)), base) }

// copyRange copies n elements between slices (memmove semantics).
func (s *State) copyRange(dBase, dOff *Term, srcHeaps map[string]*Term, sBase, sOff, n *Term, elem types.Type) {
	if n == Zero {
		return
	}
	if isByteType(elem) {
		h := s.heap("B", bytesSort(-1))
		src := Select(getHeap(srcHeaps, "B", bytesSort(-1)), sBase)
		s.setHeap("B", Store(h, dBase, WriteArr(Select(h, dBase), dOff, src, sOff, n)))
		return
	}
	if isScalarType(elem) {
		hn := "a:" + scalarHeap(elem)
		as := arrSort(SInt, scalarSort(elem), -1)
		h := s.heap(hn, as)
		src := Select(getHeap(srcHeaps, hn, as), sBase)
		s.setHeap(hn, Store(h, dBase, WriteArr(Select(h, dBase), dOff, src, sOff, n)))
		return
	}
	if k, ok := n.int64(); ok && k <= 64 {
		var vals []Val
		for i := int64(0); i < k; i++ {
			vals = append(vals, mem{srcHeaps, nil}.load(elAddr(sBase, elem, AddC(sOff, i)), elem))
		}
		for i := int64(0); i < k; i++ {
			s.store(elAddr(dBase, elem, AddC(dOff, i)), elem, vals[i])
		}
		return
	}
	eid := elemID(elem)
	for _, hn := range leafHeaps(elem) {
		src := getHeap(srcHeaps, hn.name, hn.elem)
		s.setHeap(hn.name, HRange(s.heap(hn.name, hn.elem), dBase, dOff, src, sBase, sOff, n, eid))
	}
}

// ---------------------------------------------------------------- maps

func keySort(t types.Type) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return SStr
		}
		return basicSort(u)
	case *types.Pointer, *types.Chan:
		return SRef
	case *types.Array:
		if isByteType(u.Elem()) {
			return bytesSort(u.Len())
		}
	case *types.Interface:
		return SRef
	}
	panic(unsupported("map key " + t.String()))
}

func keyTerm(v Val) *Term {
	switch v.k {
	case vStr:
		return MkStr(v.t, v.ln)
	case vScalar, vBytes, vIface:
		return v.t
	}
	panic(unsupported("map key value"))
}

func keyVal(k *Term, t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if k.op == OpMkStr {
				return Val{k: vStr, ty: t, t: k.args[0], ln: k.args[1]}
			}
			panic(unsupported("string map key variable"))
		}
	case *types.Array:
		return Val{k: vBytes, ty: t, t: k}
	}
	return mkScalar(k, t)
}

func mapPrefix(mt *types.Map) string { return tyName(mt) }

func mapDomSort(mt *types.Map) *Sort { return arrSort(keySort(mt.Key()), SBool, -1) }

// valLeaves flattens a value type to leaf (suffix, sort) pairs.
type leaf struct {
	name string
	sort *Sort
}

func valLeaves(t types.Type) []leaf {
	if isMathArr(t) {
		return []leaf{{"m", bytesSort(-1)}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return []leaf{{"a", bytesSort(-1)}, {"l", SI64}}
		}
		return []leaf{{"", basicSort(u)}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", SRef}}
	case *types.Slice:
		return []leaf{{"b", SRef}, {"o", SI64}, {"l", SI64}, {"c", SI64}}
	case *types.Interface:
		return []leaf{{"t", SInt}, {"p", SRef}}
	case *types.Signature:
		return []leaf{{"", SInt}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range valLeaves(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("%d.%s", i, l.name), l.sort})
			}
		}
		return out
	case *types.Array:
		if isByteType(u.Elem()) {
			return []leaf{{"", bytesSort(u.Len())}}
		}
		if isScalarType(u.Elem()) {
			return []leaf{{"", arrSort(SInt, scalarSort(u.Elem()), -1)}}
		}
	}
	panic(unsupported("map value " + t.String()))
}

// comps flattens a value to leaf terms in the order of valLeaves.
func comps(v Val) []*Term {
	switch v.k {
	case vScalar, vBytes, vSArr, vMath:
		return []*Term{v.t}
	case vStr:
		return []*Term{v.t, v.ln}
	case vSlice:
		return []*Term{v.t, v.off, v.ln, v.cp}
	case vIface:
		return []*Term{v.tag, v.t}
	case vFunc:
		return []*Term{closID(v.clo)}
	case vStruct, vTuple:
		var out []*Term
		for _, x := range v.a {
			out = append(out, comps(x)...)
		}
		return out
	}
	panic(unsupported(fmt.Sprintf("comps of kind %d", v.k)))
}

func fromComps(t types.Type, ts []*Term) (Val, []*Term) {
	if isMathArr(t) {
		return Val{k: vMath, ty: t, t: ts[0]}, ts[1:]
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Val{k: vStr, ty: t, t: ts[0], ln: ts[1]}, ts[2:]
		}
		return mkScalar(ts[0], t), ts[1:]
	case *types.Pointer, *types.Map, *types.Chan:
		return mkScalar(ts[0], t), ts[1:]
	case *types.Slice:
		return Val{k: vSlice, ty: t, t: ts[0], off: ts[1], ln: ts[2], cp: ts[3]}, ts[4:]
	case *types.Interface:
		return Val{k: vIface, ty: t, tag: ts[0], t: ts[1]}, ts[2:]
	case *types.Signature:
		v := Val{k: vFunc, ty: t}
		if n, ok := ts[0].int64(); ok {
			v.clo = closTab[n]
		} else {
			v.clo = &Closure{builtin: "opaque"}
		}
		return v, ts[1:]
	case *types.Struct:
		v := Val{k: vStruct, ty: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = fromComps(u.Field(i).Type(), ts)
			v.a = append(v.a, f)
		}
		return v, ts
	case *types.Tuple:
		v := Val{k: vTuple, ty: t}
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = fromComps(u.At(i).Type(), ts)
			v.a = append(v.a, f)
		}
		return v, ts
	case *types.Array:
		if isByteType(u.Elem()) {
			return Val{k: vBytes, ty: t, t: ts[0]}, ts[1:]
		}
		return Val{k: vSArr, ty: t, t: ts[0]}, ts[1:]
	}
	panic(unsupported("fromComps " + t.String()))
}

func (m mem) mapDom(ref *Term, mt *types.Map) *Term {
	ds := mapDomSort(mt)
	return Select(getHeap(m.hs, "md:"+mapPrefix(mt), ds), ref)
}

func (m mem) mapGet(ref *Term, mt *types.Map, k *Term) (Val, *Term) {
	dom := m.mapDom(ref, mt)
	has := And(Select(dom, k), Not(Eq(ref, Null)))
	var ts []*Term
	for _, l := range valLeaves(mt.Elem()) {
		as := arrSort(keySort(mt.Key()), l.sort, -1)
		t := Select(Select(getHeap(m.hs, "mv:"+mapPrefix(mt)+"#"+l.name, as), ref), k)
		ts = append(ts, t)
	}
	v, _ := fromComps(mt.Elem(), ts)
	v = m.canonStr(v)
	if m.assume != nil && v.k == vSlice && !v.ln.bnd {
		wfSlice(v, m.assume)
	}
	return v, has
}

func (s *State) mapSet(ref *Term, mt *types.Map, k *Term, v Val) {
	p := mapPrefix(mt)
	ds := mapDomSort(mt)
	h := s.heap("md:"+p, ds)
	dom := Select(h, ref)
	s.setHeap("md:"+p, Store(h, ref, Store(dom, k, True)))
	cs := comps(v)
	for i, l := range valLeaves(mt.Elem()) {
		as := arrSort(keySort(mt.Key()), l.sort, -1)
		n := "mv:" + p + "#" + l.name
		vh := s.heap(n, as)
		s.setHeap(n, Store(vh, ref, Store(Select(vh, ref), k, cs[i])))
	}
}

func (s *State) mapDelete(ref *Term, mt *types.Map, k *Term) {
	p := mapPrefix(mt)
	ds := mapDomSort(mt)
	h := s.heap("md:"+p, ds)
	dom := Select(h, ref)
	s.setHeap("md:"+p, Store(h, ref, Store(dom, k, False)))
}

func (s *State) newMap(mt *types.Map) *Term {
	r := NewRoot()
	p := mapPrefix(mt)
	ds := mapDomSort(mt)
	s.put("md:"+p, ds, r, CArr(ds, False))
	return r
}

// card is the number of keys in a map's domain.
func card(st *State, dom *Term) *Term {
	switch dom.op {
	case OpStore:
		n := card(st, dom.args[0])
		old := Select(dom.args[0], dom.args[1])
		return Add(n, Sub(Ite(dom.args[2], One, Zero), Ite(old, One, Zero)))
	case OpCArr:
		if dom.args[0] == False {
			return Zero
		}
	case OpIte:
		return Ite(dom.args[0], card(st, dom.args[1]), card(st, dom.args[2]))
	}
	c := App("card", SI64, dom)
	st.assume(Ge(c, Zero))
	return c
}

func mapHeaps(mt *types.Map) []heapInfo {
	p := mapPrefix(mt)
	out := []heapInfo{{"md:" + p, mapDomSort(mt)}}
	for _, l := range valLeaves(mt.Elem()) {
		out = append(out, heapInfo{"mv:" + p + "#" + l.name, arrSort(keySort(mt.Key()), l.sort, -1)})
	}
	return out
}

// ---------------------------------------------------------------- merging values

func sameVal(a, b Val) bool {
	if a.k != b.k || a.t != b.t || a.off != b.off || a.ln != b.ln || a.cp != b.cp || a.tag != b.tag || a.clo != b.clo || a.iter != b.iter || len(a.a) != len(b.a) {
		return false
	}
	if a.snap != b.snap {
		return false
	}
	for i := range a.a {
		if !sameVal(a.a[i], b.a[i]) {
			return false
		}
	}
	return true
}

// mergeVal builds ite(c, a, b); ok=false when not representable.
func mergeVal(c *Term, a, b Val) (Val, bool) {
	if sameVal(a, b) {
		return a, true
	}
	if a.k != b.k {
		return Val{}, false
	}
	ite := func(x, y *Term) *Term {
		if x == nil || y == nil {
			return x
		}
		return Ite(c, x, y)
	}
	switch a.k {
	case vScalar, vStr, vSlice, vIface, vBytes, vSArr, vMath, vEPtr:
		r := a
		r.t, r.off, r.ln, r.cp, r.tag = ite(a.t, b.t), ite(a.off, b.off), ite(a.ln, b.ln), ite(a.cp, b.cp), ite(a.tag, b.tag)
		return r, true
	case vStruct, vTuple:
		r := a
		r.a = make([]Val, len(a.a))
		for i := range a.a {
			v, ok := mergeVal(c, a.a[i], b.a[i])
			if !ok {
				return Val{}, false
			}
			r.a[i] = v
		}
		return r, true
	case vFunc:
		if a.clo == b.clo {
			return a, true
		}
		return Val{}, false
	}
	return Val{}, false
}

func valStr(v Val) string {
	var ss []string
	add := func(n string, t *Term) {
		if t != nil {
			ss = append(ss, n+"="+t.String())
		}
	}
	add("", v.t)
	add("off", v.off)
	add("len", v.ln)
	add("tag", v.tag)
	for _, x := range v.a {
		ss = append(ss, valStr(x))
	}
	return "{" + strings.Join(ss, " ") + "}"
}

var _ = big.NewInt

// canonStr makes the strings of a map element canonical (zero outside their
// length): whatever is stored in a map came from a canonical string value.
func (m mem) canonStr(v Val) Val {
	switch v.k {
	case vStr:
		v.t = Ext(v.t, Zero, v.ln)
		if m.assume != nil && !v.ln.bnd {
			m.assume(Ge0(v.ln))
		}
	case vStruct:
		a := make([]Val, len(v.a))
		for i := range v.a {
			a[i] = m.canonStr(v.a[i])
		}
		v.a = a
	}
	return v
}
