package main

// The file system as the code under contract uses it: an *os.File is a handle
// whose ghost state (declared in the prelude as vcFile) is the file's bytes,
// its length and the handle's position. Trusted: disks do not fail once a file
// is open (errors are io.EOF for short reads); files opened with O_CREATE are
// new; two handles never share a file.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func vcFileType(fr *Frame) types.Type {
	for f := fr; f != nil; f = f.parent {
		if f.fn.Pkg != nil {
			if t, ok := f.fn.Pkg.Members["vcFile"].(*ssa.Type); ok {
				return t.Type()
			}
		}
	}
	panic(unsupported("file operation outside a package under contract"))
}

type fileSt struct {
	st *State
	f  *Term
	t  types.Type
}

func (f fileSt) data() *Term { return Select(f.st.heap("math", bytesSort(-1)), fieldAddr(f.f, f.t, 0)) }
func (f fileSt) size() *Term { return f.st.mem().load(fieldAddr(f.f, f.t, 1), types.Typ[types.Int]).t }
func (f fileSt) pos() *Term  { return f.st.mem().load(fieldAddr(f.f, f.t, 2), types.Typ[types.Int]).t }
func (f fileSt) setData(v *Term) {
	f.st.put("math", bytesSort(-1), fieldAddr(f.f, f.t, 0), v)
}
func (f fileSt) setSize(v *Term) {
	f.st.store(fieldAddr(f.f, f.t, 1), types.Typ[types.Int], mkInt(v))
}
func (f fileSt) setPos(v *Term) {
	f.st.store(fieldAddr(f.f, f.t, 2), types.Typ[types.Int], mkInt(v))
}

func (x *Exec) openedFile(st *State, fr *Frame, v Val, pos token.Pos) fileSt {
	x.oblige(st, fr, "nil", "file", pos, Not(Eq(v.t, Null)))
	f := fileSt{st, v.t, vcFileType(fr)}
	st.assume(Ge0(f.size()))
	st.assume(Ge0(f.pos()))
	x.note("files: an open handle reads and writes its file without I/O errors, no two handles share a file (os.File model)")
	return f
}

func (x *Exec) eofError(st *State, fr *Frame) Val {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "io" {
			g := p.Var("EOF")
			return st.mem().load(x.val(st, fr, g).t, errType)
		}
	}
	panic(unsupported("io.EOF"))
}

func init() {
	tuple := func(vs ...Val) Val { return Val{k: vTuple, a: vs} }
	models["(*os.File).Write"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		f, b := x.openedFile(st, fr, args[0], pos), args[1]
		p, n := f.pos(), f.size()
		end := Add(p, b.ln)
		f.setData(WriteArr(f.data(), p, st.mem().region(b.t), b.off, b.ln))
		f.setSize(Ite(Ge(end, n), end, n))
		f.setPos(end)
		return one(st, tuple(mkInt(b.ln), nilError()))
	}
	models["(*os.File).Seek"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		f := x.openedFile(st, fr, args[0], pos)
		w, ok := args[2].t.int64()
		if !ok {
			panic(unsupported("Seek whence"))
		}
		p := args[1].t
		switch w {
		case 1:
			p = Add(p, f.pos())
		case 2:
			p = Add(p, f.size())
		}
		x.oblige(st, fr, "seek", "non-negative position", pos, Ge0(p))
		f.setPos(p)
		return one(st, tuple(mkScalar(p, types.Typ[types.Int64]), nilError()))
	}
	models["(*os.File).ReadAt"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		f, b, off := x.openedFile(st, fr, args[0], pos), args[1], args[2].t
		x.oblige(st, fr, "readat", "non-negative offset", pos, Ge0(off))
		n := f.size()
		full := Le(Add(off, b.ln), n)
		part := Ite(Ge(n, off), Sub(n, off), Zero)
		cnt := Ite(full, b.ln, part)
		h := st.heap("B", bytesSort(-1))
		st.setHeap("B", Store(h, b.t, WriteArr(Select(h, b.t), b.off, f.data(), off, cnt)))
		eof := x.eofError(st, fr)
		e := Val{k: vIface, ty: errType, tag: Ite(full, Zero, eof.tag), t: Ite(full, Null, eof.t)}
		return one(st, tuple(mkInt(cnt), e))
	}
	models["(*os.File).Truncate"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		f, size := x.openedFile(st, fr, args[0], pos), args[1].t
		x.oblige(st, fr, "truncate", "within the file", pos, And(Ge0(size), Le(size, f.size())))
		f.setSize(size)
		return one(st, nilError())
	}
	ok := func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		x.openedFile(st, fr, args[0], pos)
		return one(st, nilError())
	}
	models["(*os.File).Sync"] = ok
	models["(*os.File).Close"] = ok
	models["os.Remove"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		x.note("os.Remove succeeds and does not affect open handles")
		return one(st, nilError())
	}
	models["os.OpenFile"] = func(x *Exec, st *State, fr *Frame, args []Val, pos token.Pos) []callOut {
		flags, isC := args[1].t.int64()
		if !isC {
			panic(unsupported("OpenFile flags"))
		}
		r := NewRoot()
		t := vcFileType(fr)
		f := fileSt{st, r, t}
		f.setPos(Zero)
		if flags&0x40 != 0 { // O_CREATE: a new file
			x.note("files opened with O_CREATE do not exist before and opening succeeds")
			f.setData(emptyBytes)
			f.setSize(Zero)
		} else {
			panic(unsupported("OpenFile of an existing file"))
		}
		_ = ssa.NaiveForm
		return one(st, tuple(mkScalar(r, types.Typ[types.UnsafePointer]), nilError()))
	}
	intrinsics["vcFileOf"] = func(x *Exec, st *State, fr *Frame, fn *ssa.Function, c *ssa.CallCommon, args []Val, pos token.Pos) []callOut {
		return one(st, mkScalar(args[0].t, types.NewPointer(vcFileType(fr))))
	}
}
