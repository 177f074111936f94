package main

// C07: mapped dictionary files are never written to.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "origin tracing of every write to byte storage; class invariants of copy-on-write tables by abstract interpretation; propagation of mapping protections", checkMapped)
}

func numericElem(t types.Type) bool {
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Pointer:
		e = u.Elem()
		if a, ok := e.Underlying().(*types.Array); ok {
			e = a.Elem()
		}
	default:
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// a memOrigin is where a piece of memory comes from.
type memOrigin struct {
	v    ssa.Value
	what string // "" fresh
}

// memOrigins traces a slice or pointer back to where its memory was made;
// with near set, no further than to the struct field it is loaded from.
func (w *World) memOrigins(v ssa.Value, near bool) []memOrigin {
	var out []memOrigin
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	add := func(v ssa.Value, what string) { out = append(out, memOrigin{v, what}) }
	leaf := func(l ssa.Value) {
		if seen[l] {
			return
		}
		seen[l] = true
		switch l := l.(type) {
		case *ssa.Const:
		case *ssa.Slice:
			if _, ok := l.X.Type().Underlying().(*types.Slice); ok {
				visit(l.X)
				return
			}
			visit(l.X)
		case *ssa.Alloc, *ssa.MakeSlice:
			add(l, "")
		case *ssa.IndexAddr:
			visit(l.X)
		case *ssa.FieldAddr:
			add(l, "") // a field of a Go struct
		case *ssa.Global:
			add(l, "")
		case *ssa.Convert:
			if isStringT(l.X.Type()) {
				add(l, "") // []byte(string) copies
				return
			}
			add(l, "a conversion from "+l.X.Type().String())
		case *ssa.UnOp:
			if fa, ok := l.X.(*ssa.FieldAddr); ok && near {
				add(l, "the field "+fieldClass(fa.X.Type(), fa.Field))
				return
			}
			if l.Op == token.MUL {
				if ia, ok := l.X.(*ssa.IndexAddr); ok {
					// an element of a list: any value put into lists of that type
					if !w.listElems(ia.X.Type(), visit) {
						add(l, "an element of a list")
					}
					return
				}
				if cv, ok := l.X.(*ssa.Convert); ok {
					add(l, "memory reinterpreted from "+cv.X.Type().String())
					return
				}
			}
			add(l, "a value loaded from "+l.X.String())
		case *ssa.Call:
			if b, ok := l.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					visit(l.Call.Args[0])
					return
				}
				add(l, "the result of "+b.Name())
				return
			}
			w.foreignOrigin(l, l, add, visit)
		case *ssa.Extract:
			if c, ok := l.Tuple.(*ssa.Call); ok {
				w.foreignOrigin(l, c, add, visit)
				return
			}
			add(l, "an element of a tuple")
		case *ssa.Parameter:
			add(l, "what the caller of "+w.fname(l.Parent())+" hands over")
		default:
			add(l, l.String())
		}
	}
	visit = func(v ssa.Value) {
		tr := &tracer{w: w, openWorld: true, leaf: leaf, seen: map[ssa.Value]bool{}}
		tr.stop = func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.Convert:
				return isStringT(v.X.Type())
			case *ssa.UnOp:
				_, isF := v.X.(*ssa.FieldAddr)
				return near && v.Op == token.MUL && isF
			}
			return false
		}
		tr.visit(v)
	}
	visit(v)
	return out
}

// listElems visits everything that is put into lists of the given type.
func (w *World) listElems(t types.Type, visit func(ssa.Value)) bool {
	any := false
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if ok && types.Identical(elemType(ia.X.Type()), elemType(t)) {
					any = true
					visit(st.Val)
				}
			}
		}
	}
	return any
}

func (w *World) foreignOrigin(l ssa.Value, c *ssa.Call, add func(ssa.Value, string), visit func(ssa.Value)) {
	g := c.Call.StaticCallee()
	if g == nil {
		add(l, "the result of a dynamic call")
		return
	}
	full := g.RelString(nil)
	if g.Name() == "Mmap" && !w.inModule(g) {
		add(l, "memory mapped by "+full)
		return
	}
	if strings.HasPrefix(full, "reflect.") || strings.HasPrefix(full, "unsafe.") {
		add(l, "the result of "+full)
		return
	}
	add(l, "")
	if freshResult(full) || strings.HasPrefix(full, "strings.") || strings.HasPrefix(full, "strconv.Quote") {
		return
	}
	// results may be parts of arguments of the same type
	for _, a := range c.Call.Args {
		if types.Identical(a.Type(), l.Type()) {
			visit(a)
		}
	}
	switch full {
	case "(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).Peek", "(*bufio.Scanner).Bytes", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Next":
		// their own buffers
	}
}

type memWrite struct {
	in   ssa.Instruction
	to   ssa.Value
	what string
}

func memWrites(w *World) []memWrite {
	var ws []memWrite
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.IndexAddr:
						if numericElem(a.X.Type()) {
							ws = append(ws, memWrite{in, a.X, "stores into"})
						}
					case *ssa.FieldAddr:
						if cv, ok := addrBase(a).(*ssa.Convert); ok {
							ws = append(ws, memWrite{in, cv, "stores through"})
						}
					case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					default:
						if numericElem(a.Type()) {
							ws = append(ws, memWrite{in, a, "stores through"})
						}
					}
				case ssa.CallInstruction:
					com := in.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "clear":
							if numericElem(com.Args[0].Type()) {
								ws = append(ws, memWrite{in, com.Args[0], bi.Name() + "s over"})
							}
						case "append":
							if numericElem(com.Args[0].Type()) {
								ws = append(ws, memWrite{in, com.Args[0], "appends in place to"})
							}
						}
						continue
					}
					g := com.StaticCallee()
					if g != nil && w.inModule(g) {
						continue
					}
					full := ""
					args := com.Args
					if g != nil {
						full = g.RelString(nil)
					} else if com.IsInvoke() {
						full = com.Method.FullName()
						if n := len(w.callees(in)); n > 0 && !strings.HasPrefix(full, "(io.") {
							continue
						}
						args = append([]ssa.Value{com.Value}, args...)
					} else {
						continue // a function value of the module
					}
					pure, except := pureForeign(full)
					if full == "encoding/json.Unmarshal" {
						pure, except = true, map[int]bool{1: true}
					}
					if g != nil && (g.Name() == "Munmap" || g.Name() == "Madvise" || g.Name() == "munmap") {
						continue // these change no byte
					}
					if full == "(io.Writer).Write" || full == "(*os.File).Write" || full == "(*bufio.Writer).Write" || full == "(*bytes.Buffer).Write" {
						continue // writers do not modify what they are given
					}
					for i, a := range args {
						if pure && !except[i] {
							continue
						}
						for mi, ok := a.(*ssa.MakeInterface); ok; mi, ok = a.(*ssa.MakeInterface) {
							a = mi.X
						}
						if numericElem(a.Type()) {
							if _, isAlloc := a.(*ssa.Alloc); !isAlloc {
								ws = append(ws, memWrite{in, a, "passes to " + short(full) + ", which may write to it,"})
							}
						}
					}
				}
			}
		}
	}
	return ws
}

func checkMapped(w *World, r *Report) {
	ws := memWrites(w)
	type pair struct {
		t *types.Named
		f string
	}
	cow := map[string][]memWrite{} // by field class
	for _, x := range ws {
		r.count("writes to number storage", 1)
		var bad []string
		for _, o := range w.memOrigins(x.to, true) {
			if o.what == "" {
				continue
			}
			u, ok := o.v.(*ssa.UnOp)
			if !ok || !strings.HasPrefix(o.what, "the field ") {
				bad = append(bad, o.what)
				continue
			}
			mapped := false
			for _, d := range w.memOrigins(o.v, false) {
				if d.what != "" {
					mapped = true
				}
			}
			if !mapped {
				continue
			}
			fa := u.X.(*ssa.FieldAddr)
			cls := fieldClass(fa.X.Type(), fa.Field)
			cow[cls] = append(cow[cls], x)
		}
		sort.Strings(bad)
		if len(bad) > 0 {
			r.add(Finding{Key: "write:" + w.fname(x.in.Parent()), Rule: "write", Pos: w.posOf(x.in), Msg: fmt.Sprintf("%s %s %s, which may be %s", w.fname(x.in.Parent()), x.what, x.to.Name(), strings.Join(bad, " or "))})
		}
	}
	r.floor("writes to number storage", 20)
	for _, cls := range keysOf3(cow) {
		checkCow(w, r, cls, cow[cls])
	}
	r.count("tables copied before the first write", len(cow))
	checkMaps(w, r)
	checkEdits(w, r)
}

// checkMaps: what is mapped is mapped for reading only, from files opened for
// reading only.
func checkMaps(w *World, r *Report) {
	sites := map[ssa.Instruction]bool{}
	within := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || w.inModule(g) || g.Pkg == nil {
					continue
				}
				switch path := g.Pkg.Pkg.Path(); path {
				case "golang.org/x/sys/unix", "syscall":
					switch g.Name() {
					case "Mmap", "MmapPtr":
						sites[in] = true
						within[f] = true
					case "Mprotect", "PkeyMprotect":
						r.add(Finding{Key: "protect:" + w.fname(f), Rule: "map", Pos: w.posOf(in), Msg: w.fname(f) + " changes the protection of mapped memory"})
					case "Syscall", "Syscall6", "RawSyscall", "RawSyscall6":
						n, isC := c.Common().Args[0].(*ssa.Const)
						if !isC || n.Int64() == 9 || n.Int64() == 10 {
							r.add(Finding{Key: "syscall:" + w.fname(f), Rule: "map", Pos: w.posOf(in), Msg: w.fname(f) + " makes a system call that may map memory or change its protection"})
						}
					}
				}
			}
		}
	}
	r.count("calls that map memory", len(sites))
	r.floor("calls that map memory", 1)
	// who decides: callers, as long as the function is not offered to users
	ix := w.index()
	roots, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if len(ix.args[f]) == 0 || isExportedAPI(f) && !strings.Contains(f.Pkg.Pkg.Path()+"/", "/internal/") {
			roots[f] = true
			return
		}
		for _, c := range ix.args[f] {
			climb(c.Parent())
		}
	}
	for f := range within {
		climb(f)
	}
	trans := transitively(w, func(in ssa.Instruction) bool { return sites[in] })
	for _, f := range w.allFns {
		if !roots[f] {
			continue
		}
		f := f
		r.oblige("mapping made by " + w.fname(f))
		k := newAI(w, aclient{})
		k.keep = true
		k.only = w.withLeaves(trans)
		once := map[string]bool{}
		bad := func(s *astate, key, at, msg string) {
			if !once[key+at] {
				once[key+at] = true
				r.add(Finding{Key: key + ":" + w.fname(f), Rule: "map", Pos: at, Msg: w.fname(f) + ": " + msg, Path: k.trail(s)})
			}
		}
		n := 0
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if !sites[c] {
				return nil, false, true
			}
			n++
			at := w.posOf(c)
			for i, site := 0, s.top(); i < 1 && len(s.stack) > 1; i++ {
				at = w.posOf(site.call)
			}
			if len(args) < 5 {
				bad(s, "args", at, "maps memory in a way that is not understood")
				return nil, false, true
			}
			prot := args[len(args)-2]
			if p, ok := prot.intVal(); !ok {
				bad(s, "prot", at, "the protection of the mapping is "+prot.String())
			} else if p&2 != 0 {
				bad(s, "writable", at, "asks for a mapping that can be written to")
			}
			fd := args[0]
			for fd.op == "conv" || fd.op == "cast" {
				fd = fd.args[0]
			}
			okFile := false
			if fd.op == "res" && strings.HasPrefix(fd.s, "(*os.File).Fd") && len(fd.args) == 1 {
				if x := fd.args[0]; x.op == "sym" && strings.HasPrefix(x.s, "p:") {
					okFile = true // the caller's own file
				} else if x.op == "res" && x.c0 == 0 {
					switch {
					case strings.HasPrefix(x.s, "os.Open@"):
						okFile = true
					case strings.HasPrefix(x.s, "os.OpenFile@"):
						if fl, ok := x.args[1].intVal(); ok {
							if fl&(3|0x40|0x200|0x400) == 0 {
								okFile = true
							} else {
								bad(s, "openflags", at, "maps a file that was opened for writing")
								okFile = true
							}
						}
					}
				}
			}
			if !okFile {
				bad(s, "file", at, "maps a file that is not known to have been opened for reading only")
			}
			return nil, false, true
		}
		k.run(f, nil)
		if k.gaveUp {
			bad(nil, "steps", w.pos(f.Pos()), "has more paths than are followed")
		}
		r.count("mapping requests analysed", n)
	}
	r.floor("mapping requests analysed", 1)
}

// a tableCell is a number in a table: where, and how it is stored.
type tableCell struct {
	base, off *T
	kind      string
	signed    bool
}

type cellWrite struct {
	base, off *T
	bits      []vbit
	val       *T
	at        string
}

type bufCopy struct {
	dst, doff, src, soff, n *T
}

type editState struct {
	ws  []cellWrite
	cps []bufCopy
	cf  *T // last result of the cost function
}

func checkEdits(w *World, r *Report) {
	dict := "dictionary"
	edits := []struct {
		t              string
		set, get, dump string
		others         []string
	}{
		{"Grammar", "SetConnectCost", "GetConnectCost", "WriteConnMatrixTo", nil},
		{"DoubleArrayLexicon", "CalculateCost", "GetCost", "WriteWordParamsTo", []string{"GetLeftId", "GetRightId"}},
	}
	for _, e := range edits {
		set := w.must(w.method(dict, e.t, e.set), e.t+"."+e.set)
		get := w.must(w.method(dict, e.t, e.get), e.t+"."+e.get)
		dump := w.must(w.method(dict, e.t, e.dump), e.t+"."+e.dump)
		r.oblige(e.t + ": " + e.get + " and " + e.dump + " after " + e.set)
		seen := map[string]bool{}
		k := newAI(w, aclient{})
		k.keep = true
		bad := func(s *astate, key, at, msg string) {
			if seen[key+at] {
				return
			}
			seen[key+at] = true
			var tr []string
			if s != nil {
				tr = k.trail(s)
			}
			r.add(Finding{Key: key + ":" + e.t, Rule: "edit", Pos: at, Msg: msg, Path: tr})
		}
		// a getter from a state: the cell it reads
		read := func(s *astate, tag string, f *ssa.Function, args []*T) (cells []tableCell, ok bool) {
			ok = true
			old := k.model
			k.resume(s, tag, f, args, aclient{exit: func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
				if kind != aReturn {
					return
				}
				b, o, kd, sg, okk := k.bytesRead(s, res[0])
				if !okk {
					ok = false
					return
				}
				b2, o2 := k.baseOff(b)
				cells = append(cells, tableCell{b2, k.add(o, o2), kd, sg})
			}})
			k.model = old
			return cells, ok && len(cells) > 0
		}
		// what the dump writes from a state
		type extent struct{ base, lo, n *T }
		dumped := func(s *astate, tag string, recv *T) (xs []extent, ok bool) {
			ok = true
			wr := k.sym("out", dump.Params[1].Type())
			k.resume(s, tag, dump, []*T{recv, wr}, aclient{call: func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
				if com := c.Common(); com.IsInvoke() && com.Method.Name() == "Write" && len(args) == 2 {
					b, lo := k.baseOff(args[1])
					xs = append(xs, extent{b, lo, k.lenOf(s, args[1])})
				}
				return nil, false, true
			}})
			return xs, ok && len(xs) > 0
		}
		var entry *astate
		var recv *T
		judge := func(s *astate, at string) {
			d := s.data.(*editState)
			var ids []*T
			if len(set.Params) == 4 {
				ids = []*T{s.stack[0].env[set.Params[1]], s.stack[0].env[set.Params[2]]}
			} else {
				ids = []*T{k.sym("word", types.Typ[types.Int32])}
			}
			before, ok0 := read(entry, "before", get, append([]*T{recv}, ids...))
			after, ok1 := read(s, "after", get, append([]*T{recv}, ids...))
			if !ok0 || !ok1 || len(before) != 1 || len(after) != 1 {
				bad(s, "read", w.pos(get.Pos()), fmt.Sprintf("%s.%s does not give a number read from a table", e.t, e.get))
				return
			}
			b, a := before[0], after[0]
			if b.kind != a.kind || b.kind != "le2" {
				bad(s, "kind", w.pos(get.Pos()), fmt.Sprintf("%s.%s reads its number as %s", e.t, e.get, a.kind))
				return
			}
			if len(d.ws) == 0 {
				return
			}
			x := d.ws[len(d.ws)-1]
			for _, o := range d.ws[:len(d.ws)-1] {
				// byte by byte
				n := k.num(int64(len(o.bits) / 8))
				m := k.num(int64(len(x.bits) / 8))
				switch {
				case o.base != x.base:
					bad(s, "twice", o.at, fmt.Sprintf("%s.%s writes to two places", e.t, e.set))
					return
				case k.equal(s, k.add(o.off, n), x.off) == 1:
					x.bits = append(append([]vbit(nil), o.bits...), x.bits...)
					x.off = o.off
				case k.equal(s, k.add(x.off, m), o.off) == 1:
					x.bits = append(append([]vbit(nil), x.bits...), o.bits...)
				case k.equal(s, o.off, x.off) == 1 && len(o.bits) == len(x.bits):
				default:
					bad(s, "twice", o.at, fmt.Sprintf("%s.%s writes to two places", e.t, e.set))
					return
				}
			}
			if len(x.bits) != 16 {
				bad(s, "width", x.at, fmt.Sprintf("%s.%s writes a number of %d bytes where %s reads 2", e.t, e.set, len(x.bits)/8, e.get))
				return
			}
			if a.base != x.base {
				bad(s, "base", x.at, fmt.Sprintf("%s.%s writes to a table that %s does not read afterwards", e.t, e.set, e.get))
				return
			}
			// the word or pair of ids it is about
			if len(ids) == 1 {
				// off = stride*word + rest
				p, q := k.poly(a.off), k.poly(x.off)
				stride := p.m[ids[0]]
				rest := k.poly(k.sub(k.ofPoly(p, types.Typ[types.Int]), k.mul(k.num(stride), ids[0], types.Typ[types.Int])))
				diff := q.add(rest, -1)
				okd := stride != 0 && diff.c0%max64(stride, 1) == 0
				for _, c := range diff.m {
					if stride == 0 || c%stride != 0 {
						okd = false
					}
				}
				if !okd {
					bad(s, "cell", x.at, fmt.Sprintf("%s.%s writes at %s, where %s would read at %s", e.t, e.set, x.off, e.get, a.off))
					return
				}
				for _, o := range e.others {
					g := w.must(w.method(dict, e.t, o), e.t+"."+o)
					oc, ok := read(s, "other"+o, g, append([]*T{recv}, ids...))
					if !ok || len(oc) != 1 {
						bad(s, "read:"+o, w.pos(g.Pos()), fmt.Sprintf("%s.%s does not give a number read from a table", e.t, o))
						continue
					}
					dd, okc := k.sub(oc[0].off, a.off).intVal()
					if !okc || oc[0].base != a.base || ((dd%stride)+stride)%stride < 2 || ((dd%stride)+stride)%stride > stride-2 {
						bad(s, "overlap:"+o, x.at, fmt.Sprintf("the cell %s.%s writes overlaps what %s reads", e.t, e.set, o))
					}
				}
			} else if k.equal(s, a.off, x.off) != 1 {
				bad(s, "cell", x.at, fmt.Sprintf("%s.%s writes at %s, but %s reads the same ids at %s", e.t, e.set, x.off, e.get, a.off))
				return
			}
			// the rest of the table is where it was
			shift := k.num(0)
			if a.base != b.base {
				if a.base.op != "mkslice" && !freshAppend(a.base) {
					bad(s, "table", x.at, fmt.Sprintf("after %s.%s, %s reads a table that is neither the old one nor a new copy of it", e.t, e.set, e.get))
					return
				}
				var cp *bufCopy
				n := 0
				if a.base.op == "appendn" {
					src, so := k.baseOff(a.base.args[1])
					d.cps = append(d.cps, bufCopy{a.base, k.lenOf(s, a.base.args[0]), src, so, k.lenOf(s, a.base.args[1])})
				}
				for i, c := range d.cps {
					if c.dst == a.base {
						cp = &d.cps[i]
						n++
					}
				}
				if n != 1 {
					bad(s, "nocopy", x.at, fmt.Sprintf("the table %s.%s makes is not one copy of the old one", e.t, e.set))
					return
				}
				if cp.src != b.base {
					bad(s, "copysrc", x.at, fmt.Sprintf("the table %s.%s makes is a copy of something else than what %s read", e.t, e.set, e.get))
					return
				}
				shift = k.sub(cp.soff, cp.doff)
				xs0, okx0 := dumped(entry, "dump0", recv)
				xs1, okx1 := dumped(s, "dump1", recv)
				if !okx0 || !okx1 {
					bad(s, "dump", w.pos(dump.Pos()), fmt.Sprintf("%s.%s does not write the table", e.t, e.dump))
					return
				}
				for _, y := range xs0 {
					if y.base != b.base || k.equal(s, y.lo, cp.soff) != 1 || k.equal(s, y.n, cp.n) != 1 {
						bad(s, "extent", x.at, fmt.Sprintf("%s.%s copies the table from %s, %s bytes, but the table is at %s, %s bytes", e.t, e.set, cp.soff, cp.n, y.lo, y.n))
						return
					}
					if l := k.lenOf(s, cp.dst); k.equal(s, l, k.add(cp.doff, cp.n)) != 1 {
						bad(s, "extent2", x.at, fmt.Sprintf("%s.%s copies the table of %s bytes into %s bytes", e.t, e.set, y.n, l))
						return
					}
				}
				for _, y := range xs1 {
					if y.base != a.base || k.equal(s, k.add(y.lo, shift), cp.soff) != 1 || k.equal(s, y.n, cp.n) != 1 {
						bad(s, "dumped", w.pos(dump.Pos()), fmt.Sprintf("after %s.%s, %s.%s writes %s bytes from %s of another table than the one edited", e.t, e.set, e.t, e.dump, y.n, y.lo))
						return
					}
				}
			} else {
				xs1, okx1 := dumped(s, "dump2", recv)
				if !okx1 {
					bad(s, "dump", w.pos(dump.Pos()), fmt.Sprintf("%s.%s does not write the table", e.t, e.dump))
					return
				}
				for _, y := range xs1 {
					if y.base != a.base {
						bad(s, "dumped", w.pos(dump.Pos()), fmt.Sprintf("after %s.%s, %s.%s writes another table than the one edited", e.t, e.set, e.t, e.dump))
						return
					}
				}
			}
			if k.equal(s, k.add(a.off, shift), b.off) != 1 {
				bad(s, "moved", x.at, fmt.Sprintf("after %s.%s, %s reads the cell that was at %s at %s of a copy that starts at %s", e.t, e.set, e.get, b.off, a.off, shift))
				return
			}
			// the value
			var want *T
			if len(set.Params) == 4 {
				want = s.stack[0].env[set.Params[3]]
			} else {
				want = d.cf
			}
			same := want != nil
			if same {
				for i, b := range k.bits(s, want) {
					if i < 16 && b != x.bits[i] {
						same = false
					}
				}
			}
			if !same {
				bad(s, "value", x.at, fmt.Sprintf("%s.%s stores %s, not the cost it is given", e.t, e.set, x.val))
			}
		}
		k.cl.clone = func(d any) any {
			e := d.(*editState)
			n := *e
			n.ws = append([]cellWrite(nil), e.ws...)
			n.cps = append([]bufCopy(nil), e.cps...)
			return &n
		}
		k.cl.key = func(d any) string {
			e := d.(*editState)
			x := ""
			for _, c := range e.ws {
				x += fmt.Sprint(c.base.id, ",", c.off.id, ",", c.val.id, ";")
			}
			for _, c := range e.cps {
				x += fmt.Sprint(c.dst.id, ",", c.src.id, ";")
			}
			if e.cf != nil {
				x += fmt.Sprint(e.cf.id)
			}
			return x
		}
		k.model = k.byteModel(byteHooks{
			put: func(s *astate, base, off *T, kind string, val *T, in ssa.Instruction) {
				d := s.data.(*editState)
				n := kindSize(kind)
				v := k.bits(s, val)
				var bs []vbit
				for j := 0; j < n; j++ {
					i := j
					if kind[0] == 'b' {
						i = n - 1 - j
					}
					bs = append(bs, v[8*i:8*i+8]...)
				}
				d.ws = append(d.ws, cellWrite{base, off, bs, val, w.posOf(in)})
			},
			cp: func(s *astate, dst, doff, src, soff, n *T, in ssa.Instruction) {
				d := s.data.(*editState)
				d.cps = append(d.cps, bufCopy{dst, doff, src, soff, n})
			},
		})
		writes := 0
		k.cl.store = func(k *ai, s *astate, addr, val *T, in ssa.Instruction) {
			if addr.op == "idx" && (addr.s == "byte" || addr.s == "uint8") {
				d := s.data.(*editState)
				v := k.bits(s, val)
				base, o := k.baseOff(addr.args[0])
				d.ws = append(d.ws, cellWrite{base, k.add(addr.args[1], o), append([]vbit(nil), v[:8]...), val, w.posOf(in)})
			}
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if _, isB := c.Common().Value.(*ssa.Builtin); !isB && callee == nil && len(set.Params) == 2 && !c.Common().IsInvoke() {
				res := k.opaque(s, s.top(), c, callee, args)
				s.data.(*editState).cf = res[0]
				return res, true, false
			}
			return nil, false, true
		}
		k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
			if kind != aReturn {
				return
			}
			d := s.data.(*editState)
			writes += len(d.ws)
			if len(set.Params) == 4 && len(d.ws) == 0 {
				bad(s, "lost", w.posOf(at), fmt.Sprintf("%s.%s may return without storing the cost", e.t, e.set))
				return
			}
			judge(s, w.posOf(at))
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			writes += len(s.data.(*editState).ws)
			judge(s, w.posOf(h.Instrs[0]))
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if len(s.stack) == 1 {
				entry = s.clone(k) // every round starts from here
			}
		}
		k.run(set, func(s *astate) {
			s.data = &editState{}
			recv = s.top().env[set.Params[0]]
			entry = s.clone(k)
		})
		if k.gaveUp {
			bad(nil, "steps", w.pos(set.Pos()), "more paths than are followed")
		}
		if writes == 0 {
			bad(nil, "nowrite", w.pos(set.Pos()), fmt.Sprintf("%s.%s stores nothing", e.t, e.set))
		}
		r.count("edits compared with later reads", writes)
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// climb gives the functions from which f is entered: exported ones, and ones
// nothing in the module calls.
func (w *World) entries(fs map[*ssa.Function]bool) []*ssa.Function {
	ix := w.index()
	roots, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	var climb func(f *ssa.Function)
	climb = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if isExportedAPI(f) || len(ix.args[f]) == 0 {
			roots[f] = true
			return
		}
		for _, c := range ix.args[f] {
			climb(c.Parent())
		}
	}
	for f := range fs {
		climb(f)
	}
	var out []*ssa.Function
	for _, f := range w.allFns {
		if roots[f] {
			out = append(out, f)
		}
	}
	return out
}

// checkCow: T.F may hold mapped bytes, and something writes to it: it must be
// known to be a private copy by then.
func checkCow(w *World, r *Report, cls string, ws []memWrite) {
	tn, fn := cls[:strings.LastIndex(cls, ".")], cls[strings.LastIndex(cls, ".")+1:]
	var named *types.Named
	for _, p := range w.spkg {
		for _, n := range p.Pkg.Scope().Names() {
			if tp, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName); ok {
				if nt, ok := tp.Type().(*types.Named); ok && types.TypeString(nt, nil) == tn {
					named = nt
				}
			}
		}
	}
	r.oblige("writes to " + cls)
	if named == nil {
		r.add(Finding{Key: "type:" + cls, Rule: "write", Pos: w.posOf(ws[0].in), Msg: "a write to mapped bytes held by " + cls})
		return
	}
	st := named.Underlying().(*types.Struct)
	fi := -1
	var flags []int
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fn {
			fi = i
		}
		if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			flags = append(flags, i)
		}
	}
	if len(flags) == 0 {
		r.add(Finding{Key: "noflag:" + cls, Rule: "write", Pos: w.posOf(ws[0].in), Msg: fmt.Sprintf("%s %s %s, which holds mapped bytes, and nothing in the struct tells a private copy from the mapped file", w.fname(ws[0].in.Parent()), ws[0].what, cls)})
		return
	}
	var best []Finding
	for n, g := range flags {
		for _, pol := range []bool{true, false} {
			fs := cowInvariant(w, r, named, fi, g, pol, ws)
			if n == 0 && pol || len(fs) < len(best) {
				best = fs
			}
		}
	}
	for _, f := range best {
		r.add(f)
	}
}

func cowInvariant(w *World, r *Report, named *types.Named, fi, gi int, pol bool, ws []memWrite) []Finding {
	st := named.Underlying().(*types.Struct)
	cF, cG := types.TypeString(named, nil)+"."+st.Field(fi).Name(), types.TypeString(named, nil)+"."+st.Field(gi).Name()
	short := func(c string) string { return c[strings.LastIndex(c, "/")+1:] }
	tF := st.Field(fi).Type()
	flagged := map[ssa.Instruction]memWrite{}
	touched := map[*ssa.Function]bool{}
	for _, x := range ws {
		flagged[x.in] = x
		touched[x.in.Parent()] = true
	}
	for _, c := range []string{cF, cG} {
		for _, s := range w.index().fst[c] {
			touched[s.Parent()] = true
		}
	}
	trans := transitively(w, func(in ssa.Instruction) bool { return touched[in.Parent()] })
	var out []Finding
	seen := map[string]bool{}
	done := map[ssa.Instruction]bool{}
	for _, f := range w.entries(touched) {
		who := w.fname(f)
		k := newAI(w, aclient{})
		k.keep = true
		k.only = w.withLeaves(trans)
		k.model = k.byteModel(byteHooks{})
		bad := func(s *astate, key, at, msg string) {
			if seen[key+at] {
				return
			}
			seen[key+at] = true
			out = append(out, Finding{Key: key + ":" + who, Rule: "private", Pos: at, Msg: who + ": " + msg, Path: k.trail(s)})
		}
		set := func(s *astate, t *T) int { // is the flag at address t set (1), clear (-1)?
			v := k.truth(s, t)
			if !pol {
				v = -v
			}
			return v
		}
		private := func(s *astate, o, f *T) bool {
			b, _ := k.baseOff(f)
			if b.op == "mkslice" || b.op == "nil" || freshAppend(b) {
				return true
			}
			if b.op == "load" && b.args[0] == k.fld(o, named, fi) {
				ga := k.fld(o, named, gi)
				if set(s, k.mk(&T{op: "load", s: b.s, typ: types.Typ[types.Bool], args: []*T{ga}})) == 1 {
					return true
				}
			}
			return false
		}
		objs := func(s *astate) []*T {
			m := map[*T]bool{}
			for a := range s.mem {
				if a.op == "fld" && (a.s == cF || a.s == cG) {
					m[a.args[0]] = true
				}
			}
			var os []*T
			for o := range m {
				os = append(os, o)
			}
			sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
			return os
		}
		check := func(s *astate, at string) {
			for _, o := range objs(s) {
				f := k.load(s, k.fld(o, named, fi), tF)
				g := k.load(s, k.fld(o, named, gi), types.Typ[types.Bool])
				if set(s, g) == -1 || private(s, o, f) {
					continue
				}
				if f.op == "load" && f.args[0] == k.fld(o, named, fi) && g.op == "load" && g.args[0] == k.fld(o, named, gi) {
					continue
				}
				bad(s, "flag:"+short(cG), at, fmt.Sprintf("%s may say that %s is a private copy when it is not", short(cG), short(cF)))
			}
			// the private copy belongs to this object alone
			for a, v := range s.mem {
				b, _ := k.baseOff(v)
				if b.op != "mkslice" && !freshAppend(b) || a.op == "fld" && a.s == cF {
					continue
				}
				if isAllocT(root(a)) && !s.esc[root(a)] {
					continue
				}
				for _, o := range objs(s) {
					if fb, _ := k.baseOff(k.load(s, k.fld(o, named, fi), tF)); fb == b {
						bad(s, "shared:"+short(cF), at, fmt.Sprintf("the private copy kept in %s is also kept in %s, so that an edit shows there", short(cF), a.String()))
					}
				}
			}
		}
		k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
			switch in.(type) {
			case *ssa.Jump, *ssa.If:
				for _, t := range in.Block().Succs {
					if l := k.loop(t); l != nil && !l[in.Block()] {
						check(s, w.posOf(in))
					}
				}
			}
			x, ok := flagged[in]
			if !ok {
				return
			}
			done[in] = true
			v := k.val(s, s.top(), x.to)
			b, _ := k.baseOff(v)
			if b.op == "mkslice" || b.op == "nil" || freshAppend(b) {
				return
			}
			if b.op == "load" && b.args[0].op == "fld" && b.args[0].s == cF && private(s, b.args[0].args[0], b) {
				return
			}
			bad(s, "write:"+short(cF), w.posOf(in), fmt.Sprintf("%s %s, which may still be the mapped file", x.what, short(cF)))
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if _, isB := c.Common().Value.(*ssa.Builtin); !isB && callee == nil {
				check(s, w.posOf(c))
			}
			return nil, false, true
		}
		k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
			if kind == aReturn {
				check(s, w.posOf(at))
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) { check(s, w.posOf(h.Instrs[0])) }
		k.run(f, nil)
		r.count("functions that write or replace copied tables", 1)
		if k.gaveUp {
			bad(nil, "steps", w.pos(f.Pos()), "has more paths than are followed")
		}
	}
	for _, x := range ws {
		if !done[x.in] {
			out = append(out, Finding{Key: "unreached:" + w.fname(x.in.Parent()), Rule: "private", Pos: w.posOf(x.in), Msg: w.fname(x.in.Parent()) + " " + x.what + " " + short(cF) + " on a path that was not analysed"})
		}
	}
	return out
}

func keysOf3(m map[string][]memWrite) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// freshAppend: the result of appending to nothing, which is a new slice.
func freshAppend(b *T) bool {
	if b.op != "appendn" && b.op != "append1" {
		return false
	}
	x := b.args[0]
	if x.op == "slice" {
		// []byte{}: a slice of a new array of no elements
		if hi, ok := x.args[2].intVal(); ok && hi == 0 {
			return true
		}
		if p, ok := x.args[0].typ.(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
	}
	return x.op == "nil" || x.op == "mkslice" || freshAppend(x)
}

// withLeaves adds small functions without loops that call nothing of the
// module.
func (w *World) withLeaves(fs map[*ssa.Function]bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for f := range fs {
		m[f] = true
	}
	for _, f := range w.allFns {
		if len(f.Blocks) == 0 || len(f.Blocks) > 12 {
			continue
		}
		ok := true
		for _, b := range f.Blocks {
			if len(loopBlocks(b)) > 0 {
				ok = false
			}
			for _, in := range b.Instrs {
				if c, isC := in.(ssa.CallInstruction); isC {
					for _, g := range w.callees(c) {
						if w.inModule(g) {
							ok = false
						}
					}
				}
			}
		}
		if ok {
			m[f] = true
		}
	}
	return m
}
