package main

// Lists that only the functions handling them can see: their contents are
// changed by the stores found there and by nothing else.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type privSet struct {
	id      int
	ok      bool
	stores  map[ssa.Instruction]bool
	storers map[*ssa.Function]bool // functions that may store into the lists
}

var privMemo = map[*World]map[ssa.Value]*privSet{}

// privateResult: result i of the call is a list that is nil or made by the
// callee, and that is not kept anywhere else.
func (w *World) privateResult(c *ssa.Call, i int) *privSet {
	if privMemo[w] == nil {
		privMemo[w] = map[ssa.Value]*privSet{}
	}
	var start ssa.Value = c
	if c.Call.Signature().Results().Len() > 1 {
		start = nil
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == i {
				start = e
			}
		}
	}
	if start == nil {
		return nil
	}
	if p, ok := privMemo[w][start]; ok {
		return p
	}
	p := &privSet{id: len(privMemo[w]) + 1, stores: map[ssa.Instruction]bool{}}
	privMemo[w][start] = p
	p.ok = p.close(w, start)
	if p.ok {
		p.storers = transitively(w, func(in ssa.Instruction) bool { return p.stores[in] })
	}
	return p
}

func (p *privSet) close(w *World, start ssa.Value) bool {
	ix := w.index()
	in := map[ssa.Value]bool{}
	var work []ssa.Value
	ok := true
	add := func(v ssa.Value) {
		if c, isC := v.(*ssa.Const); isC && c.IsNil() {
			return
		}
		if !in[v] {
			in[v] = true
			work = append(work, v)
		}
	}
	fail := func() { ok = false }
	results := func(c *ssa.Call, i int) {
		g := c.Call.StaticCallee()
		if g == nil || !w.inModule(g) || len(g.Blocks) == 0 || isExportedAPI(g) {
			fail()
			return
		}
		for _, b := range g.Blocks {
			if rt, isR := lastInstr(b).(*ssa.Return); isR && i < len(rt.Results) {
				add(rt.Results[i])
			}
		}
	}
	add(start)
	for len(work) > 0 && ok {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if len(in) > 200 {
			return false
		}
		// where it comes from
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		case *ssa.Slice:
			if _, isS := x.X.Type().Underlying().(*types.Slice); isS {
				add(x.X)
			} else if al, isA := x.X.(*ssa.Alloc); isA {
				for _, r := range *al.Referrers() {
					switch r := r.(type) {
					case *ssa.IndexAddr:
						p.addr(r, fail)
					case *ssa.Slice, *ssa.DebugRef:
					default:
						fail()
					}
				}
			} else {
				fail()
			}
		case *ssa.MakeSlice:
		case *ssa.Extract:
			c, isC := x.Tuple.(*ssa.Call)
			if !isC {
				fail()
				break
			}
			results(c, x.Index)
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB {
				if b.Name() != "append" {
					fail()
					break
				}
				p.stores[x] = true
				add(x.Call.Args[0])
				break
			}
			results(x, 0)
		case *ssa.Parameter:
			f := x.Parent()
			if isExportedAPI(f) || len(ix.args[f]) == 0 {
				fail()
				break
			}
			for i, q := range f.Params {
				if q != x {
					continue
				}
				for _, c := range ix.args[f] {
					if c.Common().IsInvoke() || i >= len(c.Common().Args) {
						fail()
						continue
					}
					add(c.Common().Args[i])
				}
			}
		default:
			fail()
		}
		// where it goes
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				add(r)
			case *ssa.Slice:
				add(r)
			case *ssa.IndexAddr:
				p.addr(r, fail)
			case *ssa.Extract, *ssa.DebugRef, *ssa.Range:
			case *ssa.BinOp: // compared with nil
			case *ssa.Return:
				f := r.Parent()
				if isExportedAPI(f) {
					fail()
					break
				}
				for i, x := range r.Results {
					if x != v {
						continue
					}
					for _, c := range ix.args[f] {
						cc, isC := c.(*ssa.Call)
						if !isC {
							continue
						}
						if len(r.Results) == 1 {
							add(cc)
							continue
						}
						for _, e := range *cc.Referrers() {
							if ex, isE := e.(*ssa.Extract); isE && ex.Index == i {
								add(ex)
							}
						}
					}
				}
			case *ssa.Call:
				com := r.Common()
				if b, isB := com.Value.(*ssa.Builtin); isB {
					switch b.Name() {
					case "len", "cap":
					case "append":
						if com.Args[0] == v {
							add(r)
						}
					case "copy":
						if com.Args[0] == v {
							p.stores[r] = true
						}
					default:
						fail()
					}
					break
				}
				g := com.StaticCallee()
				if g == nil {
					fail()
					break
				}
				if !w.inModule(g) {
					if _, reads := foreignPure(g); !reads {
						fail()
					}
					break
				}
				for i, a := range com.Args {
					if a == v && i < len(g.Params) {
						add(g.Params[i])
					}
				}
			default:
				fail()
			}
		}
	}
	return ok
}

func (p *privSet) addr(ia *ssa.IndexAddr, fail func()) {
	for _, r := range *ia.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				fail()
			}
		case *ssa.Store:
			if r.Addr != ia {
				fail()
			}
			p.stores[r] = true
		case *ssa.DebugRef:
		default:
			fail()
		}
	}
}

// privRoot: the root of an address is a private list.
func (k *ai) privRoot(r *T) *privSet {
	if r.op != "res" || r.in == nil || r.typ == nil {
		return nil
	}
	if _, isS := r.typ.Underlying().(*types.Slice); !isS {
		return nil
	}
	c, ok := r.in.(*ssa.Call)
	if !ok {
		return nil
	}
	g := c.Call.StaticCallee()
	if g == nil || !k.w.inModule(g) {
		return nil
	}
	p := k.w.privateResult(c, int(r.c0))
	if p == nil || !p.ok {
		return nil
	}
	return p
}

// own: nobody else can change the object.
func (k *ai) own(s *astate, r *T) bool {
	return isAllocT(r) && !s.esc[r] || k.privRoot(r) != nil
}

// touchPrivate: g may store into private lists.
func (k *ai) touchPrivate(s *astate, f *aframe, touched func(p *privSet) bool) {
	for _, p := range privMemo[k.w] {
		if p.ok && touched(p) {
			key := privKey(p)
			s.ver[key] = f.here()
			for a := range s.mem {
				if q := k.privRoot(root(a)); q == p {
					delete(s.mem, a)
				}
			}
		}
	}
}

func privKey(p *privSet) string {
	return "#private" + string(rune('a'+p.id%26)) + string(rune('a'+p.id/26))
}

// readers: the function only looks at memory; the classes of what it reads.
func (w *World) readerClasses(f *ssa.Function, depth int, add func(string)) bool {
	if len(f.Blocks) == 0 || !w.inModule(f) || depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.Alloc, *ssa.Lookup, *ssa.Next, *ssa.Select:
				return false
			case *ssa.UnOp:
				if in.Op == token.MUL {
					storeClasses(in.X, add)
				}
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "len" && bi.Name() != "cap" {
						return false
					}
					continue
				}
				g := in.Call.StaticCallee()
				if g == nil || !w.readerClasses(g, depth+1, add) {
					return false
				}
			}
		}
	}
	return true
}
