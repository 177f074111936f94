package main

// C19: debug output does not change results.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "noninterference: taint of the debug writer, control-dependence regions, mod analysis of what they do", checkDump)
}

// postdoms computes, for each block, the set of blocks that post-dominate it
// (virtual exit: nil).
func ipdoms(f *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(f.Blocks)
	exit := n
	succ := make([][]int, n+1)
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			succ[b.Index] = append(succ[b.Index], s.Index)
		}
		if len(b.Succs) == 0 {
			succ[b.Index] = append(succ[b.Index], exit)
		}
	}
	full := func() []bool {
		x := make([]bool, n+1)
		for i := range x {
			x[i] = true
		}
		return x
	}
	pd := make([][]bool, n+1)
	for i := 0; i < n; i++ {
		pd[i] = full()
	}
	pd[exit] = make([]bool, n+1)
	pd[exit][exit] = true
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := full()
			for _, s := range succ[i] {
				for j := range nw {
					nw[j] = nw[j] && pd[s][j]
				}
			}
			nw[i] = true
			for j := range nw {
				if nw[j] != pd[i][j] {
					ch = true
				}
			}
			pd[i] = nw
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	cnt := func(i int) int {
		c := 0
		for _, x := range pd[i] {
			if x {
				c++
			}
		}
		return c
	}
	for i := 0; i < n; i++ {
		// the strict post-dominator with the most post-dominators is the nearest
		best, bc := exit, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j] {
				if c := cnt(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best != exit {
			out[f.Blocks[i]] = f.Blocks[best]
		}
	}
	return out
}

// regionOf lists the blocks whose execution depends on the branch at the end
// of b: everything between it and its post-dominator.
func regionOf(b, ipd *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if x == ipd || out[x] {
			return
		}
		out[x] = true
		for _, s := range x.Succs {
			visit(s)
		}
	}
	for _, s := range b.Succs {
		visit(s)
	}
	return out
}

// taintFrom follows values that depend on the loads of one struct field.
type fieldTaint struct {
	w    *World
	vals map[ssa.Value]bool
	cls  map[string]bool
	rets map[*ssa.Function]map[int]bool
	ch   bool
}

func (t *fieldTaint) add(v ssa.Value) {
	if v != nil && !t.vals[v] {
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		t.vals[v] = true
		t.ch = true
	}
}

func (t *fieldTaint) run() {
	for {
		t.ch = false
		for _, f := range t.w.allFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.step(f, in)
				}
			}
		}
		if !t.ch {
			return
		}
	}
}

func (t *fieldTaint) step(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if fa, ok := in.X.(*ssa.FieldAddr); ok && t.cls[fieldClass(fa.X.Type(), fa.Field)] {
				t.add(in)
			}
			if a, ok := in.X.(*ssa.Alloc); ok && t.vals[a] {
				t.add(in)
			}
			if fv, ok := in.X.(*ssa.FreeVar); ok && t.vals[fv] {
				t.add(in)
			}
			return
		}
		if t.vals[in.X] {
			t.add(in)
		}
	case *ssa.BinOp:
		if t.vals[in.X] || t.vals[in.Y] {
			t.add(in)
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			if t.vals[e] {
				t.add(in)
			}
		}
	case *ssa.ChangeInterface:
		if t.vals[in.X] {
			t.add(in)
		}
	case *ssa.MakeInterface:
		if t.vals[in.X] {
			t.add(in)
		}
	case *ssa.TypeAssert:
		if t.vals[in.X] {
			t.add(in)
		}
	case *ssa.Convert:
		if t.vals[in.X] {
			t.add(in)
		}
	case *ssa.Extract:
		if t.vals[in.Tuple] {
			t.add(in)
			return
		}
		if c, ok := in.Tuple.(*ssa.Call); ok {
			for _, g := range t.w.callees(c) {
				if t.rets[g][in.Index] {
					t.add(in)
				}
			}
		}
	case *ssa.Store:
		if t.vals[in.Val] {
			switch a := in.Addr.(type) {
			case *ssa.FieldAddr:
				c := fieldClass(a.X.Type(), a.Field)
				if !t.cls[c] {
					t.cls[c] = true
					t.ch = true
				}
			case *ssa.Alloc:
				t.add(a)
			case *ssa.FreeVar:
				t.add(a)
			}
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if t.vals[b] {
				t.add(g.FreeVars[i])
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			if t.vals[r] && !t.rets[f][i] {
				if t.rets[f] == nil {
					t.rets[f] = map[int]bool{}
				}
				t.rets[f][i] = true
				t.ch = true
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		com := c.Common()
		gs := t.w.callees(c)
		foreign := true
		for _, g := range gs {
			if !t.w.inModule(g) {
				continue
			}
			foreign = false
			off := 0
			if com.IsInvoke() {
				off = 1
			}
			for i, a := range com.Args {
				if t.vals[a] && i+off < len(g.Params) {
					t.add(g.Params[i+off])
				}
			}
			if v, ok := c.(*ssa.Call); ok && t.rets[g][0] && g.Signature.Results().Len() == 1 {
				t.add(v)
			}
		}
		if v, ok := c.(*ssa.Call); ok && foreign {
			dep := com.IsInvoke() && t.vals[com.Value]
			for _, a := range com.Args {
				if t.vals[a] {
					dep = true
				}
			}
			if dep {
				t.add(v)
			}
		}
	}
}

func checkDump(w *World, r *Report) {
	r.Explanation = "Values that depend on JapaneseTokenizer.DumpOutput are followed through comparisons, calls, returns and fields. Every branch on such a value in the code Tokenize runs is a debug region (the blocks up to its post-dominator): it may not return (from a function with used results), choose a value that is used afterwards, or write to memory that existed before the region, directly or in any function it calls; only the debug writer itself is written to. Lattice.Dump and LatticeNode.String are checked to write to nothing that existed before the call."
	tok := w.typ("", "JapaneseTokenizer")
	st := tok.Underlying().(*types.Struct)
	ft := &fieldTaint{w: w, vals: map[ssa.Value]bool{}, cls: map[string]bool{}, rets: map[*ssa.Function]map[int]bool{}}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "DumpOutput" {
			ft.cls[fieldClass(types.NewPointer(tok), i)] = true
		}
	}
	if len(ft.cls) == 0 {
		panic("anchor not found: JapaneseTokenizer.DumpOutput")
	}
	ft.run()
	root := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "Tokenize")

	// the debug regions of the functions Tokenize runs outside debug regions
	region := map[*ssa.Function]map[*ssa.BasicBlock]bool{}
	seen := map[*ssa.Function]bool{}
	queue := []*ssa.Function{root}
	seen[root] = true
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		reg := map[*ssa.BasicBlock]bool{}
		ipd := ipdoms(f)
		for _, b := range f.Blocks {
			iff, ok := lastInstr(b).(*ssa.If)
			if !ok || !ft.vals[iff.Cond] {
				continue
			}
			r.count("debug branches", 1)
			rg := regionOf(b, ipd[b])
			delete(rg, b)
			r.oblige(fmt.Sprintf("%s %s: debug region of %d blocks", w.posOf(iff), w.fname(f), len(rg)))
			for x := range rg {
				reg[x] = true
			}
			if ipd[b] != nil {
				for _, in := range ipd[b].Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					var first ssa.Value
					for i, pr := range ph.Block().Preds {
						if pr != b && !rg[pr] {
							continue
						}
						if first == nil {
							first = ph.Edges[i]
						} else if !sameVal(first, ph.Edges[i]) {
							r.add(Finding{Key: "choice:" + w.fname(f), Pos: w.posOf(iff), Rule: "debug-region", Msg: fmt.Sprintf("in %s the value of %s depends on whether there is debug output", w.fname(f), phiName(ph))})
						}
					}
				}
			}
		}
		region[f] = reg
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if reg[b] {
					if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > 0 && resultsUsed(w, f) {
						r.add(Finding{Key: "return:" + w.fname(f), Pos: w.posOf(in), Rule: "debug-region", Msg: w.fname(f) + " returns at a point reached only depending on the debug output"})
					}
					if _, ok := in.(*ssa.Panic); ok {
						r.add(Finding{Key: "panic:" + w.fname(f), Pos: w.posOf(in), Rule: "debug-region", Msg: w.fname(f) + " panics depending on the debug output"})
					}
					continue
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range w.callees(c) {
					if w.inModule(g) && g.Blocks != nil && !seen[g] {
						seen[g] = true
						queue = append(queue, g)
					}
				}
			}
		}
	}
	r.count("functions of a tokenization", len(seen))
	// a value that depends on the debug output may not be used outside regions
	// except to branch, to be passed on, or to be written through
	for f := range seen {
		for _, b := range f.Blocks {
			if region[f][b] {
				continue
			}
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Return:
					for i, x := range in.Results {
						if ft.vals[x] && f == root {
							r.add(Finding{Key: "result", Pos: w.posOf(in), Rule: "debug-region", Msg: fmt.Sprintf("result %d of %s depends on the debug output", i, w.fname(f))})
						}
					}
				case *ssa.IndexAddr:
					if ft.vals[in.Index] {
						r.add(Finding{Key: "index:" + w.fname(f), Pos: w.posOf(in), Rule: "debug-region", Msg: w.fname(f) + " uses an index that depends on the debug output"})
					}
				}
			}
		}
	}

	// effects of the regions
	p := newPTA(w, 4)
	p.region = region
	p.override = func(v ssa.Value) (pset, bool) {
		if ft.vals[v] {
			return pset{ploc{o: foreignObj}: {}}, true
		}
		return nil, false
	}
	for f := range seen {
		if len(region[f]) > 0 {
			p.enter(f, 0)
		}
	}
	p.solve()
	for _, x := range p.sortedWrites() {
		r.count("writes of debug code", 1)
		if p.objs[x.loc.o].kind == oShared {
			r.add(Finding{Key: "region-write:" + w.fname(x.fn), Pos: w.posOf(x.at), Rule: "debug-region", Msg: fmt.Sprintf("%s, run only for debug output, %s memory that existed before (%s)", w.fname(x.fn), x.what, describeTarget(w, x.at))})
		}
	}
	r.count("functions of debug code", len(p.functions()))

	// dumping and describing
	for _, m := range []*ssa.Function{w.must(w.method("", "Lattice", "Dump"), "Lattice.Dump"), w.must(w.method("", "LatticeNode", "String"), "LatticeNode.String")} {
		q := newPTA(w, 4)
		q.enter(m, 0)
		for i, prm := range m.Params {
			for _, lf := range q.leaves(prm.Type()) {
				o := foreignObj
				if i == 0 {
					o = sharedObj
				}
				q.bind(m, 0, i, lf, one(ploc{o: o}))
			}
		}
		q.solve()
		r.oblige(fmt.Sprintf("%s: %d functions, %d writes", w.fname(m), len(q.functions()), len(q.writes)))
		for _, x := range q.sortedWrites() {
			if q.objs[x.loc.o].kind == oShared {
				r.add(Finding{Key: "describe:" + w.fname(x.fn), Pos: w.posOf(x.at), Rule: "describe", Msg: fmt.Sprintf("%s, called from %s, %s memory that existed before (%s)", w.fname(x.fn), w.fname(m), x.what, describeTarget(w, x.at))})
			}
		}
	}
	r.floor("debug branches", 1)
	r.floor("functions of debug code", 5)
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && types.Identical(x.Type(), y.Type()) && (x.Value == nil && y.Value == nil || x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString())
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// resultsUsed: some caller looks at f's results (or callers are unknown).
func resultsUsed(w *World, f *ssa.Function) bool {
	cs := w.index().args[f]
	if isExportedAPI(f) || len(cs) == 0 {
		return true
	}
	for _, c := range cs {
		if v, ok := c.(*ssa.Call); ok && len(*v.Referrers()) > 0 {
			return true
		}
	}
	return false
}
