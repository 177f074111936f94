package main

// C05: tokenizing and inspecting results writes to no memory shared between
// the tokenizers of one dictionary.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "points-to and mod analysis (field- and call-string-sensitive)", checkShared)
}

// tokenizerEntries analyses the tokenization interface: constructors of
// tokenizers on shared memory, then every exported method of what they (and
// those methods in turn) return.
func tokenizerEntries(w *World, p *pta) (entries []*ssa.Function) {
	tok := w.typ("", "JapaneseTokenizer")
	recv := map[*types.Named]pset{}
	seen := map[*ssa.Function]bool{}
	var queue []*types.Named
	take := func(f *ssa.Function, ctx int) {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			rt := f.Signature.Results().At(i).Type()
			pt, ok := rt.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			n := namedOf(pt)
			if n == nil || n.Obj().Pkg() != tok.Obj().Pkg() || !n.Obj().Exported() {
				continue
			}
			if recv[n] == nil {
				recv[n] = pset{}
				queue = append(queue, n)
			}
			for l := range p.rets[pnode{ctx, f, fmt.Sprintf("#%d", i)}] {
				if _, ok := recv[n][l]; !ok {
					recv[n][l] = struct{}{}
					p.changed = true
				}
			}
		}
	}
	enter := func(f *ssa.Function, rcv pset, rest ploc) {
		if !seen[f] {
			seen[f] = true
			entries = append(entries, f)
		}
		p.enter(f, 0)
		for i, prm := range f.Params {
			for _, lf := range p.leaves(prm.Type()) {
				s := one(rest)
				if i == 0 && rcv != nil {
					s = rcv
				}
				p.bind(f, 0, i, lf, s)
			}
		}
	}
	// constructors
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg != tok.Obj().Pkg() || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if namedOf(f.Signature.Results().At(i).Type()) == tok {
				enter(f, nil, ploc{o: sharedObj})
				break
			}
		}
	}
	for {
		p.solve()
		p.changed = false
		for _, f := range entries {
			take(f, 0)
		}
		for len(queue) > 0 {
			n := queue[0]
			queue = queue[1:]
			ms := w.prog.MethodSets.MethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				if !ms.At(i).Obj().Exported() {
					continue
				}
				m := w.prog.MethodValue(ms.At(i))
				if m == nil || !p.analysable(m) {
					continue
				}
				enter(m, recv[n], ploc{o: foreignObj})
			}
		}
		for _, f := range entries {
			if f.Signature.Recv() == nil {
				continue
			}
			if n := namedOf(f.Signature.Recv().Type()); n != nil && recv[n] != nil && len(f.Params) > 0 {
				p.addNode(0, f.Params[0], "", recv[n])
			}
		}
		if !p.changed {
			return
		}
	}
}

func checkShared(w *World, r *Report) {
	r.Explanation = "Entry points: every exported constructor of a tokenizer, on a dictionary, grammar, lexicon and plugins that are one shared object pointing to itself; then every exported method of the objects these return, and of what those methods return. Every function reachable from them (interface calls on shared plugins go to every implementation in the module) is analysed; each write (store, map update, in-place append, copy, delete, send, call of foreign code that may write to its argument) whose target may be shared memory or a package-level variable is a violation."
	p := newPTA(w, 4)
	entries := tokenizerEntries(w, p)
	for _, f := range entries {
		r.count("entry points", 1)
		r.oblige("entry " + w.fname(f))
	}
	r.count("functions", len(p.functions()))
	for f := range p.functions() {
		if !w.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					r.count("stores", 1)
				case *ssa.Call:
					r.count("calls", 1)
				}
			}
		}
	}
	for _, x := range p.sortedWrites() {
		r.oblige(fmt.Sprintf("%s %s %s %s", w.posOf(x.at), w.fname(x.fn), x.what, p.objs[x.loc.o].name+x.loc.path))
		if p.objs[x.loc.o].kind != oShared {
			continue
		}
		r.add(Finding{Key: "shared:" + w.fname(x.fn) + ":" + x.what, Pos: w.posOf(x.at), Rule: "shared-write",
			Msg: fmt.Sprintf("%s %s memory that other tokenizers of the same dictionary share (%s)", w.fname(x.fn), x.what, describeTarget(w, x.at))})
	}
	r.floor("functions", 60)
	r.floor("entry points", 20)
}

func describeTarget(w *World, in ssa.Instruction) string {
	switch in := in.(type) {
	case *ssa.Store:
		return describeAddr(in.Addr)
	case *ssa.MapUpdate:
		return describeAddr(in.Map)
	case ssa.CallInstruction:
		if len(in.Common().Args) > 0 {
			return describeAddr(in.Common().Args[0])
		}
	}
	return "value " + in.String()
}

func describeAddr(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		n := namedOf(v.X.Type())
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		if n != nil {
			return n.Obj().Name() + "." + st.Field(v.Field).Name()
		}
		return "field " + st.Field(v.Field).Name()
	case *ssa.IndexAddr:
		return "element of " + describeAddr(v.X)
	case *ssa.UnOp:
		return describeAddr(v.X)
	case *ssa.Slice:
		return describeAddr(v.X)
	case *ssa.Global:
		return "variable " + v.Name()
	case *ssa.Parameter:
		return "parameter " + v.Name()
	}
	return v.Type().String()
}
