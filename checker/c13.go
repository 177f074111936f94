package main

// C13: no more dictionaries than word ids can tell apart.

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "abstract interpretation (interval facts on the number of loaded lexicons, induction over loads) of every function that adds one", checkDictionaryLimit)
}

const maxDictionaries = 16

func checkDictionaryLimit(w *World, r *Report) {
	set := w.typ("dictionary", "LexiconSet")
	cls := w.rel("dictionary") + ".LexiconSet.lexicons"
	// the field holding the lexicons, by its type
	{
		st := set.Underlying().(*types.Struct)
		name := ""
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				if p, ok := sl.Elem().(*types.Pointer); ok && types.Identical(p.Elem(), w.typ("dictionary", "DoubleArrayLexicon")) {
					name = st.Field(i).Name()
				}
			}
		}
		if name == "" {
			panic("no list of lexicons in dictionary.LexiconSet")
		}
		cls = w.rel("dictionary") + ".LexiconSet." + name
	}
	isStore := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && fieldClass(fa.X.Type(), fa.Field) == cls
	}
	grow := transitively(w, isStore)
	stores := map[ssa.Instruction]bool{}
	small := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if grow[f] {
			small[f] = true
		}
		if f.Pkg != nil && w.inModule(f) && len(w.reachable([]*ssa.Function{f})) <= 8 {
			small[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isStore(in) {
					stores[in] = false
					r.oblige("store to the list of lexicons at " + w.posOf(in))
				}
				// the address of the field used otherwise: cannot be followed
				if fa, ok := in.(*ssa.FieldAddr); ok && fieldClass(fa.X.Type(), fa.Field) == cls {
					for _, u := range *fa.Referrers() {
						switch u := u.(type) {
						case *ssa.Store:
							if u.Addr == ssa.Value(fa) {
								continue
							}
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						}
						r.add(Finding{Key: "address:" + w.fname(f), Rule: "dictionary limit", Pos: w.posOf(u), Msg: "the address of the list of lexicons is passed on"})
					}
				}
			}
		}
	}
	r.Counts["stores to the list of lexicons"] = len(stores)
	r.floor("stores to the list of lexicons", 2)

	type st struct {
		grown   int
		effects string
		lens    []*T
		loop    listLoop
		inLoop  bool
	}
	load := w.must(w.method("", "JapaneseDictionary", "ReadUserDictionary"), "JapaneseDictionary.ReadUserDictionary")
	build := w.must(w.pkgFunc("", "NewJapaneseDictionary"), "NewJapaneseDictionary")
	roots := []*ssa.Function{}
	for _, f := range w.allFns {
		if !grow[f] || f.Synthetic != "" || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		if f.Pkg == nil || !(f.Pkg.Pkg.Path() == w.modpath && isExportedAPI(f) || f.Name() == "main" && f.Pkg.Pkg.Name() == "main") {
			continue
		}
		roots = append(roots, f)
	}
	ran := map[*ssa.Function]bool{}
	userDicts := func(k *ai, s *astate) *T {
		for _, p := range build.Params {
			if pt, ok := p.Type().(*types.Pointer); ok {
				if cs, ok := pt.Elem().Underlying().(*types.Struct); ok {
					for i := 0; i < cs.NumFields(); i++ {
						if cs.Field(i).Name() == "UserDict" {
							return k.load(s, k.fld(k.val(s, s.stack[0], p), pt.Elem(), i), cs.Field(i).Type())
						}
					}
				}
			}
		}
		panic("NewJapaneseDictionary has no list of user dictionaries")
	}
	need := map[*ssa.Function]bool{load: true, build: true}
	for _, f := range roots {
		delete(need, f)
	}
	for f := range need {
		r.add(Finding{Key: "never:" + w.fname(f), Rule: "dictionary limit", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " adds no dictionary"})
	}
	for _, f := range append(append([]*ssa.Function{}, roots...), build) {
		f := f
		// the second time: any number of configured dictionaries
		every := f == build && ran[build]
		ran[f] = true
		r.oblige("loads through " + w.fname(f))
		r.count("functions that load dictionaries", 1)
		bad := func(key, at, msg string, p []string) {
			r.add(Finding{Key: key + ":" + w.fname(f), Rule: "dictionary limit", Pos: at, Msg: w.fname(f) + " " + msg, Path: p})
		}
		k := newAI(w, aclient{})
		k.keep = true
		k.only = small
		k.cl.clone = func(d any) any { n := *d.(*st); n.lens = append([]*T(nil), n.lens...); return &n }
		k.cl.key = func(d any) string { return fmt.Sprint(*d.(*st)) }
		k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
			if a.op != "fld" || class(a) != cls || s.mem[a] != nil {
				return nil
			}
			d := s.data.(*st)
			t := k.load(s, a, a.typ.(*types.Pointer).Elem())
			n := k.lenOf(s, t)
			k.bound(s, n, ival{lo: 1, hi: maxDictionaries})
			for _, x := range d.lens {
				if x == n {
					return t
				}
			}
			d.lens = append(d.lens, n)
			return t
		}
		full := func(k *ai, s *astate) bool {
			for _, n := range s.data.(*st).lens {
				if k.rangeOf(s, n).lo >= maxDictionaries {
					return true
				}
			}
			return false
		}
		k.cl.store = func(k *ai, s *astate, addr, val *T, in ssa.Instruction) {
			d := s.data.(*st)
			if addr.op == "fld" && class(addr) == cls {
				stores[in] = true
				n := k.lenOf(s, val)
				if k.rangeOf(s, n).hi > maxDictionaries {
					bad("grow", w.posOf(in), fmt.Sprintf("can make a set of more than %d dictionaries", maxDictionaries), k.trail(s))
				}
				d.grown++
			}
			if isOld(root(addr)) && d.effects == "" {
				d.effects = w.posOf(in)
			}
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*st)
			if callee != nil && w.inModule(callee) && !small[callee] && d.effects == "" && len(k.storedClasses(callee)) > 0 {
				for _, a := range args {
					if a.typ != nil && isOld(root(a)) {
						switch a.typ.Underlying().(type) {
						case *types.Pointer, *types.Map, *types.Slice:
							d.effects = w.posOf(c)
						}
					}
				}
			}
			return nil, false, true
		}
		growLoop := func(h *ssa.BasicBlock) bool {
			for b := range k.loop(h) {
				for _, in := range b.Instrs {
					if isStore(in) {
						return true
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, g := range w.callees(c) {
							if grow[g] {
								return true
							}
						}
					}
				}
			}
			return false
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if growLoop(h) {
				d := s.data.(*st)
				d.grown = 0
				if l, ok := k.listLoopOf(s, h, isStringT); ok {
					d.loop, d.inLoop = l, true
				}
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if !growLoop(h) {
				return
			}
			r.count("rounds of load loops", 1)
			d := s.data.(*st)
			if d.inLoop && d.loop.h == h && !k.stepsByOne(s, d.loop) {
				bad("skips", w.pos(h.Instrs[0].Pos()), "does not go on with the next user dictionary", k.trail(s))
			}
			if d.grown != 1 {
				bad("skips", w.pos(h.Instrs[0].Pos()), fmt.Sprintf("can go on to the next dictionary having added %d for this one", d.grown), k.trail(s))
			}
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || len(res) == 0 {
				return
			}
			d := s.data.(*st)
			err := res[len(res)-1]
			r.count("ends of load paths", 1)
			if k.nonNil(s, err) == -1 {
				if f == load && d.grown != 1 {
					bad("silent", w.posOf(at), fmt.Sprintf("can report success having added %d dictionaries", d.grown), k.trail(s))
				}
				if f == build && !d.inLoop && !k.gone(s, nil, userDicts(k, s)) || d.inLoop && f == build && !k.gone(s, &d.loop, userDicts(k, s)) {
					bad("rest", w.posOf(at), "can report success without having loaded every configured user dictionary", k.trail(s))
				}
				return
			}
			// an error: because there are too many dictionaries, or because
			// something failed
			failed := k.nonNil(s, err) == 0
			for t, v := range s.facts {
				if t.op == "eq" && !v {
					for i := 0; i < 2; i++ {
						x := t.args[i]
						if t.args[1-i].op == "nil" && x.typ != nil && types.Identical(x.typ, errorType) && x.op != "freshErr" {
							failed = true
						}
					}
				}
			}
			if failed || every {
				return
			}
			if !full(k, s) {
				bad("refuses", w.posOf(at), fmt.Sprintf("can fail although nothing it called failed and there are fewer than %d dictionaries", maxDictionaries), k.trail(s))
				return
			}
			if f == load && d.effects != "" {
				bad("effect", w.posOf(at), "can refuse a dictionary for being one too many after having changed something at "+d.effects, k.trail(s))
			}
		}
		k.run(f, func(s *astate) {
			s.data = &st{}
			// a configuration with up to 15 user dictionaries and something
			// to provide unknown words
			for _, p := range f.Params {
				if sl, ok := p.Type().Underlying().(*types.Slice); ok && f == build {
					if n, ok := sl.Elem().(*types.Named); ok && n.Obj().Name() == "OovProviderPlugin" {
						k.bound(s, k.lenOf(s, k.val(s, s.top(), p)), ival{lo: 1, hi: math.MaxInt64})
					}
				}
			}
			if f == build && !every {
				k.bound(s, k.lenOf(s, userDicts(k, s)), ival{lo: 0, hi: maxDictionaries - 1})
			}
		})
		if k.gaveUp {
			bad("gaveup", w.pos(f.Pos()), "could not be followed to its ends", nil)
		}
	}
	for in, ok := range stores {
		if !ok {
			// not reached from the tokenizer's own loading: a plain constructor
			// or unused code; judge it where it stands
			stt := in.(*ssa.Store)
			f := stt.Parent()
			k := newAI(w, aclient{})
			k.cl.store = func(k *ai, s *astate, addr, val *T, in2 ssa.Instruction) {
				if in2 == in && k.rangeOf(s, k.lenOf(s, val)).hi > maxDictionaries {
					r.add(Finding{Key: "grow:" + w.fname(f), Rule: "dictionary limit", Pos: w.posOf(in), Msg: fmt.Sprintf("%s can make a set of more than %d dictionaries", w.fname(f), maxDictionaries), Path: k.trail(s)})
				}
			}
			k.run(f, nil)
		}
	}
	r.floor("functions that load dictionaries", 2)
	r.floor("ends of load paths", 6)
}
