package main

// C21: every configured plugin is set up and applied, in order.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "abstract interpretation (typestate of every plugin loop, decided for an arbitrary iteration; order of set-up, tokenization, lattice and splitting on every path)", checkPluginsApplied)
}

type plKind struct{ iface, method, key string }

var plKinds = []plKind{
	{"InputTextPlugin", "SetUp", "setup-input"},
	{"OovProviderPlugin", "SetUp", "setup-oov"},
	{"PathRewritePlugin", "SetUp", "setup-path"},
	{"EditConnectionCostPlugin", "SetUp", "setup-edit"},
	{"EditConnectionCostPlugin", "Edit", "edit"},
	{"InputTextPlugin", "Rewrite", "rewrite-input"},
	{"PathRewritePlugin", "Rewrite", "rewrite-path"},
	{"OovProviderPlugin", "ProvideOOV", "oov"},
}

type plState struct {
	loops [8]listLoop
	in    [8]bool
	count [8]int
	done  [8]bool // was exhausted when it had to be
	built *T
	dirty string
	curP  map[*T]bool
	best  *T
	wrote bool
}

func checkPluginsApplied(w *World, r *Report) {
	kindOf := func(c ssa.CallInstruction) int {
		cm := c.Common()
		if !cm.IsInvoke() {
			return -1
		}
		n, ok := cm.Value.Type().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != w.modpath {
			return -1
		}
		for i, k := range plKinds {
			if n.Obj().Name() == k.iface && cm.Method.Name() == k.method {
				return i
			}
		}
		return -1
	}
	reach := [8]map[*ssa.Function]bool{}
	for i := range plKinds {
		i := i
		reach[i] = transitively(w, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && kindOf(c) == i
		})
	}
	calls := func(f *ssa.Function) map[*ssa.Function]bool {
		return transitively(w, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && c.Common().StaticCallee() == f
		})
	}
	tok := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	build := w.must(w.method("", "InputTextBuilder", "Build"), "InputTextBuilder.Build")
	best := w.must(w.method("", "Lattice", "GetBestPath"), "Lattice.GetBestPath")
	lookup := w.must(w.method("dictionary", "LexiconSet", "Lookup"), "LexiconSet.Lookup")
	newDict := w.must(w.pkgFunc("", "NewJapaneseDictionary"), "NewJapaneseDictionary")
	tokenizes := calls(tok)
	tokenizes[tok] = true
	builds, bests, lookups := calls(build), calls(best), calls(lookup)
	returnsList := func(f *ssa.Function) bool {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if namedOf(rs.At(i).Type()) != nil && namedOf(rs.At(i).Type()).Obj().Name() == "MorphemeList" {
				return true
			}
		}
		return false
	}

	type plRun struct {
		name  string
		f     *ssa.Function
		kinds []int
		only  func(g *ssa.Function) bool
		list  func(k *ai, s *astate, kind int) *T // the list plugins of this kind are to be taken from
		call  func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) []*T
		exit  func(k *ai, s *astate, at string, res []*T)
		init  func(k *ai, s *astate)
	}
	run := func(p plRun) {
		watched := map[int]bool{}
		for _, i := range p.kinds {
			watched[i] = true
		}
		reported := map[string]bool{}
		bad := func(k *ai, s *astate, key, at, msg string) {
			if reported[key+at] {
				return
			}
			reported[key+at] = true
			r.add(Finding{Key: key + ":" + w.fname(p.f), Rule: "plugins", Pos: at, Msg: msg, Path: k.trail(s)})
		}
		k := newAI(w, aclient{})
		k.keep = true
		k.only = map[*ssa.Function]bool{}
		for _, f := range w.allFns {
			if p.only(f) && f != p.f {
				k.only[f] = true
			}
		}
		k.cl.clone = func(d any) any {
			n := *d.(*plState)
			n.curP = map[*T]bool{}
			for a := range d.(*plState).curP {
				n.curP[a] = true
			}
			return &n
		}
		k.cl.key = func(d any) string {
			x := d.(*plState)
			s := fmt.Sprint(x.loops, x.in, x.count, x.done, x.built, x.dirty, x.best, x.wrote, len(x.curP))
			for a := range x.curP {
				s += fmt.Sprint("+", a.id)
			}
			if len(x.curP) > 1 {
				s = fmt.Sprint(x.loops, x.in, x.count, x.done, x.built, x.dirty, x.best, x.wrote, keysOf2(x.curP))
			}
			return s
		}
		rounds := map[int]int{}
		calledIn := map[int]int{}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*plState)
			for i := range plKinds {
				if !watched[i] {
					continue
				}
				uses := false
				for b := range k.loop(h) {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							if kindOf(c) == i || c.Common().StaticCallee() != nil && reach[i][c.Common().StaticCallee()] {
								uses = true
							}
						}
					}
				}
				if !uses {
					continue
				}
				l, ok := k.listLoopOf(s, h, func(t types.Type) bool {
					n, ok := t.(*types.Named)
					return ok && n.Obj().Name() == plKinds[i].iface
				})
				if ok {
					d.loops[i], d.in[i], d.count[i] = l, true, 0
				} else if i == 7 {
					d.in[i] = false
				}
			}
		}
		gone := func(k *ai, s *astate, i int) bool {
			d := s.data.(*plState)
			list := p.list(k, s, i)
			if list == nil {
				return false
			}
			if d.in[i] {
				return k.gone(s, &d.loops[i], list)
			}
			return k.gone(s, nil, list)
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*plState)
			for i := range plKinds {
				if !watched[i] {
					continue
				}
				if !d.in[i] || d.loops[i].h != h {
					// an outer loop: the unknown-word providers of a position
					if i == 7 && d.in[7] && k.loop(h)[d.loops[7].h] {
						if !gone(k, s, 7) {
							bad(k, s, "skips:"+plKinds[i].key, w.pos(h.Parent().Pos()), "the unknown-word providers of a character may not all have been asked")
						}
					}
					continue
				}
				rounds[i]++
				r.count("rounds of plugin loops", 1)
				list := p.list(k, s, i)
				if d.count[i] == 0 && list != nil && k.nonNil(s, k.elemAt(s, list, k.index(d.loops[i]))) == -1 {
					continue
				}
				if d.count[i] != 1 {
					bad(k, s, "skips:"+plKinds[i].key, w.pos(h.Parent().Pos()), fmt.Sprintf("%s of an %s can be called %d times before the next plugin's turn", plKinds[i].method, plKinds[i].iface, d.count[i]))
				}
				if !k.stepsByOne(s, d.loops[i]) {
					bad(k, s, "order:"+plKinds[i].key, w.pos(h.Parent().Pos()), fmt.Sprintf("the loop calling %s does not go on with the next %s", plKinds[i].method, plKinds[i].iface))
				}
			}
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*plState)
			if i := kindOf(c); i >= 0 {
				if !watched[i] {
					return nil, false, false
				}
				recv := k.val(s, s.top(), c.Common().Value)
				list := p.list(k, s, i)
				ok := false
				if d.in[i] && list != nil && recv.op == "load" && recv.args[0].op == "idx" {
					a := recv.args[0]
					ok = a.args[0] == list && k.equal(s, a.args[1], k.index(d.loops[i])) == 1
				}
				if ok {
					d.count[i]++
					calledIn[i]++
					r.count("plugin calls on paths", 1)
				} else if i != 7 {
					bad(k, s, "other:"+plKinds[i].key, w.posOf(c), fmt.Sprintf("%s is called on %s, which is not known to be the %s whose turn it is", plKinds[i].method, recv, plKinds[i].iface))
				}
				if p.call != nil {
					p.call(k, s, c, callee, args)
				}
				return nil, false, false
			}
			if p.call != nil {
				if res := p.call(k, s, c, callee, args); res != nil {
					return res, true, false
				}
			}
			return nil, false, true
		}
		if p.name == "tokenize" {
			k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
				d := s.data.(*plState)
				if d.best == nil {
					return
				}
				switch {
				case v == d.best && !d.wrote, v.op == "load" && d.curP[v.args[0]] && k.load(s, v.args[0], v.typ) == v:
					d.curP[a] = true
				case d.curP[a] && !gone(k, s, 6):
					d.dirty = w.posOf(in)
				}
			}
		}
		ends := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || len(res) > 0 && isErrorType(res[len(res)-1].typOr()) && k.nonNil(s, res[len(res)-1]) == 1 {
				return
			}
			if k.nonNil(s, res[len(res)-1]) == 1 {
				return
			}
			ends++
			r.count("successful ends", 1)
			for _, i := range p.kinds {
				if i == 7 {
					continue
				}
				if !gone(k, s, i) {
					bad(k, s, "missed:"+plKinds[i].key, w.posOf(at), fmt.Sprintf("%s can succeed without having called %s of every %s", w.fname(p.f), plKinds[i].method, plKinds[i].iface))
				}
			}
			if p.exit != nil {
				p.exit(k, s, w.posOf(at), res)
			}
		}
		plGone = gone
		plBad = bad
		k.run(p.f, func(s *astate) {
			s.data = &plState{curP: map[*T]bool{}}
			if p.init != nil {
				p.init(k, s)
			}
		})
		for _, i := range p.kinds {
			r.oblige(fmt.Sprintf("%s.%s in %s", plKinds[i].iface, plKinds[i].method, w.fname(p.f)))
			if calledIn[i] == 0 || rounds[i] == 0 {
				r.add(Finding{Key: "never:" + plKinds[i].key, Rule: "plugins", Pos: w.pos(p.f.Pos()), Msg: fmt.Sprintf("no loop of %s that calls %s of each %s was recognised", w.fname(p.f), plKinds[i].method, plKinds[i].iface)})
			}
		}
		if k.gaveUp || ends == 0 {
			r.add(Finding{Key: "gaveup:" + w.fname(p.f), Rule: "plugins", Pos: w.pos(p.f.Pos()), Msg: w.fname(p.f) + " could not be followed to its ends"})
		}
	}

	// loading
	listParam := map[int]*ssa.Parameter{}
	for _, p := range newDict.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if n, ok := sl.Elem().(*types.Named); ok {
				for i, k := range plKinds {
					if k.iface == n.Obj().Name() {
						listParam[i] = p
					}
				}
			}
		}
	}
	run(plRun{
		name: "load", f: newDict, kinds: []int{0, 1, 2, 3, 4},
		only: func(g *ssa.Function) bool {
			return reach[0][g] || reach[1][g] || reach[2][g] || reach[3][g] || reach[4][g]
		},
		list: func(k *ai, s *astate, kind int) *T {
			if listParam[kind] == nil {
				return nil
			}
			return s.stack[0].env[listParam[kind]]
		},
		call: func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) []*T {
			d := s.data.(*plState)
			if kindOf(c) == 4 && d.count[3] != 1 && !plGone(k, s, 3) {
				plBad(k, s, "edit", w.posOf(c), "a connection cost plugin can be asked to edit before it was set up")
			}
			if callee != nil && tokenizes[callee] && !k.only[callee] {
				r.count("tokenizations while loading", 1)
				for i := 0; i < 5; i++ {
					if !plGone(k, s, i) {
						plBad(k, s, "early:"+plKinds[i].key, w.posOf(c), fmt.Sprintf("text can be tokenized before %s of every %s was called", plKinds[i].method, plKinds[i].iface))
					}
				}
			}
			return nil
		},
		exit: func(k *ai, s *astate, at string, res []*T) {
			// the dictionary keeps the lists it was given
			for _, i := range []int{0, 1, 2} {
				f := w.fieldWithElem(res[0].typOr(), plKinds[i].iface)
				if f < 0 {
					plBad(k, s, "keeps:"+plKinds[i].key, at, "the dictionary does not keep the list of "+plKinds[i].iface+"s")
					continue
				}
				bt := res[0].typ.Underlying().(*types.Pointer).Elem()
				ft := bt.Underlying().(*types.Struct).Field(f).Type()
				if k.load(s, k.fld(res[0], bt, f), ft) != s.stack[0].env[listParam[i]] {
					plBad(k, s, "keeps:"+plKinds[i].key, at, "the dictionary keeps another list of "+plKinds[i].iface+"s than the one it was given")
				}
			}
		},
		init: func(k *ai, s *astate) {
			for _, p := range listParam {
				k.val(s, s.top(), p)
			}
		},
	})
	r.floor("tokenizations while loading", 1)

	// tokenizing
	ttype := w.typ("", "JapaneseTokenizer")
	listOf := func(k *ai, s *astate, kind int) *T {
		f := w.fieldWithElem(types.NewPointer(ttype), plKinds[kind].iface)
		if f < 0 {
			return nil
		}
		ft := ttype.Underlying().(*types.Struct).Field(f).Type()
		recv := s.stack[0].env[tok.Params[0]]
		return k.load(s, k.fld(recv, ttype, f), ft)
	}
	mentions := func(t, x *T) bool {
		hit := false
		walkT(t, func(y *T) bool {
			if y == x {
				hit = true
			}
			return !hit
		})
		return hit
	}
	initTok := func(k *ai, s *astate) {
		k.val(s, s.top(), tok.Params[0])
		for _, p := range tok.Params {
			k.val(s, s.top(), p)
		}
		// the text is the last string
		text := s.top().env[tok.Params[len(tok.Params)-1]]
		k.bound(s, k.lenOf(s, text), ival{lo: 1, hi: 1 << 40})
	}
	rewritten, used := map[*T]bool{}, map[*T]string{}
	run(plRun{
		name: "tokenize", f: tok, kinds: []int{5, 6},
		only: func(g *ssa.Function) bool {
			return reach[5][g] || reach[6][g] || g != build && builds[g] || g != best && bests[g] || returnsList(g)
		},
		list: listOf,
		init: initTok,
		call: func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) []*T {
			d := s.data.(*plState)
			at := w.posOf(c)
			switch i := kindOf(c); {
			case i == 5:
				rewritten[lastArg(args)] = true
			case i == 6:
				ok := false
				in := false
				for _, a := range args {
					if d.curP[a] {
						ok = true
					}
					if d.built != nil && a == d.built {
						in = true
					}
				}
				if !ok || d.dirty != "" {
					plBad(k, s, "path", at, "a path rewrite plugin is not given the best path as the plugins before it left it")
				}
				if !in {
					plBad(k, s, "input", at, "a path rewrite plugin is not given the rewritten input text")
				}
				d.wrote = true
			case callee == build:
				if !plGone(k, s, 5) {
					return nil
				}
				r.count("inputs built", 1)
				if used[args[0]] == "" {
					used[args[0]] = at
				}
				res := k.opaque(s, s.top(), c, callee, args)
				d.built = res[0]
				return res
			case callee == best:
				d.best = nil
				if !plGone(k, s, 5) {
					plBad(k, s, "late:rewrite-input", at, "the best path can be asked for before every input text plugin was applied")
				}
				r.count("best paths", 1)
				res := k.opaque(s, s.top(), c, callee, args)
				d.best = res[0]
				return res
			case callee != nil && (callee == lookup || lookups[callee] && !k.only[callee]):
				r.count("lattices built", 1)
				if !plGone(k, s, 5) {
					plBad(k, s, "late:rewrite-input", at, "the lattice can be built before every input text plugin was applied")
				}
				ok := false
				for _, a := range args {
					if d.built != nil && mentions(a, d.built) {
						ok = true
					}
				}
				if !ok {
					plBad(k, s, "builder", at, "the lattice is built from another text than the one the input text plugins rewrote")
				}
			}
			return nil
		},
		exit: func(k *ai, s *astate, at string, res []*T) {
			d := s.data.(*plState)
			f := w.fieldWithElem(res[0].typOr(), "LatticeNode")
			if f < 0 {
				plBad(k, s, "result", at, "what Tokenize returns has no path")
				return
			}
			bt := res[0].typ.Underlying().(*types.Pointer).Elem()
			ft := bt.Underlying().(*types.Struct).Field(f).Type()
			p := k.load(s, k.fld(res[0], bt, f), ft)
			ok := false
			walkT(p, func(y *T) bool {
				if y.op == "load" && d.curP[y.args[0]] {
					ok = true
				}
				return !ok
			})
			if k.rangeOf(s, k.lenOf(s, listOf(k, s, 6))).hi <= 0 && d.best != nil && mentions(p, d.best) {
				ok = true
			}
			if !ok || d.dirty != "" {
				if d.dirty != "" {
					at = d.dirty
				}
				plBad(k, s, "result", at, "the morphemes are not made from the best path as the path rewrite plugins left it")
			}
		},
	})
	for b, at := range used {
		if !rewritten[b] {
			r.add(Finding{Key: "builder", Rule: "plugins", Pos: at, Msg: "the text analysed can be another one than the input text plugins rewrote"})
		}
	}
	if len(rewritten) > 1 {
		r.add(Finding{Key: "builders", Rule: "plugins", Pos: w.pos(tok.Pos()), Msg: "the input text plugins can be given different texts to rewrite"})
	}
	r.floor("inputs built", 1)
	r.floor("lattices built", 1)
	r.floor("best paths", 1)

	// the unknown-word providers of one character
	run(plRun{
		name: "oov", f: tok, kinds: []int{7},
		only: func(g *ssa.Function) bool { return reach[7][g] },
		list: listOf,
		init: initTok,
	})

	// the lists are handed on unchanged
	checkPluginWiring(w, r, newDict)
}

var plGone func(k *ai, s *astate, i int) bool
var plBad func(k *ai, s *astate, key, at, msg string)

func lastArg(args []*T) *T { return args[len(args)-1] }

func keysOf2(m map[*T]bool) string {
	var ids []int
	for a := range m {
		ids = append(ids, a.id)
	}
	sortInts(ids)
	return fmt.Sprint(ids)
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// fieldWithElem: the field of the struct t points to that is a slice of the
// named type (or of pointers to it).
func (w *World) fieldWithElem(t types.Type, elem string) int {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	st, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if n := namedOf(sl.Elem()); n != nil && n.Obj().Name() == elem {
				return i
			}
		}
	}
	return -1
}

// checkPluginWiring: every list of plugins a dictionary or tokenizer holds is
// one it was given.
func checkPluginWiring(w *World, r *Report, newDict *ssa.Function) {
	pluginList := func(t types.Type) string {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return ""
		}
		n, ok := sl.Elem().(*types.Named)
		if !ok {
			return ""
		}
		for _, k := range plKinds {
			if k.iface == n.Obj().Name() && n.Obj().Pkg().Path() == w.modpath {
				return k.iface
			}
		}
		return ""
	}
	holders := map[string]bool{"JapaneseDictionary": true, "JapaneseTokenizer": true}
	isHeld := func(fa *ssa.FieldAddr) bool {
		n := namedOf(fa.X.Type())
		if n == nil || !holders[n.Obj().Name()] || n.Obj().Pkg().Path() != w.modpath {
			return false
		}
		return pluginList(fa.Type().(*types.Pointer).Elem()) != ""
	}
	isGetter := func(n string) bool {
		for _, k := range plKinds {
			if n == "Get"+k.iface+"Array" {
				return true
			}
		}
		return false
	}
	// where the list comes from: parameters and fields of the same kind only
	var from func(v ssa.Value, seen map[ssa.Value]bool, bad func(ssa.Value))
	from = func(v ssa.Value, seen map[ssa.Value]bool, bad func(ssa.Value)) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Parameter:
			return
		case *ssa.Phi:
			for _, e := range v.Edges {
				from(e, seen, bad)
			}
			return
		case *ssa.Extract:
			c, ok := v.Tuple.(*ssa.Call)
			if !ok {
				break
			}
			g := c.Call.StaticCallee()
			if g == nil || !w.inModule(g) || len(g.Blocks) == 0 || isGetter(g.Name()) {
				break
			}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if last := ret.Results[len(ret.Results)-1]; isErrorType(last.Type()) {
						if c, isC := last.(*ssa.Const); !isC || !c.IsNil() {
							if c, isC := ret.Results[v.Index].(*ssa.Const); isC && c.IsNil() {
								continue
							}
						}
					}
					from(ret.Results[v.Index], seen, bad)
				}
			}
			return
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil || !w.inModule(g) || len(g.Blocks) == 0 || isGetter(g.Name()) {
				break
			}
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					from(ret.Results[0], seen, bad)
				}
			}
			return
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok && isHeld(fa) {
				return
			} else if ok {
				if sts := w.index().fst[fieldClass(fa.X.Type(), fa.Field)]; len(sts) > 0 {
					for _, st := range sts {
						from(st.Val, seen, bad)
					}
					return
				}
			}
			if al, ok := v.X.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						from(st.Val, seen, bad)
					}
				}
				return
			}
		case *ssa.FreeVar:
			return
		}
		bad(v)
	}
	n := 0
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
						if kind := pluginList(ia.X.Type()); kind != "" {
							r.add(Finding{Key: "overwrites:" + w.fname(f), Rule: "plugin lists", Pos: w.posOf(in), Msg: fmt.Sprintf("%s overwrites an element of a list of %ss", w.fname(f), kind)})
						}
					}
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isHeld(fa) {
						n++
						r.oblige("list of plugins stored at " + w.posOf(in))
						from(in.Val, map[ssa.Value]bool{}, func(v ssa.Value) {
							r.add(Finding{Key: "wiring:" + w.fname(f), Rule: "plugin lists", Pos: w.posOf(in), Msg: fmt.Sprintf("%s keeps a list of plugins (%s) that is not the one it was given", w.fname(f), v.Name())})
						})
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g != nil && !w.inModule(g) {
						for _, a := range in.Common().Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if kind := pluginList(a.Type()); kind != "" {
								r.add(Finding{Key: "reorder:" + w.fname(f), Rule: "plugin lists", Pos: w.posOf(in), Msg: fmt.Sprintf("%s hands a list of %ss to %s, which may reorder it", w.fname(f), kind, g)})
							}
						}
					}
					if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != w.modpath || g.Signature.Recv() != nil || !inNames(g.Name(), "NewJapaneseTokenizer", "NewJapaneseDictionary") {
						continue
					}
					for i, a := range in.Common().Args {
						kind := pluginList(a.Type())
						if kind == "" {
							continue
						}
						n++
						_ = i
						r.oblige(kind + "s handed on at " + w.posOf(in))
						from(a, map[ssa.Value]bool{}, func(v ssa.Value) {
							// from the settings
							if ex, ok := v.(*ssa.Extract); ok {
								if c, ok := ex.Tuple.(*ssa.Call); ok {
									name := ""
									if c.Call.IsInvoke() {
										name = c.Call.Method.Name()
									} else if g := c.Call.StaticCallee(); g != nil {
										name = g.Name()
									}
									if ex.Index == 0 && name == "Get"+kind+"Array" {
										return
									}
								}
							}
							// user dictionary costs are computed without path rewriting
							if kind == "PathRewritePlugin" && g.Name() == "NewJapaneseTokenizer" && f.Name() != "Create" && emptyList(v) {
								return
							}
							r.add(Finding{Key: "wiring:" + w.fname(f) + ":" + kind, Rule: "plugin lists", Pos: w.posOf(in), Msg: fmt.Sprintf("%s hands %s a list of %ss that is not the configured one", w.fname(f), g.Name(), kind)})
						})
					}
				}
			}
		}
	}
	r.Counts["lists of plugins handed on"] = n
	r.floor("lists of plugins handed on", 14)
}

func inNames(s string, names ...string) bool {
	for _, n := range names {
		if s == n {
			return true
		}
	}
	return false
}

// emptyList: nil or a list without elements.
func emptyList(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.Slice:
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return a.Len() == 0
			}
		}
	}
	return false
}
