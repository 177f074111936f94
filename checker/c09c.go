package main

// C09: part-of-speech ids, lexicon sets, lattice nodes and morphemes.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- part-of-speech ids ----------------------------------------------------

type posState struct {
	keys map[*T]*T // text -> what it is made of
	was  *T        // the list on entry
	l    *listLoop
	kept *T // the id kept under the strings
}

func (d *posState) clone() any {
	n := *d
	n.keys = map[*T]*T{}
	for a, b := range d.keys {
		n.keys[a] = b
	}
	return &n
}

func isStrings(t types.Type) bool { e := sliceOfT(t); return e != nil && isStrT(e) }

func isListOfStrings(t types.Type) bool { e := sliceOfT(t); return e != nil && isStrings(e) }

// posIds: a part of speech is given the id under which its strings are kept.
func (x *columns) posIds() {
	w := x.w
	n := 0
	for _, f := range w.allFns {
		if f.Synthetic != "" || len(f.Blocks) == 0 || !w.inModule(f) || f.Signature.Recv() == nil {
			continue
		}
		sig := f.Signature
		if sig.Params().Len() != 1 || !isStrings(sig.Params().At(0).Type()) || sig.Results().Len() != 1 || !isBasic(sig.Results().At(0).Type(), types.Int16) {
			continue
		}
		n++
		x.posId(f)
	}
	x.r.count("functions giving out part-of-speech ids", n)
	x.r.floor("functions giving out part-of-speech ids", 3)
}

func (x *columns) posId(f *ssa.Function) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + " gives the id under which the strings are kept")
	k := newAI(w, aclient{})
	k.keep, k.unroll = true, true
	k.keepFact = func(s *astate, t *T) bool { return true }
	k.cl.clone = func(d any) any { return d.(*posState).clone() }
	k.cl.key = func(d any) string {
		x := d.(*posState)
		h := ""
		if x.l != nil {
			h = fmt.Sprint(x.l.phi.id)
		}
		if x.kept != nil {
			h += fmt.Sprint("/", x.kept.id)
		}
		return mapKey(x.keys) + h
	}
	var recv, par *T
	var lists []*T // addresses of the lists of parts of speech of the receiver
	var ltypes []types.Type
	var find func(a *T, n *types.Named, d int)
	find = func(a *T, n *types.Named, d int) {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || d > 3 {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if isListOfStrings(ft) {
				lists = append(lists, k.fld(a, n, i))
				ltypes = append(ltypes, ft)
			} else if m := namedOf(ft); m != nil {
				if _, isP := ft.Underlying().(*types.Pointer); !isP {
					find(k.fld(a, n, i), m, d+1)
				}
			}
		}
	}
	list := func(s *astate) *T { return k.load(s, lists[0], ltypes[0]) }
	theirs := map[*T]bool{}
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*posState)
		if l, ok := x.posCall(k, s, ci); ok {
			if l != par {
				x.bad(k, s, "pos:"+who+":pass", w.posOf(ci), fmt.Sprintf("%s looks %s up instead of the part of speech it is given", who, shortT(l)))
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			theirs[res[0]] = true
			if len(lists) > 0 {
				d.was = list(s)
			}
			return res, true, false
		}
		if callee != nil && callee.String() == "fmt.Sprintf" && len(args) == 2 {
			res := k.opaque(s, s.top(), ci, callee, args)
			if v, ok := args[0].strVal(); ok && (v == "%q" || v == "%#v") && k.lenOf(s, args[1]) == k.num(1) {
				a := k.elemAt(s, args[1], k.num(0))
				for a.op == "iface" {
					a = a.args[0]
				}
				d.keys[res[0]] = a
			}
			return res, true, false
		}
		return nil, false, true
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		if len(lists) == 0 {
			return
		}
		if l, ok := k.listLoopOf(s, h, isStrings2); ok && l.list != nil && l.list == s.data.(*posState).was {
			s.data.(*posState).l = &l
		}
	}
	differs := func(s *astate, row *T) bool {
		for j := int64(0); j < posParts; j++ {
			if k.same(s, k.elemAt(s, row, k.num(j)), k.elemAt(s, par, k.num(j))) == -1 {
				return true
			}
		}
		return false
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*posState)
		if d.l == nil || d.l.h != h {
			return
		}
		if !k.stepsByOne(s, *d.l) || !differs(s, k.elemAt(s, d.l.list, k.index(*d.l))) {
			x.bad(k, s, "pos:"+who+":over", w.pos(f.Pos()), who+" passes over a part of speech without knowing that it differs")
		}
	}
	// key: the text by which a part of speech is known is the strings, and
	// nothing else is known by it
	isKey := func(s *astate, t *T) bool {
		if s.data.(*posState).keys[t] == par {
			return true
		}
		if t.op == "agg" && len(t.args) == posParts {
			for j, a := range t.args {
				if a != k.elemAt(s, par, k.num(int64(j))) {
					return false
				}
			}
			return true
		}
		return false
	}
	k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
		if m, ok := in.(*ssa.MapUpdate); ok {
			d := s.data.(*posState)
			if isKey(s, k.val(s, s.top(), m.Key)) {
				d.kept = k.val(s, s.top(), m.Value)
			} else {
				x.bad(k, s, "pos:"+who+":key", w.posOf(in), fmt.Sprintf("%s keeps an id under %s, which does not tell all parts of speech apart", who, shortT(k.val(s, s.top(), m.Key))))
			}
		}
	}
	gave := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		d := s.data.(*posState)
		v := res[0]
		bad := func(key, msg string) { x.bad(k, s, "pos:"+who+":"+key, w.posOf(at), who+" "+msg) }
		now := list(s)
		src := unconv(v, 2)
		if k.rangeOf(s, src).hi < 0 || k.rangeOf(s, v).hi < 0 {
			return // C10, C14: none, or no room
		}
		gave++
		x.r.count("part-of-speech ids followed", 1)
		for t := range theirs {
			if hasTerm(v, t) && src == t {
				return // the id in the system dictionary
			}
		}
		// the number of the system's may be added (C10)
		known := func(t *T) bool { // an id kept for the strings
			ok := false
			walkT(t, func(t *T) bool {
				if t.op == "load" && t.args[0].op == "idx" && isKey(s, t.args[0].args[1]) {
					for c, tv := range s.facts {
						if tv && c.op == "haskey" && c.args[0] == t.args[0] {
							ok = true
						}
					}
				}
				return true
			})
			return ok
		}
		switch {
		case now == d.was && d.l != nil:
			row := k.elemAt(s, d.l.list, k.index(*d.l))
			for j := int64(0); j < posParts; j++ {
				if k.same(s, k.elemAt(s, row, k.num(j)), k.elemAt(s, par, k.num(j))) != 1 {
					bad("part", fmt.Sprintf("gives out the id of a part of speech without having compared string %d", j))
				}
			}
			if k.equal(s, src, k.index(*d.l)) != 1 {
				bad("index", fmt.Sprintf("gives out %s, not the place of the part of speech it found", shortT(v)))
			}
		case now == d.was:
			if !known(v) {
				bad("known", fmt.Sprintf("gives out %s, which need not be the id of these strings", shortT(v)))
			}
		default:
			if now.op != "append1" || len(now.args) != 2 || now.args[0] != d.was || !x.copyOf(k, s, now.args[1], par) {
				bad("row", fmt.Sprintf("keeps %s, not the part of speech it is given, after the others", shortT(now)))
				return
			}
			if now.args[1] == par {
				x.keepsGiven = true
			}
			n := k.lenOf(s, d.was)
			has := false
			walkT(k.narrow(v), func(t *T) bool {
				if unconv(t, 2) == n {
					has = true
				}
				return true
			})
			if !has {
				bad("new", fmt.Sprintf("gives out %s, not the place of the part of speech it keeps", shortT(v)))
			}
			if d.kept == nil || unconv(d.kept, 2) != n {
				bad("forget", "does not keep the id of a new part of speech under its strings")
			}
		}
	}
	k.run(f, func(s *astate) {
		d := &posState{keys: map[*T]*T{}}
		s.data = d
		for i, p := range f.Params {
			t := k.val(s, s.top(), p)
			if i == 0 {
				recv = t
			} else {
				par = t
			}
		}
		if n := namedOf2(f); n != nil {
			find(recv, n, 0)
		}
		if len(lists) > 0 {
			d.was = list(s)
		}
	})
	if len(lists) == 0 {
		x.bad(nil, nil, "pos:"+who+":none", w.pos(f.Pos()), who+" gives out part-of-speech ids but its receiver keeps no parts of speech")
		return
	}
	if k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	if gave == 0 {
		x.bad(nil, nil, "pos:"+who+":never", w.pos(f.Pos()), who+" never gives out an id")
	}
}

func isStrings2(t types.Type) bool { return t != nil && isStrings(t) }

// copyOf: v is the list, or a copy of all of it.
func (x *columns) copyOf(k *ai, s *astate, v, list *T) bool {
	if v == list {
		return true
	}
	if v.op == "appendn" && v.args[1] == list && (v.args[0].op == "nil" || k.lenOf(s, v.args[0]) == k.num(0)) {
		return true
	}
	return false
}

// ---- lexicon sets ----------------------------------------------------------

// delegates: the set's accessors give what the lexicon's of the same name do.
func (x *columns) delegates() {
	w := x.w
	set := w.typ("dictionary", "LexiconSet")
	lex := w.typ("dictionary", "DoubleArrayLexicon")
	winfo := w.typ("dictionary", "WordInfo")
	strs := []string{"Surface", "HeadwordLength", "NormalizedForm", "DictionaryFormWordId", "DictionaryForm", "ReadingForm"}
	for _, name := range []string{"GetLeftId", "GetRightId", "GetCost", "GetWordInfo"} {
		f := w.must(w.method("dictionary", "LexiconSet", name), "LexiconSet."+name)
		who := w.fname(f)
		x.r.oblige(who + " gives what the dictionary's " + name + " gives")
		k := newAI(w, aclient{})
		k.keep = true
		k.keepFact = func(s *astate, t *T) bool { return true }
		type gst struct {
			res *T
			was map[string]*T
		}
		k.cl.clone = func(d any) any { y := *d.(*gst); return &y }
		k.cl.key = func(d any) string {
			if r := d.(*gst).res; r != nil {
				return fmt.Sprint(r.id)
			}
			return ""
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee == nil || namedOf2(callee) != lex {
				return nil, false, true
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			d := &gst{was: map[string]*T{}}
			if callee.Name() == name {
				d.res = res[0]
				if name == "GetWordInfo" {
					for _, fl := range strs {
						d.was[fl] = k.getField(s, res[0], winfo, fl)
					}
				}
			}
			s.data = d
			return res, true, false
		}
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			d := s.data.(*gst)
			if d.res == nil {
				x.bad(k, s, "set:"+name, w.posOf(at), fmt.Sprintf("%s returns %s, not what the dictionary's %s gives", who, shortT(res[0]), name))
				return
			}
			x.r.count("accessors of the set", 1)
			if name != "GetWordInfo" {
				if res[0] != d.res {
					x.bad(k, s, "set:"+name, w.posOf(at), fmt.Sprintf("%s returns %s, not what the dictionary's %s gives", who, shortT(res[0]), name))
				}
				return
			}
			for _, fl := range strs {
				if v := k.getField(s, res[0], winfo, fl); v != d.was[fl] {
					x.bad(k, s, "set:"+name+":"+fl, w.posOf(at), fmt.Sprintf("%s returns %s for %s, not what the dictionary's gives", who, shortT(v), fl))
				}
			}
			if k.nonNil(s, res[0]) == -1 {
				x.bad(k, s, "set:nil", w.posOf(at), who+" returns nothing")
			}
		}
		k.run(f, func(s *astate) {
			s.data = &gst{}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if k.gaveUp || n == 0 {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	_ = set
	// nobody else changes a word's record once it is made
	ix := w.index()
	st := winfo.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		for _, sto := range ix.fst[fieldClass(winfo, i)] {
			x.r.count("stores to word records", 1)
			if _, fresh := addrBase(sto.Addr).(*ssa.Alloc); fresh {
				continue
			}
			g := sto.Parent()
			if st.Field(i).Name() == "PosId" && namedOf2(g) == set { // C10
				continue
			}
			if st.Field(i).Name() == "DictionaryForm" && g.Pkg != nil && g.Pkg.Pkg.Path() == w.rel("dictionary") { // C08
				continue
			}
			x.bad(nil, nil, "rec:"+w.fname(g)+":"+st.Field(i).Name(), w.posOf(sto), fmt.Sprintf("%s changes %s of a word's record", w.fname(g), st.Field(i).Name()))
		}
	}
}

// ---- lattice nodes ---------------------------------------------------------

// nodes: a word's parameters get to the fields the best path is computed from.
func (x *columns) nodes() {
	w := x.w
	node := w.typ("", "LatticeNode")
	nst := node.Underlying().(*types.Struct)
	role := map[string]int{}
	put := func(r string, i int, at string) {
		if j, ok := role[r]; ok && j != i {
			x.bad(nil, nil, "role:"+r, at, fmt.Sprintf("%s is taken from %s here and from %s elsewhere", r, nst.Field(i).Name(), nst.Field(j).Name()))
			return
		}
		role[r] = i
	}
	ix := w.index()
	gcc := w.must(w.method("dictionary", "Grammar", "GetConnectCost"), "Grammar.GetConnectCost")
	for _, ci := range ix.args[gcc] {
		if ci.Parent().Pkg == nil || ci.Parent().Pkg.Pkg.Path() != w.rel("") {
			continue
		}
		for i, r := range []string{"the right id", "the left id"} {
			if fi, ok := fieldRead(ci.Common().Args[1+i], node, map[ssa.Value]bool{}); ok {
				put(r, fi, w.posOf(ci))
			}
		}
	}
	if _, ok := role["the left id"]; !ok {
		x.bad(nil, nil, "role:left", w.pos(gcc.Pos()), "no connection cost is looked up from the ids of two nodes")
		return
	}
	if role["the left id"] == role["the right id"] {
		x.bad(nil, nil, "role:same", w.pos(gcc.Pos()), "connection costs are looked up by one and the same field of two nodes")
		return
	}
	for i := 0; i < nst.NumFields(); i++ {
		if isBasic(nst.Field(i).Type(), types.Int16) && i != role["the left id"] && i != role["the right id"] {
			put("the cost", i, w.pos(node.Obj().Pos()))
		}
	}
	roles := []string{"the left id", "the right id", "the cost"}
	// set from the parameters of the same meaning, in order
	mk := w.must(w.pkgFunc("", "NewLatticeNode"), "NewLatticeNode")
	sp := w.must(w.method("", "LatticeNode", "SetParameter"), "LatticeNode.SetParameter")
	params := map[*ssa.Function][]*ssa.Parameter{}
	for _, f := range []*ssa.Function{mk, sp} {
		f := f
		who := w.fname(f)
		x.r.oblige(who + " keeps left id, right id and cost apart")
		var ps []*ssa.Parameter
		for _, p := range f.Params {
			if isBasic(p.Type(), types.Int16) {
				ps = append(ps, p)
			}
		}
		if len(ps) != 3 {
			x.bad(nil, nil, "params:"+who, w.pos(f.Pos()), who+" does not take a left id, a right id and a cost")
			return
		}
		params[f] = ps
		k := newAI(w, aclient{})
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			var nd *T
			if f == mk {
				nd = res[0]
			} else {
				nd = k.val(s, s.stack[0], f.Params[0])
			}
			for i, r := range roles {
				v := k.load(s, k.fld(nd, node, role[r]), nst.Field(role[r]).Type())
				x.r.count("parameters of nodes", 1)
				if v != k.val(s, s.stack[0], ps[i]) {
					x.bad(k, s, "keep:"+who+r, w.posOf(at), fmt.Sprintf("%s keeps %s as %s, not the number it is given for it", who, shortT(v), r))
				}
			}
		}
		k.run(f, func(s *astate) {
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if n == 0 || k.gaveUp {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	for _, r := range roles {
		for _, st := range ix.fst[fieldClass(node, role[r])] {
			g := st.Parent()
			if g != mk && g != sp {
				x.bad(nil, nil, "nodest:"+w.fname(g)+r, w.posOf(st), fmt.Sprintf("%s changes %s of a node", w.fname(g), r))
			}
		}
	}
	// from the lexicon
	set := w.typ("dictionary", "LexiconSet")
	getters := map[string]string{"GetLeftId": "the left id", "GetRightId": "the right id", "GetCost": "the cost"}
	var wp *ssa.Parameter
	for _, p := range mk.Params {
		if isBasic(p.Type(), types.Int32) {
			wp = p
		}
	}
	for _, ci := range ix.args[mk] {
		who := w.fname(ci.Parent())
		word := argFor(ci, wp)
		refs := false
		for _, o := range x.origins(word, nil, map[string]bool{}) {
			if u, ok := o.v.(*ssa.UnOp); ok {
				if _, isIA := u.X.(*ssa.IndexAddr); isIA {
					refs = true
				}
			}
		}
		if refs {
			continue // one of a word's references; its place is known
		}
		x.r.oblige("parameters of the node made at " + w.posOf(ci))
		for i, r := range roles {
			x.r.count("parameters looked up", 1)
			os := x.origins(argFor(ci, params[mk][i]), nil, map[string]bool{})
			ok := len(os) > 0
			for _, o := range os {
				c, isC := o.v.(*ssa.Call)
				if !isC || c.Call.StaticCallee() == nil || namedOf2(c.Call.StaticCallee()) != set || getters[c.Call.StaticCallee().Name()] != r {
					ok = false
					break
				}
				// of the same word
				a := x.origins(c.Call.Args[1], o.env, map[string]bool{})
				b := x.origins(word, nil, map[string]bool{})
				if !sameOrigins(a, b) {
					ok = false
				}
			}
			if !ok {
				x.bad(nil, nil, "from:"+who+r, w.posOf(ci), fmt.Sprintf("%s makes a node whose %s is not the one the lexicon has for the word", who, strings.TrimPrefix(r, "the ")))
			}
		}
	}
	x.r.floor("parameters looked up", 3)
}

// fieldRead: v is read from a field of n.
func fieldRead(v ssa.Value, n *types.Named, seen map[ssa.Value]bool) (int, bool) {
	if seen[v] {
		return 0, false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			if p, ok := fa.X.Type().Underlying().(*types.Pointer); ok && namedOf(p.Elem()) == n {
				return fa.Field, true
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if i, ok := fieldRead(e, n, seen); ok {
				return i, true
			}
		}
	case *ssa.Convert:
		return fieldRead(v.X, n, seen)
	case *ssa.Parameter:
		// through its callers is not followed
	}
	return 0, false
}

// An origin is where a value comes from, and the calls it came through.
type origin struct {
	v   ssa.Value
	env []*ssa.Call
}

// origins: where v comes from, through phis, results and parameters of calls
// that were entered on the way.
func (x *columns) origins(v ssa.Value, env []*ssa.Call, seen map[string]bool) (out []origin) {
	key := fmt.Sprintf("%p/%d", v, len(env))
	if seen[key] {
		return nil
	}
	seen[key] = true
	into := func(c *ssa.Call, i int) bool {
		g := c.Call.StaticCallee()
		if g == nil || !x.w.inModule(g) || len(g.Blocks) == 0 || len(env) > 4 || g.Pkg != c.Parent().Pkg {
			return false
		}
		n := append(append([]*ssa.Call(nil), env...), c)
		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				out = append(out, x.origins(r.Results[i], n, seen)...)
			}
		}
		return true
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			out = append(out, x.origins(e, env, seen)...)
		}
		return out
	case *ssa.Call:
		if into(y, 0) {
			return out
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok && into(c, y.Index) {
			return out
		}
	case *ssa.Parameter:
		if n := len(env); n > 0 {
			if g := env[n-1].Call.StaticCallee(); g == y.Parent() {
				for i, p := range g.Params {
					if p == y {
						return x.origins(env[n-1].Call.Args[i], env[:n-1], seen)
					}
				}
			}
		}
	}
	return []origin{{v, env}}
}

func sameOrigins(a, b []origin) bool {
	key := func(os []origin) string {
		var ks []string
		for _, o := range os {
			ks = append(ks, fmt.Sprintf("%p", o.v))
		}
		sort.Strings(ks)
		return strings.Join(ks, ",")
	}
	return len(a) > 0 && key(a) == key(b)
}

// ---- morphemes -------------------------------------------------------------

// morphemes: a morpheme's accessors give the record's field of the same name.
func (x *columns) morphemes() {
	w := x.w
	mt, lt, nt := w.typ("", "Morpheme"), w.typ("", "MorphemeList"), w.typ("", "LatticeNode")
	winfo, gram := w.typ("dictionary", "WordInfo"), w.typ("dictionary", "Grammar")
	mst, lst := mt.Underlying().(*types.Struct), lt.Underlying().(*types.Struct)
	mList := oneField(mt, "the list", func(t types.Type) bool { return namedOf(t) == lt })
	mIdx := oneField(mt, "the index", isIntT)
	mInfo := oneField(mt, "the record", func(t types.Type) bool { return namedOf(t) == winfo })
	lPath := oneField(lt, "the path", func(t types.Type) bool { e := sliceOfT(t); return e != nil && namedOf(e) == nt })
	lGram := oneField(lt, "the grammar", func(t types.Type) bool { return namedOf(t) == gram })
	get := func(k *ai, s *astate, p *T, n *types.Named, i int) *T {
		return k.load(s, k.fld(p, n, i), n.Underlying().(*types.Struct).Field(i).Type())
	}
	_ = mst
	var fs []*ssa.Function
	for _, name := range []string{"DictionaryForm", "NormalizedForm", "ReadingForm", "PartOfSpeech", "GetWordInfo", "IsOOV", "GetWordId", "GetDictionaryId"} {
		fs = append(fs, w.must(w.method("", "Morpheme", name), "Morpheme."+name))
	}
	for _, name := range []string{"GetWordInfo", "IsOOV", "GetWordId", "GetDictionaryId"} {
		fs = append(fs, w.must(w.method("", "MorphemeList", name), "MorphemeList."+name))
	}
	for _, f := range fs {
		f := f
		who := w.fname(f)
		x.r.oblige(who + " gives what belongs to the word at its place")
		onList := namedOf2(f) == lt
		k := newAI(w, aclient{})
		k.keep = true
		k.keepFact = func(s *astate, t *T) bool { return true }
		type mst2 struct{ info, val, pos, arg *T }
		k.cl.clone = func(d any) any { y := *d.(*mst2); return &y }
		k.cl.key = func(d any) string {
			y := d.(*mst2)
			return fmt.Sprint(y.info != nil, y.val != nil, y.pos != nil)
		}
		var recv, list0, idx0, cached *T
		nodeOf := func(s *astate) *T {
			return k.elemAt(s, get(k, s, list0, lt, lPath), idx0)
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee == nil {
				return nil, false, true
			}
			d := s.data.(*mst2)
			switch namedOf2(callee) {
			case nt:
				if args[0] != nodeOf(s) {
					x.bad(k, s, "place:"+who, w.posOf(ci), fmt.Sprintf("%s asks %s, not the node at its place in the path", who, shortT(args[0])))
				}
				res := k.opaque(s, s.top(), ci, callee, args)
				if callee.Name() == "GetWordInfo" {
					d.info = res[0]
				}
				if callee.Name() == f.Name() {
					d.val = res[0]
				}
				return res, true, false
			case gram:
				res := k.opaque(s, s.top(), ci, callee, args)
				if callee.Name() == "GetPartOfSpeechString" {
					if args[0] != get(k, s, list0, lt, lGram) {
						x.bad(k, s, "grammar:"+who, w.posOf(ci), who+" looks the part of speech up in another grammar than its list's")
					}
					d.pos, d.arg = res[0], args[1]
				}
				return res, true, false
			}
			return nil, false, true
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			d := s.data.(*mst2)
			if !onList && a == k.fld(recv, mt, mInfo) && v != d.info {
				x.bad(k, s, "cache:"+who, w.posOf(in), fmt.Sprintf("%s keeps %s as the word's record", who, shortT(v)))
			}
		}
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			x.r.count("accessors of morphemes", 1)
			d := s.data.(*mst2)
			info := d.info
			if info == nil && !onList && k.nonNil(s, cached) == 1 {
				info = cached
			}
			v := res[0]
			bad := func(what string) {
				x.bad(k, s, "morpheme:"+who, w.posOf(at), fmt.Sprintf("%s gives %s, not %s", who, shortT(v), what))
			}
			switch f.Name() {
			case "GetWordInfo":
				if v != info || v == nil {
					bad("the record of the word at its place")
				}
			case "IsOOV", "GetWordId", "GetDictionaryId":
				if d.val == nil || v != d.val {
					bad("what the node at its place gives")
				}
			case "PartOfSpeech":
				if info == nil || d.pos == nil || v != d.pos || d.arg != k.getField(s, info, winfo, "PosId") {
					bad("the part of speech with the id of the word's record")
				}
			default:
				if info == nil || v != k.getField(s, info, winfo, f.Name()) {
					bad(f.Name() + " of the word's record")
				}
			}
		}
		k.run(f, func(s *astate) {
			s.data = &mst2{}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
			recv = k.val(s, s.top(), f.Params[0])
			if onList {
				list0, idx0 = recv, k.val(s, s.top(), f.Params[1])
			} else {
				list0, idx0 = get(k, s, recv, mt, mList), get(k, s, recv, mt, mIdx)
				cached = get(k, s, recv, mt, mInfo)
			}
		})
		if n == 0 || k.gaveUp {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	// a morpheme's place
	f := w.must(w.method("", "MorphemeList", "Get"), "MorphemeList.Get")
	who := w.fname(f)
	x.r.oblige(who + " gives the morpheme at the place it is given")
	k := newAI(w, aclient{})
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		x.r.count("accessors of morphemes", 1)
		if get(k, s, res[0], mt, mList) != k.val(s, s.stack[0], f.Params[0]) || get(k, s, res[0], mt, mIdx) != k.val(s, s.stack[0], f.Params[1]) {
			x.bad(k, s, "morpheme:"+who, w.posOf(at), who+" gives a morpheme of another place or list")
		}
		if r := get(k, s, res[0], mt, mInfo); r.op != "nil" {
			x.bad(k, s, "morpheme:info", w.posOf(at), fmt.Sprintf("%s gives a morpheme with the record %s", who, shortT(r)))
		}
	}
	k.run(f, func(s *astate) {
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	ix := w.index()
	own := map[*ssa.Function]bool{}
	for _, g := range fs {
		own[g] = true
	}
	for _, i := range []int{mList, mIdx, mInfo} {
		for _, st := range ix.fst[fieldClass(mt, i)] {
			if _, fresh := addrBase(st.Addr).(*ssa.Alloc); fresh && i != mInfo || i == mInfo && own[st.Parent()] {
				continue
			}
			x.bad(nil, nil, "mst:"+w.fname(st.Parent()), w.posOf(st), fmt.Sprintf("%s changes %s of a morpheme", w.fname(st.Parent()), mst.Field(i).Name()))
		}
	}
	for _, i := range []int{lPath, lGram} {
		for _, st := range ix.fst[fieldClass(lt, i)] {
			if _, fresh := addrBase(st.Addr).(*ssa.Alloc); !fresh {
				x.bad(nil, nil, "lst:"+w.fname(st.Parent()), w.posOf(st), fmt.Sprintf("%s changes %s of a list of morphemes", w.fname(st.Parent()), lst.Field(i).Name()))
			}
		}
	}
	x.r.floor("accessors of morphemes", 12)
}
