package main

// C26: joining words of a path puts one word in their place, over the same
// text, and leaves the others as they are.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "abstract interpretation (contents of lists after stores, copies and appends, with linear relations between positions; folds over the joined words; loop induction for the cheapest node) and effects of the plugins on the path", checkJoin)
}

type joinCheck struct {
	w     *World
	r     *Report
	node  *types.Named
	winfo *types.Named
	seen  map[string]bool
}

func (x *joinCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "join", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkJoin(w *World, r *Report) {
	x := &joinCheck{w: w, r: r, node: w.typ("", "LatticeNode"), winfo: w.typ("dictionary", "WordInfo"), seen: map[string]bool{}}
	x.concat(w.must(w.pkgFunc("", "ConcatenateNodes"), "ConcatenateNodes"), false)
	x.concat(w.must(w.pkgFunc("", "ConcatenateOov"), "ConcatenateOov"), true)
	x.minimum()
	x.plugins()
	x.r.floor("ways to join", 3)
	x.r.floor("places of the path", 6)
	x.r.floor("fields of the new word", 10)
}

func stripCast(t *T) *T {
	for t.op == "cast" && len(t.args) == 1 && t.args[0].typ != nil && bytesLike(t.typ) && bytesLike(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

// isFldOf: t is what the named field of object o holds.
func isFldOf(t *T, o *T, st *types.Named, name string) bool {
	return t.op == "load" && t.args[0].op == "fld" && t.args[0].s == tname(st)+"."+name && t.args[0].args[0] == o
}

func emptyText(k *ai, s *astate, t *T) bool {
	t = stripCast(t)
	if sv, ok := t.strVal(); ok {
		return sv == ""
	}
	if t.op == "nil" {
		return true
	}
	n, ok := k.lenOf(s, t).intVal()
	return ok && n == 0
}

func (x *joinCheck) concat(f *ssa.Function, oov bool) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + ": one word in the place of those joined")
	wiOf := w.must(w.method("", "LatticeNode", "GetWordInfo"), "LatticeNode.GetWordInfo")
	minNode := w.must(w.method("", "Lattice", "GetMinimumNode"), "Lattice.GetMinimumNode")
	k := newAI(w, aclient{})
	a := newArrTrack(k, func(t types.Type) bool { return isPtrTo(t, x.node) || isPtrTo(t, x.winfo) || isStringT(t) })
	par := map[string]*ssa.Parameter{}
	for i, p := range f.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if namedOf(t) == w.typ("", "Lattice") {
				par["lattice"] = p
			} else if _, ok := t.Elem().Underlying().(*types.Slice); ok {
				par["path"] = p
			}
		case *types.Basic:
			switch {
			case t.Kind() == types.Int && i == 1:
				par["begin"] = p
			case t.Kind() == types.Int && i == 2:
				par["end"] = p
			case t.Kind() == types.Int16:
				par["posId"] = p
			case isStringT(t):
				par["form"] = p
			}
		}
	}
	for _, n := range []string{"lattice", "path", "begin", "end"} {
		if par[n] == nil {
			x.bad(nil, nil, "shape:"+who, w.pos(f.Pos()), who+" does not take a path, a range and a lattice")
			return
		}
	}
	arg := func(s *astate, n string) *T { return s.stack[0].env[par[n]] }
	listT := par["path"].Type().Underlying().(*types.Pointer).Elem()
	var P *T
	a.call = func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		switch callee {
		case wiOf:
			return []*T{k.mk(&T{op: "res", s: "winfo", typ: types.NewPointer(x.winfo), args: []*T{args[0]}})}, true, false
		case minNode:
			return []*T{k.mk(&T{op: "res", s: "minimum", typ: types.NewPointer(x.node), args: args})}, true, false
		}
		return nil, false, true
	}
	a.store = func(s *astate, ad, v *T, in ssa.Instruction) {
		if isAllocT(root(ad)) || ad == arg(s, "path") || ad.op == "idx" && a.tracks(ad.args[0]) {
			return
		}
		x.bad(k, s, "changes:"+who, w.posOf(in), fmt.Sprintf("%s changes %s, which is neither the path nor the new word", who, shortT(ad)))
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		s2 := s.clone(k)
		k.later = append(k.later, func() { x.joined(k, a, s2, f, w.posOf(at), res, P, arg, listT, oov) })
	}
	k.run(f, func(s *astate) {
		s.data = &arrState{phi: map[*T]*arrLoop{}, bld: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		P = k.load(s, s.top().env[par["path"]], listT)
	})
	for _, g := range k.later {
		g()
	}
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func (x *joinCheck) joined(k *ai, a *arrTrack, s *astate, f *ssa.Function, at string, res []*T, P *T, arg func(*astate, string) *T, listT types.Type, oov bool) {
	who := x.w.fname(f)
	begin, end := arg(s, "begin"), arg(s, "end")
	one := k.num(1)
	d := k.sub(end, begin)
	pre := []*T{begin, k.sub(k.lenOf(s, P), end)}
	V := k.load(s, arg(s, "path"), listT)
	if k.nonNil(s, res[1]) != -1 {
		if !a.ctx(s).ge0(k.sub(k.num(0), d)) {
			x.bad(k, s, "refused:"+who, at, who+" can fail although there are words to join")
		}
		if V != P {
			x.bad(k, s, "failed:"+who, at, who+" can fail having changed the path")
		}
		return
	}
	x.r.count("ways to join", 1)
	base := a.ctx(s)
	if !base.ge0(k.sub(d, one)) {
		x.bad(k, s, "empty:"+who, at, who+" can succeed without words to join")
		return
	}
	N := res[0]
	log := len(a.data(s).log)
	c := a.ctx(s, pre...)
	if c.vacuous() {
		return
	}
	if !c.eq(k.lenOf(s, V), k.add(k.sub(k.lenOf(s, P), d), one)) {
		x.bad(k, s, "length:"+who, at, fmt.Sprintf("%s leaves a path of %s words, not as many as before with one for those joined", who, shortT(k.lenOf(s, V))))
		return
	}
	q := k.sym("place", types.Typ[types.Int])
	same := func(u, v *T) bool { return u == v || u != nil && k.equal(s, u, v) == 1 }
	place := func(what string, more []*T, i, want *T) {
		c := a.ctx(s, append(more, pre...)...)
		if c.vacuous() {
			return
		}
		x.r.count("places of the path", 1)
		got := c.elem(V, i, log)
		if n := c.normAt(want); n != nil {
			want = n
		}
		if got != nil && same(got, want) {
			return
		}
		if got != nil && got.op == "orig" && want.op == "orig" && got.args[0] == want.args[0] && c.eq(got.args[1], want.args[1]) {
			return
		}
		g := "what could not be determined"
		if got != nil {
			g = shortT(got)
		}
		x.bad(k, s, "place:"+who+":"+what, at, fmt.Sprintf("%s leaves %s %s", who, g, what))
	}
	place("in the place of a word before those joined", []*T{q, k.sub(k.sub(begin, one), q)}, q, a.orig(P, q))
	place("in the place of the words joined", nil, begin, N)
	place("in the place of a word behind those joined", []*T{k.sub(q, k.add(begin, one)), k.sub(k.sub(k.lenOf(s, P), d), q)}, q, a.orig(P, k.add(q, k.sub(d, one))))
	// the new word
	isNode := func(t *T, i *T) bool {
		return t != nil && t.op == "orig" && t.args[0] == P && c.eq(t.args[1], i)
	}
	fieldOf := func(t *T, name string, i *T) bool {
		t = c.normAt(t)
		return t != nil && t.op == "load" && t.args[0].op == "fld" && t.args[0].s == tname(x.node)+"."+name && isNode(t.args[0].args[0], i)
	}
	last := k.sub(end, one)
	if N.op == "res" && N.s == "minimum" {
		x.r.count("fields of the new word", 2)
		if k.nonNil(s, N) != 1 {
			x.bad(k, s, "minimum:"+who, at, who+" can put in the cheapest node of the lattice although there is none")
		}
		if !oov || N.args[0] != arg(s, "lattice") || !fieldOf(N.args[1], "Begin", begin) || !fieldOf(N.args[2], "End", last) {
			x.bad(k, s, "minimum:range:"+who, at, fmt.Sprintf("%s takes %s for the words joined", who, shortT(N)))
		}
		return
	}
	if N.op != "alloc" {
		x.bad(k, s, "node:"+who, at, fmt.Sprintf("%s puts in %s, not a new word", who, shortT(N)))
		return
	}
	g := func(name string) *T { return k.ldf(s, N, x.node, name) }
	say := func(name, what string, v *T) {
		x.bad(k, s, "new:"+who+":"+name, at, fmt.Sprintf("%s gives the new word %s as its %s, not %s", who, shortT(v), name, what))
	}
	if oov {
		ok := false
		for key, v := range s.facts {
			if v && key.op == "eq" {
				for i := 0; i < 2; i++ {
					if key.args[i].op == "res" && key.args[i].s == "minimum" && key.args[1-i].op == "nil" {
						m := key.args[i]
						ok = ok || m.args[0] == arg(s, "lattice") && fieldOf(m.args[1], "Begin", begin) && fieldOf(m.args[2], "End", last)
					}
				}
			}
		}
		if !ok {
			x.bad(k, s, "made:"+who, at, who+" can make up a word without knowing that the lattice has none over the same text")
		}
	}
	x.r.count("fields of the new word", 4)
	if v := g("Begin"); !fieldOf(v, "Begin", begin) {
		say("Begin", "where the first word joined begins", v)
	}
	if v := g("End"); !fieldOf(v, "End", last) {
		say("End", "where the last word joined ends", v)
	}
	if v := g("isDefined"); k.truth(s, v) != 1 {
		say("isDefined", "true", v)
	}
	if v := g("IsOov"); oov && k.truth(s, v) != 1 || !oov && k.truth(s, v) != -1 {
		say("IsOov", fmt.Sprint(oov), v)
	}
	W := g("extraWordInfo")
	if W.op != "alloc" {
		say("word info", "a record of its own", W)
		return
	}
	st := x.winfo.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		name := st.Field(i).Name()
		v := k.load(s, k.fld(W, x.winfo, i), st.Field(i).Type())
		x.r.count("fields of the new word", 1)
		fold := func(field string) {
			if msg := x.fold(k, a, c, s, P, begin, end, v, field); msg != "" {
				x.bad(k, s, "new:"+who+":"+name, at, fmt.Sprintf("%s does not give the new word, as its %s, the %s of the words joined, in order: %s", who, name, field, msg))
			}
		}
		switch name {
		case "Surface":
			fold("Surface")
		case "HeadwordLength":
			fold("HeadwordLength")
		case "PosId":
			if oov {
				if v != arg(s, "posId") {
					say(name, "the part of speech it was given", v)
				}
			} else if u := c.normAt(v); !(u != nil && u.op == "load" && u.args[0].op == "fld" && u.args[0].s == tname(x.winfo)+".PosId" && u.args[0].args[0].op == "res" && u.args[0].args[0].s == "winfo" && isNode(u.args[0].args[0].args[0], begin)) {
				say(name, "the part of speech of the first word joined", v)
			}
		case "NormalizedForm":
			if oov {
				fold("Surface")
				break
			}
			form := arg(s, "form")
			switch k.truth(s, k.eq(form, k.str(""))) {
			case 1:
				fold("NormalizedForm")
			default:
				if k.truth(s, k.eq(form, k.str(""))) == 0 || v != form {
					say(name, "the normalized form it was given", v)
				}
			}
		case "DictionaryForm":
			if oov {
				fold("Surface")
			} else {
				fold("DictionaryForm")
			}
		case "ReadingForm":
			if !oov {
				fold("ReadingForm")
			} else if !emptyText(k, s, v) {
				say(name, "none", v)
			}
		case "DictionaryFormWordId":
			if c, ok := v.intVal(); !ok || c != -1 {
				say(name, "-1", v)
			}
		default:
			if v != k.zeroOf(st.Field(i).Type()) && v.op != "nil" {
				say(name, "none", v)
			}
		}
	}
}

// fold: v is the named field of the words' infos, from begin to end, one after
// the other.
func (x *joinCheck) fold(k *ai, a *arrTrack, c *acx, s *astate, P, begin, end, v *T, field string) string {
	// nodeAt: t is the field of the info of the word at which place
	nodeAt := func(t *T) *T {
		t = stripCast(t)
		for t.op == "conv" || t.op == "cast" && isIntT(t.typ) {
			t = t.args[0]
		}
		if t.op == "load" && t.args[0].op == "fld" && t.args[0].s == tname(x.winfo)+"."+field {
			if o := t.args[0].args[0]; o.op == "res" && o.s == "winfo" && o.args[0].op == "orig" && o.args[0].args[0] == P {
				return o.args[0].args[1]
			}
		}
		return nil
	}
	v = stripCast(v)
	if field == "HeadwordLength" {
		for v.op == "conv" || v.op == "cast" {
			v = v.args[0]
		}
		if u := c.normAt(v); u != nil && u.op == "lin" && len(u.args) == 2 {
			// the length of the text they cover
			side := func(name string, i, sign *T) bool {
				for j, t := range u.args {
					n, _ := sign.intVal()
					if u.coef[j] == n && t.op == "load" && t.args[0].op == "fld" && t.args[0].s == tname(x.node)+"."+name && t.args[0].args[0].op == "orig" && t.args[0].args[0].args[0] == P && c.eq(t.args[0].args[0].args[1], i) {
						return true
					}
				}
				return false
			}
			if u.c0 == 0 && side("End", k.sub(end, k.num(1)), k.num(1)) && side("Begin", begin, k.num(-1)) {
				return ""
			}
		}
	}
	if v.op == "joined" {
		list := v.args[0]
		if !c.eq(k.lenOf(s, list), k.sub(end, begin)) {
			return "joins " + shortT(k.lenOf(s, list)) + " strings"
		}
		q := k.sym("piece", types.Typ[types.Int])
		c2 := a.ctx(s, append([]*T{q, k.sub(k.sub(k.sub(end, begin), k.num(1)), q)}, c.more...)...)
		e := c2.elem(list, q, int(v.c0))
		if e == nil {
			return "the strings joined are not known"
		}
		if i := nodeAt(e); i == nil || !c2.eq(i, k.add(begin, q)) {
			return "joins " + shortT(e)
		}
		return ""
	}
	l := a.data(s).phi[v]
	if l == nil {
		return shortT(v)
	}
	var add *T
	var in *astate
	if field == "HeadwordLength" {
		if n, ok := l.init[v].intVal(); !ok || n != 0 {
			return "starts with " + shortT(l.init[v])
		}
		for i, b := range l.backs {
			nx := b.next[v]
			for nx.op == "conv" || nx.op == "cast" {
				nx = nx.args[0]
			}
			var e *T
			walkT(nx, func(u *T) bool {
				if u.op == "load" && u.args[0].op == "fld" && u.args[0].s == tname(x.winfo)+"."+field {
					e = u
				}
				return e == nil
			})
			if e == nil {
				return "a round adds " + shortT(nx)
			}
			ce := e
			ok := nx == k.bin(token.ADD, v, e, v.typ) || nx == k.add(v, e)
			walkT(nx, func(u *T) bool {
				if (u.op == "conv" || u.op == "cast") && u.args[0] == e {
					ok = ok || nx == k.bin(token.ADD, v, u, v.typ) || nx == k.add(v, u)
				}
				return true
			})
			if !ok || i > 0 && ce != add {
				return "a round adds " + shortT(nx)
			}
			add, in = ce, b.s
		}
	} else {
		r := a.acc(a.data(s), v)
		if r == nil || !r.whole {
			return shortT(v) + " is not put together by adding at the end"
		}
		if !emptyText(k, s, r.init) {
			return "starts with " + shortT(r.init)
		}
		add, in = r.elem, r.s
	}
	if add == nil {
		return "there is no round"
	}
	ci := a.ctx(in, c.more...)
	e := ci.normAt(add)
	if e == nil {
		return "adds an element that is not known"
	}
	i := nodeAt(e)
	if i == nil {
		return "adds " + shortT(e)
	}
	first := a.inRound(l, i, k.num(0))
	by, isC := k.sub(a.inRound(l, i, k.num(1)), first).intVal()
	n := a.rounds(l)
	if !isC || by != 1 || n == nil {
		return "does not go from each word to the next"
	}
	if !c.eq(first, begin) {
		return "starts at word " + shortT(first)
	}
	for _, b := range l.backs {
		if !a.ctx(b.s, c.more...).ge0(k.sub(k.sub(end, k.num(1)), i)) {
			return "can take a word behind those joined"
		}
	}
	if !c.ge0(k.sub(n, k.sub(end, begin))) {
		return "can stop before the last word"
	}
	return ""
}

// ---- the cheapest node over a range -----------------------------------------------

func (x *joinCheck) minimum() {
	w := x.w
	lt := w.typ("", "Lattice")
	f := w.must(w.method("", "Lattice", "GetMinimumNode"), "Lattice.GetMinimumNode")
	who := w.fname(f)
	x.r.oblige(who + ": the cheapest node from begin to end")
	k := newAI(w, aclient{})
	a := newArrTrack(k, func(t types.Type) bool { return false })
	nodeP := func(t types.Type) bool { return isPtrTo(t, x.node) }
	k.cl.load = nil
	list := func(s *astate) *T {
		recv := s.stack[0].env[f.Params[0]]
		return k.elemAt(s, k.ldf(s, recv, lt, "endLists"), s.stack[0].env[f.Params[2]])
	}
	nodesOf := w.method("", "Lattice", "GetNodes")
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if nodesOf == nil || callee != nodesOf {
			return nil, false, true
		}
		fr := s.stack[0]
		if args[0] != fr.env[f.Params[0]] || args[1] != fr.env[f.Params[1]] || args[2] != fr.env[f.Params[2]] {
			return nil, false, true
		}
		x.between(nodesOf)
		return []*T{k.mk(&T{op: "res", s: "between", typ: callee.Signature.Results().At(0).Type(), args: args})}, true, false
	}
	type mloop struct {
		l    listLoop
		best *T
		min  *T
		top  bool // min starts above every cost
		ok   bool
	}
	loops := map[*arrLoop]*mloop{}
	headWas := k.cl.head
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		headWas(k, s, h)
		l := a.data(s).log[len(a.data(s).log)-1].loop
		m := &mloop{}
		loops[l] = m
		var ok bool
		if m.l, ok = k.listLoopOf(s, h, nodeP); !ok || m.l.list == nil {
			x.bad(k, s, "loop", w.pos(f.Pos()), who+" has a loop that does not go through a list of nodes")
			return
		}
		if m.l.list != list(s) && !(m.l.list.op == "res" && m.l.list.s == "between") {
			x.bad(k, s, "list", w.pos(f.Pos()), fmt.Sprintf("%s goes through %s, not through the nodes that end there", who, shortT(m.l.list)))
		}
		for _, p := range phisOf(h) {
			t := s.top().env[p]
			switch {
			case l.init[t] == nil:
			case nodeP(t.typ):
				m.best = t
				if l.init[t].op != "nil" {
					x.bad(k, s, "start", w.pos(f.Pos()), fmt.Sprintf("%s starts with %s", who, shortT(l.init[t])))
				}
			case isInteger(t.typ) && t != m.l.phi:
				m.min = t
				if n, ok := l.init[t].intVal(); ok && n > 32767 {
					m.top = true
				}
			}
		}
	}
	backWas := k.cl.back
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		backWas(k, s, h)
		var l *arrLoop
		for _, e := range a.data(s).log {
			if e.kind == "loop" && e.loop.h == h {
				l = e.loop
			}
		}
		m := loops[l]
		if m == nil || m.l.list == nil {
			return
		}
		x.r.count("rounds for the cheapest node", 1)
		at := w.pos(f.Pos())
		if !k.stepsByOne(s, m.l) {
			x.bad(k, s, "step", at, who+" does not go through all nodes")
			return
		}
		if m.best == nil {
			return
		}
		b := l.backs[len(l.backs)-1]
		cur := k.elemAt(s, m.l.list, k.index(m.l))
		cost := k.ldf(s, cur, x.node, "cost")
		begins := k.truth(s, k.eq(k.ldf(s, cur, x.node, "Begin"), s.stack[0].env[f.Params[1]]))
		if m.l.list.op == "res" {
			begins = 1
		}
		bar := k.ldf(s, m.best, x.node, "cost")
		wide := func(t *T) *T {
			for t.op == "conv" && isInteger(t.typ) && t.args[0].typ != nil && isInteger(t.args[0].typ) {
				t = t.args[0]
			}
			return t
		}
		// what the cost is compared with: the kept one, or the best node's
		bars := []*T{bar}
		if m.min != nil {
			bars = append(bars, m.min)
		}
		cheaper, dearer := false, false
		for _, y := range bars {
			r := k.rangeOf(s, k.sub(cost, y))
			cheaper = cheaper || r.hi <= 0
			dearer = dearer || r.lo >= 0
		}
		none := k.nonNil(s, m.best)
		switch nx := b.next[m.best]; {
		case nx == cur:
			if begins != 1 {
				x.bad(k, s, "begin", at, who+" can take a node that begins elsewhere")
			}
			if none != -1 && !cheaper {
				x.bad(k, s, "dearer", at, who+" can take a node that is not cheaper than the one it has")
			}
			if m.min != nil && wide(b.next[m.min]) != cost {
				x.bad(k, s, "kept", at, fmt.Sprintf("%s keeps %s as the cost of the node it takes", who, shortT(b.next[m.min])))
			}
		case nx == m.best:
			if m.min != nil && b.next[m.min] != m.min && !(begins == -1) {
				x.bad(k, s, "kept", at, fmt.Sprintf("%s keeps %s as the cost of a node it does not take", who, shortT(b.next[m.min])))
			}
			if m.min != nil && begins == -1 && b.next[m.min] != m.min {
				x.bad(k, s, "kept", at, fmt.Sprintf("%s keeps %s as the cost of a node it does not take", who, shortT(b.next[m.min])))
			}
			if begins != -1 && !(dearer && (none == 1 || m.top)) {
				x.bad(k, s, "passed", at, who+" can pass over a node that is the cheapest so far")
			}
		default:
			x.bad(k, s, "other", at, fmt.Sprintf("%s goes on with %s", who, shortT(nx)))
		}
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		var l *arrLoop
		for _, e := range a.data(s).log {
			if e.kind == "loop" {
				l = e.loop
			}
		}
		if l == nil {
			some := list(s)
			for key := range s.bnd {
				walkT(key, func(u *T) bool {
					if u.op == "res" && u.s == "between" {
						some = u
					}
					return true
				})
			}
			if res[0].op != "nil" || !k.gone(s, nil, some) {
				x.bad(k, s, "unseen", w.posOf(at), who+" can answer without having looked at the nodes")
			}
			return
		}
		m := loops[l]
		if m.l.list == nil {
			return
		}
		if m.best == nil || res[0] != m.best {
			x.bad(k, s, "answer", w.posOf(at), fmt.Sprintf("%s gives %s, not the cheapest node", who, shortT(res[0])))
		} else if !k.gone(s, &m.l, m.l.list) {
			x.bad(k, s, "stops", w.posOf(at), who+" can stop before it has seen all nodes")
		}
	}
	k.run(f, func(s *astate) {
		s.data = &arrState{phi: map[*T]*arrLoop{}, bld: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	x.r.floor("rounds for the cheapest node", 2)
}

// between: GetNodes gives the nodes that end there and begin at its argument.
func (x *joinCheck) between(f *ssa.Function) {
	w := x.w
	if x.seen["between"] {
		return
	}
	x.seen["between"] = true
	lt := w.typ("", "Lattice")
	who := w.fname(f)
	k := newAI(w, aclient{})
	a := newArrTrack(k, func(t types.Type) bool { return false })
	k.cl.load = nil
	loops := map[*arrLoop]*listLoop{}
	curs := map[*arrLoop]*T{}
	begs := map[*arrLoop]*T{}
	headWas := k.cl.head
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		headWas(k, s, h)
		l := a.data(s).log[len(a.data(s).log)-1].loop
		recv := s.stack[0].env[f.Params[0]]
		list := k.elemAt(s, k.ldf(s, recv, lt, "endLists"), s.stack[0].env[f.Params[2]])
		if ll, ok := k.listLoopOf(s, h, func(t types.Type) bool { return isPtrTo(t, x.node) }); ok && ll.list == list {
			loops[l] = &ll
			curs[l] = k.elemAt(s, list, k.index(ll))
			begs[l] = k.ldf(s, curs[l], x.node, "Begin")
		}
	}
	backWas := k.cl.back
	steps := map[*arrLoop]bool{}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		backWas(k, s, h)
		for _, e := range a.data(s).log {
			if e.kind == "loop" && e.loop.h == h && loops[e.loop] != nil && !k.stepsByOne(s, *loops[e.loop]) {
				steps[e.loop] = true
			}
		}
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		s2 := s.clone(k)
		k.later = append(k.later, func() {
			d := a.data(s2)
			l := d.phi[res[0]]
			ok := l != nil && loops[l] != nil && !steps[l] && k.gone(s2, loops[l], loops[l].list) && emptyText(k, s2, l.init[res[0]])
			if ok {
				for _, b := range l.backs {
					cur := curs[l]
					nx := b.next[res[0]]
					begins := k.truth(b.s, k.eq(begs[l], b.s.stack[0].env[f.Params[1]]))
					took := nx.op == "append1" && nx.args[0] == res[0] && len(nx.args) == 2 && nx.args[1] == cur
					ok = ok && (took && begins == 1 || nx == res[0] && begins == -1)
				}
			}
			if !ok {
				x.bad(k, s2, "between", w.posOf(at), fmt.Sprintf("%s, which is used to find the cheapest node, does not give exactly the nodes from begin to end", who))
			}
		})
	}
	k.run(f, func(s *astate) {
		s.data = &arrState{phi: map[*T]*arrLoop{}, bld: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	for _, g := range k.later {
		g()
	}
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// ---- the plugins change the path only by joining ------------------------------------

func (x *joinCheck) plugins() {
	w := x.w
	joins := map[*ssa.Function]bool{w.pkgFunc("", "ConcatenateNodes"): true, w.pkgFunc("", "ConcatenateOov"): true}
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isPtrTo(sl.Elem(), x.node)
	}
	n := 0
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, who string)
	visit = func(f *ssa.Function, who string) {
		if seen[f] || joins[f] || len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath {
			return
		}
		seen[f] = true
		x.r.count("functions of the plugins", 1)
		say := func(in ssa.Instruction, what string) {
			x.bad(nil, nil, "effect:"+w.fname(f), w.posOf(in), fmt.Sprintf("%s, which %s uses, changes %s other than by joining words", w.fname(f), who, what))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if _, ok := addrBase(in.Addr).(*ssa.Alloc); ok {
						if ia, ok := in.Addr.(*ssa.IndexAddr); !ok || !isList(ia.X.Type()) {
							break
						}
					}
					switch ad := in.Addr.(type) {
					case *ssa.IndexAddr:
						if isList(ad.X.Type()) {
							say(in, "the path")
						}
					case *ssa.FieldAddr:
						if o := namedOf(ad.X.Type()); o == x.node || o == x.winfo {
							say(in, "a node")
						}
					default:
						if pt, ok := ad.Type().Underlying().(*types.Pointer); ok && isList(pt.Elem()) {
							say(in, "the path")
						}
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear") && isList(in.Common().Args[0].Type()) {
						if c, ok := in.Common().Args[0].(*ssa.Const); !ok || !c.IsNil() {
							say(in, "the path")
						}
					}
					for _, g := range w.callees(in) {
						visit(g, who)
					}
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function), who)
				}
			}
		}
	}
	for _, f := range w.allFns {
		if f.Name() != "Rewrite" || f.Signature.Recv() == nil || f.Signature.Params().Len() != 3 || f.Synthetic != "" {
			continue
		}
		pt, ok := f.Signature.Params().At(1).Type().Underlying().(*types.Pointer)
		if !ok || !isList(pt.Elem()) {
			continue
		}
		n++
		x.r.oblige(w.fname(f) + " changes the path only by joining words")
		visit(f, w.fname(f))
	}
	if n == 0 {
		x.bad(nil, nil, "no plugin", w.pos(joins2(joins).Pos()), "no path rewrite plugin was found")
	}
	x.r.floor("functions of the plugins", 2)
}

func joins2(m map[*ssa.Function]bool) *ssa.Function {
	for f := range m {
		return f
	}
	return nil
}
