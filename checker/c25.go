package main

// C25: the unknown words offered are the ones configured.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C25", "abstract interpretation (typestate per category, length and entry; induction over the loops that offer words; value numbering of words and of what is read from the definition files)", checkUnknown)
}

type unkCheck struct {
	w    *World
	r    *Report
	seen map[string]bool
}

func (x *unkCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "unknown words", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkUnknown(w *World, r *Report) {
	x := &unkCheck{w: w, r: r, seen: map[string]bool{}}
	x.offered()
	x.simple()
	x.setUpSimple()
	x.setUpMeCab()
	x.readFile("readCharacterProperty")
	x.readFile("readOov")
	r.floor("words compared", 3)
	r.floor("rounds over categories", 2)
	r.floor("definitions compared", 2)
	r.floor("settings compared", 5)
}

// place: the methods of the text, as functions of the place.
func (x *unkCheck) place(k *ai) func(callee *ssa.Function, args []*T) ([]*T, bool) {
	w := x.w
	m := map[*ssa.Function]string{}
	for _, n := range []string{"GetCharCategoryContinuousLength", "GetCharCategoryTypes", "GetCodePointsOffsetLength", "GetSubstring"} {
		m[w.must(w.method("", "InputText", n), "InputText."+n)] = n
	}
	return func(callee *ssa.Function, args []*T) ([]*T, bool) {
		n, ok := m[callee]
		if !ok {
			return nil, false
		}
		return []*T{k.mk(&T{op: "prim", s: n, typ: callee.Signature.Results().At(0).Type(), args: args})}, true
	}
}

// word: what is wrong with the node of an unknown word of the given length.
func (x *unkCheck) word(k *ai, s *astate, n, in, at, size *T, param func(name string) *T) string {
	w := x.w
	nt, wt := w.typ("", "LatticeNode"), w.typ("dictionary", "WordInfo")
	x.r.count("words compared", 1)
	if n.op != "alloc" || namedOf(n.typ) != nt {
		return "is not a new node"
	}
	for _, p := range []string{"leftId", "rightId", "cost"} {
		if v := k.ldf(s, n, nt, p); k.equal(s, v, param(p)) != 1 {
			return fmt.Sprintf("has %s as its %s", shortT(v), p)
		}
	}
	if v := k.ldf(s, n, nt, "IsOov"); k.truth(s, v) != 1 {
		return "is not marked as unknown"
	}
	wi := k.ldf(s, n, nt, "extraWordInfo")
	if wi.op != "alloc" || namedOf(wi.typ) != wt || k.truth(s, k.ldf(s, n, nt, "isDefined")) != 1 {
		return "has no information of its own"
	}
	g := func(n string) *T { return k.ldf(s, wi, wt, n) }
	if v := g("HeadwordLength"); k.equal(s, v, k.convert(s, size, types.Typ[types.Int], types.Typ[types.Int16])) != 1 {
		return fmt.Sprintf("has %s as its length", shortT(v))
	}
	for _, n := range []string{"Surface", "NormalizedForm", "DictionaryForm"} {
		v := g(n)
		if v.op != "prim" || v.s != "GetSubstring" || v.args[0] != in || k.equal(s, v.args[1], at) != 1 || k.equal(s, v.args[2], k.add(at, size)) != 1 {
			return fmt.Sprintf("has %s as its %s, not the text it covers", shortT(v), n)
		}
	}
	if v, ok := g("ReadingForm").strVal(); !ok || v != "" {
		return "has a reading"
	}
	if v, ok := g("DictionaryFormWordId").intVal(); !ok || v != -1 {
		return "has a word of the dictionary as its dictionary form"
	}
	if v := g("PosId"); k.equal(s, v, param("posId")) != 1 {
		return fmt.Sprintf("has %s as its part of speech", shortT(v))
	}
	st := wt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch n := st.Field(i).Name(); n {
		case "Surface", "HeadwordLength", "PosId", "NormalizedForm", "DictionaryFormWordId", "DictionaryForm", "ReadingForm":
		default:
			v := g(n)
			if v.op == "nil" || v == k.zeroOf(st.Field(i).Type()) {
				continue
			}
			if _, isS := st.Field(i).Type().Underlying().(*types.Slice); isS && k.rangeOf(s, k.lenOf(s, v)).hi <= 0 {
				continue
			}
			return fmt.Sprintf("has %s as its %s", shortT(v), n)
		}
	}
	return ""
}

// ---- the words of the categories --------------------------------------------------

// A wordList is what was appended to base at in, or list.
type wordList struct {
	base *T
	in   ssa.Instruction
	list *T
}

type unkState struct {
	wordList            // the words so far
	outer    []wordList // and those they are to be appended to
	phis     map[*ssa.BasicBlock]*ssa.Phi
	heads    map[*ssa.BasicBlock]string // the lists where a loop without a list of its own begins

	catH *ssa.BasicBlock
	cat  *T
	catP *ssa.Phi
	cntH *ssa.BasicBlock
	cntP *ssa.Phi
	size *ssa.Phi
	num  *T // how many characters
	l    *listLoop
	oovs *T
	inC  bool // the words of one length (else: of the whole run)
	made int
	grp  bool // the whole run has been offered
	cnt  bool // the lengths have been gone through (or begun to)
	did  bool // this length has been offered
}

func (d *unkState) clone() *unkState {
	n := *d
	n.outer = append([]wordList{}, d.outer...)
	n.phis = map[*ssa.BasicBlock]*ssa.Phi{}
	for a, b := range d.phis {
		n.phis[a] = b
	}
	n.heads = map[*ssa.BasicBlock]string{}
	for a, b := range d.heads {
		n.heads[a] = b
	}
	return &n
}

// lists: which lists are being filled.
func (d *unkState) lists() string {
	r := ""
	for _, l := range append(append([]wordList{}, d.outer...), d.wordList) {
		r += fmt.Sprintf("%p %p %p;", l.base, l.in, l.list)
	}
	return r
}

func (x *unkCheck) offered() {
	w := x.w
	pt := w.typ("", "MeCabOovProviderPlugin")
	ct, ot := w.typ("", "categoryInfo"), w.typ("", "oov")
	nt := w.typ("", "LatticeNode")
	f := w.must(w.method("", "MeCabOovProviderPlugin", "ProvideOOV"), "MeCabOovProviderPlugin.ProvideOOV")
	who := w.fname(f)
	x.r.oblige(who + ": every word configured for the place, and no other")
	if len(f.Params) != 4 {
		x.bad(nil, nil, "shape:"+who, w.pos(f.Pos()), who+" does not take a text, a place and whether there are other words")
		return
	}
	cval := func(name string) constant.Value {
		c, ok := w.spkg[w.rel("dictionary")].Pkg.Scope().Lookup(name).(*types.Const)
		if !ok {
			panic("no constant dictionary." + name)
		}
		return c.Val()
	}
	k := newAI(w, aclient{})
	k.keep = true
	prims := x.place(k)
	u32, intT := types.Typ[types.Uint32], types.Typ[types.Int]
	first, last := k.cst(cval("DEFAULT"), u32), k.cst(cval("NOOOVBOW"), u32)
	isNodes := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(sl.Elem()) == nt
	}
	appends := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && isNodes(c.Type())
	})
	offers := func(h *ssa.BasicBlock) bool {
		for b := range k.loop(h) {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if b, isB := c.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" && isNodes(c.Value().Type()) {
						return true
					}
					if g := c.Common().StaticCallee(); g != nil && appends[g] && w.inModule(g) {
						return true
					}
				}
			}
		}
		return false
	}
	par := func(s *astate, i int) *T { return s.stack[0].env[f.Params[i]] }
	empty := func(s *astate, t *T) bool { return t.op == "nil" || k.rangeOf(s, k.lenOf(s, t)).hi <= 0 }
	isThe := func(s *astate, l wordList, t *T) bool {
		if l.in != nil {
			return (t.op == "append1" || t.op == "appendn") && t.in == l.in && t.args[0] == l.base || l.list != nil && t == l.list
		}
		if l.list != nil {
			return t == l.list
		}
		return empty(s, t)
	}
	isList := func(s *astate, t *T) bool { return isThe(s, s.data.(*unkState).wordList, t) }
	prim := func(n string, t types.Type, args ...*T) *T {
		return k.mk(&T{op: "prim", s: n, typ: t, args: args})
	}
	run := func(s *astate) *T { return prim("GetCharCategoryContinuousLength", intT, par(s, 1), par(s, 2)) }
	sizeOf := func(s *astate, n *T) *T { return prim("GetCodePointsOffsetLength", intT, par(s, 1), par(s, 2), n) }
	other := func(s *astate) int { return k.truth(s, par(s, 3)) }
	// whether the plugin has something under the category, and what
	entry := func(s *astate, field string) (has int, vs []*T) {
		d := s.data.(*unkState)
		m := k.ldf(s, par(s, 0), pt, field)
		for _, t := range append([]*T{}, k.all...) {
			if (t.op == "haskey" || t.op == "load") && t.args[0].op == "idx" && t.args[0].args[0] == m && t.args[0].args[1] == d.cat {
				r := 0
				if t.op == "haskey" {
					r = k.truth(s, t)
				} else {
					vs = append(vs, t)
					r = k.nonNil(s, t)
				}
				if r != 0 {
					has = r
				}
			}
		}
		return
	}
	flag := func(s *astate, name string) int {
		_, vs := entry(s, "categories")
		for _, v := range vs {
			if t := k.truth(s, k.ldf(s, v, ct, name)); t != 0 {
				return t
			}
		}
		return 0
	}
	and := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	or := func(a, b int) int { return -and(-a, -b) }
	alone := func(s *astate) int { return or(flag(s, "isInvoke"), -other(s)) }
	whole := func(s *astate) int { return and(flag(s, "isGroup"), alone(s)) }
	present := func(s *astate) int {
		d := s.data.(*unkState)
		c := prim("GetCharCategoryTypes", u32, par(s, 1), par(s, 2))
		a := k.bin(token.AND, c, d.cat, u32)
		r := k.truth(s, k.eq(a, d.cat))
		if r == 0 {
			r = -k.truth(s, k.eq(a, k.cst(constant.MakeInt64(0), u32)))
		}
		h1, _ := entry(s, "categories")
		h2, _ := entry(s, "oovList")
		return and(r, and(h1, h2))
	}
	// within: 1 so many bytes are not too many, -1 they are
	within := func(s *astate, n *T) int {
		d := s.data.(*unkState)
		lim := run(s)
		if d.grp {
			lim = k.sub(lim, k.num(1))
		}
		return -k.truth(s, k.lt(lim, n))
	}
	upTo := func(s *astate, n *T) int {
		_, vs := entry(s, "categories")
		for _, v := range vs {
			if t := k.truth(s, k.lt(k.ldf(s, v, ct, "length"), n)); t != 0 {
				return -t
			}
		}
		return 0
	}
	loops := func(s *astate, t *T) bool { // the list of the category's words
		if t == nil {
			return false
		}
		_, vs := entry(s, "oovList")
		for _, v := range vs {
			if t == v || t.op == "load" && t.args[0] == v {
				return true
			}
		}
		return false
	}
	settleList := func(s *astate, at string) {
		d := s.data.(*unkState)
		if d.l == nil {
			return
		}
		if !k.gone(s, d.l, d.oovs) {
			x.bad(k, s, "early", at, who+" can leave out configured words")
		}
		if d.inC {
			d.did = true
		}
		d.l = nil
	}
	settleCnt := func(s *astate, at string) {
		d := s.data.(*unkState)
		settleList(s, at)
		if d.cntH == nil {
			return
		}
		if d.did || upTo(s, d.num) != -1 && within(s, sizeOf(s, d.num)) != -1 {
			x.bad(k, s, "shorter", at, who+" can stop before all configured lengths that are within the run have been offered")
		}
		d.cntH = nil
	}
	settleCat := func(s *astate, at string) {
		d := s.data.(*unkState)
		settleCnt(s, at)
		x.r.count("rounds over categories", 1)
		switch present(s) {
		case -1:
			return // that nothing has been offered is checked there
		case 0:
			x.bad(k, s, "category", at, who+" can pass over a category without having found out whether the character has it and words are configured for it")
			return
		}
		if t := whole(s); t == 0 || t == 1 && !d.grp {
			x.bad(k, s, "whole", at, who+" can leave out the whole run of a category that is to be grouped")
		}
		if t := alone(s); t == 0 || t == 1 && !d.cnt {
			x.bad(k, s, "lengths", at, who+" can leave out the words of the configured lengths")
		}
	}
	k.cl.clone = func(d any) any { return d.(*unkState).clone() }
	k.cl.key = func(d any) string {
		y := d.(*unkState)
		id := func(t *T) int {
			if t == nil {
				return -1
			}
			return t.id
		}
		return fmt.Sprint(y.lists(), id(y.list), len(y.phis), y.catH, y.cntH, y.l != nil, id(y.oovs), y.inC, y.made, y.grp, y.cnt, y.did)
	}
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*unkState)
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || !isNodes(c.Value().Type()) {
				return nil, false, true
			}
			at := w.posOf(c)
			if n := len(d.outer); n > 0 && isList(s, args[1]) && isThe(s, d.outer[n-1], args[0]) {
				// what has been collected is added to the rest
				d.outer = d.outer[:n-1]
				d.wordList = wordList{base: args[0], in: c}
				return nil, false, true
			}
			if isList(s, args[0]) && empty(s, args[1]) {
				d.wordList = wordList{base: args[0], in: c, list: args[0]}
				return nil, false, true
			}
			if !isList(s, args[0]) && empty(s, args[0]) && len(d.outer) < 3 {
				d.outer = append(d.outer, d.wordList)
			} else if !isList(s, args[0]) {
				x.bad(k, s, "lost", at, who+" goes on with another list than the words offered so far")
			}
			es := k.elemsOf(s, args[1])
			if len(es) != 1 || d.l == nil {
				x.bad(k, s, "outside", at, who+" offers words otherwise than one for each one configured")
			} else {
				e := k.elemAt(s, d.oovs, k.index(*d.l))
				size := run(s)
				if d.inC {
					size = sizeOf(s, d.num)
				}
				if msg := x.word(k, s, es[0], par(s, 1), par(s, 2), size, func(n string) *T { return k.ldf(s, e, ot, n) }); msg != "" {
					x.bad(k, s, "word", at, fmt.Sprintf("a word %s offers %s", who, msg))
				}
			}
			d.wordList = wordList{base: args[0], in: c}
			d.made++
			return nil, false, true
		}
		if callee != nil {
			if res, ok := prims(callee, args); ok {
				return res, true, false
			}
		}
		return nil, false, true
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*unkState)
		fr := s.top()
		at := w.pos(h.Parent().Pos())
		delete(d.phis, h)
		for _, p := range phisOf(h) {
			if t := fr.env[p]; isNodes(p.Type()) && t.op == "sym" && t.hdr == h {
				if e := k.edgeVal(s, p); e != nil && isList(s, e) {
					d.phis[h] = p
					d.wordList = wordList{list: t}
				}
			}
		}
		if !offers(h) {
			return
		}
		for _, p := range phisOf(h) {
			if t := fr.env[p]; d.phis[h] == nil && isNodes(p.Type()) && t.op == "sym" && t.hdr == h && len(d.outer) < 3 {
				if e := k.edgeVal(s, p); e != nil && empty(s, e) {
					// collected on their own
					d.outer = append(d.outer, d.wordList)
					d.phis[h] = p
					d.wordList = wordList{list: t}
				}
			}
		}
		d.heads[h] = d.lists()
		if d.catH == nil {
			for _, p := range phisOf(h) {
				t := fr.env[p]
				if e := k.edgeVal(s, p); e != nil && e == first && t.op == "sym" && t.hdr == h {
					d.cat, d.catP, d.catH = t, p, h
				}
			}
			if d.catH == nil {
				x.bad(k, s, "order", at, who+" does not go through the categories one by one, from the first")
				d.catH, d.cat = h, k.sym("category", u32)
			}
			return
		}
		if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && namedOf(t) == ot }); ok {
			inC := d.cntH != nil && s.inLoop(d.cntH)
			if !inC {
				settleCnt(s, at)
			}
			settleList(s, at)
			if !loops(s, l.list) || present(s) != 1 {
				x.bad(k, s, "words", at, who+" offers words that may not be those configured for a category of the character")
				return
			}
			if inC {
				if d.did {
					x.bad(k, s, "twice", at, who+" can offer words of one length twice")
				}
				if alone(s) != 1 {
					x.bad(k, s, "uncalled", at, who+" can offer words of a category that is not to be used here")
				}
				if upTo(s, d.num) != 1 || within(s, sizeOf(s, d.num)) != 1 {
					x.bad(k, s, "longer", at, who+" can offer words longer than configured, or than the run")
				}
			} else {
				if d.grp || d.cnt {
					x.bad(k, s, "twice", at, who+" can offer the whole run twice, or behind its beginnings")
				}
				if whole(s) != 1 {
					x.bad(k, s, "uncalled", at, who+" can offer the whole run where that is not configured")
				}
				d.grp = true
			}
			d.l, d.oovs, d.inC, d.made = &l, l.list, inC, 0
			return
		}
		// the lengths
		settleCnt(s, at)
		for _, p := range phisOf(h) {
			t := fr.env[p]
			if e, ok := k.edgeVal(s, p).intVal(); ok && isIntT(p.Type()) && t.op == "sym" && t.hdr == h {
				for i, pb := range h.Preds {
					if b, n := linear(p.Edges[i]); k.loop(h)[pb] && b == p && n == 1 {
						d.cntP, d.num = p, k.add(t, k.num(1-e))
						d.cntH = h
					}
				}
			}
		}
		if d.cntH == nil || d.cnt {
			x.bad(k, s, "lengths", at, who+" does not go through the lengths one by one, once")
			d.cntH, d.num = h, k.sym("length", intT)
		} else {
			// a number that goes along with the lengths
			d.size = nil
			for _, p := range phisOf(h) {
				if t := fr.env[p]; isIntT(p.Type()) && t.op == "sym" && t.hdr == h && p != d.cntP && k.edgeVal(s, p) == sizeOf(s, k.num(1)) {
					d.size = p
					fr.env[p] = sizeOf(s, d.num)
				}
			}
		}
		d.cnt, d.did = true, false
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*unkState)
		at := w.pos(h.Parent().Pos())
		if p := d.phis[h]; p != nil {
			if e := k.edgeVal(s, p); e == nil || !isList(s, e) {
				x.bad(k, s, "lost", at, who+" can go on without the words it has offered")
			}
			d.wordList = wordList{list: s.top().env[p]}
		}
		if l, ok := d.heads[h]; ok && l != d.lists() {
			x.bad(k, s, "lost", at, who+" can go on without the words it has offered")
		}
		switch {
		case d.l != nil && d.l.h == h:
			if d.made != 1 || !k.stepsByOne(s, *d.l) {
				x.bad(k, s, "each", at, who+" can leave out a configured word, or offer it twice")
			}
		case d.cntH == h:
			settleList(s, at)
			n, ok := k.sub(k.edgeVal(s, d.cntP), s.top().env[d.cntP]).intVal()
			if !d.did || !ok || n != 1 || d.size != nil && k.equal(s, k.edgeVal(s, d.size), sizeOf(s, k.add(d.num, k.num(1)))) != 1 {
				x.bad(k, s, "length", at, who+" can pass over a length")
			}
		case d.catH == h:
			settleCat(s, at)
			n := k.edgeVal(s, d.catP)
			c := d.cat
			if n != k.bin(token.MUL, c, k.cst(constant.MakeInt64(2), u32), u32) && n != k.bin(token.SHL, c, k.num(1), u32) &&
				n != k.bin(token.SHL, c, k.cst(constant.MakeInt64(1), types.Typ[types.Uint]), u32) && n != k.bin(token.ADD, c, c, u32) {
				x.bad(k, s, "order", at, who+" does not go on to the next category")
			}
		}
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		d := s.data.(*unkState)
		pos := w.posOf(at)
		if k.nonNil(s, res[1]) != -1 {
			x.bad(k, s, "fails", pos, who+" can fail")
			return
		}
		if !isList(s, res[0]) || len(d.outer) > 0 {
			x.bad(k, s, "lost", pos, who+" gives another list than the words it has offered")
		}
		if d.catH == nil {
			if k.rangeOf(s, run(s)).hi > 0 {
				x.bad(k, s, "none", pos, who+" can give nothing without having looked")
			}
			return
		}
		if d.l != nil || d.cntH != nil || k.truth(s, k.lt(last, d.cat)) != 1 {
			x.bad(k, s, "last", pos, who+" can stop before the last category")
		}
	}
	k.run(f, func(s *astate) {
		s.data = &unkState{phis: map[*ssa.BasicBlock]*ssa.Phi{}, heads: map[*ssa.BasicBlock]string{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// ---- the simple provider ---------------------------------------------------------------

func (x *unkCheck) simple() {
	w := x.w
	pt := w.typ("", "SimpleOovProviderPlugin")
	f := w.must(w.method("", "SimpleOovProviderPlugin", "ProvideOOV"), "SimpleOovProviderPlugin.ProvideOOV")
	who := w.fname(f)
	x.r.oblige(who + ": one character, if there is nothing else")
	k := newAI(w, aclient{})
	k.keep = true
	prims := x.place(k)
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee != nil {
			if res, ok := prims(callee, args); ok {
				return res, true, false
			}
		}
		return nil, false, true
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		pos := w.posOf(at)
		par := func(i int) *T { return s.stack[0].env[f.Params[i]] }
		if k.nonNil(s, res[1]) != -1 {
			x.bad(k, s, "fails:"+who, pos, who+" can fail")
			return
		}
		size := k.mk(&T{op: "prim", s: "GetCodePointsOffsetLength", typ: types.Typ[types.Int], args: []*T{par(1), par(2), k.num(1)}})
		switch k.truth(s, par(3)) {
		case 0:
			x.bad(k, s, "regardless:"+who, pos, who+" gives words whether or not there are others")
		case 1:
			if k.rangeOf(s, k.lenOf(s, res[0])).hi > 0 {
				x.bad(k, s, "uncalled:"+who, pos, who+" can offer words though there are others")
			}
			x.r.count("words compared", 1)
		default:
			es := k.elemsOf(s, res[0])
			if len(es) != 1 {
				x.bad(k, s, "one:"+who, pos, who+" does not give exactly one word")
				return
			}
			field := map[string]string{"posId": "oovPosId"}
			msg := x.word(k, s, es[0], par(1), par(2), size, func(n string) *T {
				if f := field[n]; f != "" {
					n = f
				}
				return k.ldf(s, par(0), pt, n)
			})
			if msg != "" {
				x.bad(k, s, "word:"+who, pos, fmt.Sprintf("the word %s offers %s", who, msg))
			}
		}
	}
	x.drive(k, f, nil)
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func (x *unkCheck) drive(k *ai, f *ssa.Function, init func(s *astate)) {
	k.run(f, func(s *astate) {
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		if init != nil {
			init(s)
		}
	})
}

// ---- settings --------------------------------------------------------------------------------

func (x *unkCheck) setUpSimple() {
	w := x.w
	pt, ct := w.typ("", "SimpleOovProviderPlugin"), w.typ("", "SimpleOovProviderPluginConfig")
	f := w.must(w.method("", "SimpleOovProviderPlugin", "SetUp"), "SimpleOovProviderPlugin.SetUp")
	posId := w.must(w.method("dictionary", "Grammar", "GetPartOfSpeechId"), "Grammar.GetPartOfSpeechId")
	who := w.fname(f)
	x.r.oblige(who + ": each setting at its own place")
	k := newAI(w, aclient{})
	k.keep = true
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee == posId {
			return []*T{k.mk(&T{op: "prim", s: "pos", typ: types.Typ[types.Int16], args: args})}, true, false
		}
		return nil, false, true
	}
	want := map[string]*T{}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[0]) == 1 {
			return
		}
		n++
		recv := s.stack[0].env[f.Params[0]]
		for _, m := range []string{"oovPosId", "leftId", "rightId", "cost"} {
			x.r.count("settings compared", 1)
			v := k.ldf(s, recv, pt, m)
			if k.equal(s, v, want[m]) != 1 {
				x.bad(k, s, "setting:"+m, w.posOf(at), fmt.Sprintf("%s takes %s for %s", who, shortT(v), m))
			}
		}
		if k.rangeOf(s, want["oovPosId"]).lo < 0 && k.truth(s, k.eq(want["oovPosId"], k.cst(constant.MakeInt64(-1), types.Typ[types.Int16]))) != -1 {
			x.bad(k, s, "unknown pos", w.posOf(at), who+" accepts a part of speech the grammar does not have")
		}
	}
	x.drive(k, f, func(s *astate) {
		recv := s.top().env[f.Params[0]]
		cfg := k.ldf(s, recv, pt, "config")
		deref := func(n string) *T {
			p := k.ldf(s, cfg, ct, n)
			return k.load(s, p, p.typ.Underlying().(*types.Pointer).Elem())
		}
		want["leftId"], want["rightId"], want["cost"] = deref("LeftId"), deref("RightId"), deref("Cost")
		want["oovPosId"] = k.mk(&T{op: "prim", s: "pos", typ: types.Typ[types.Int16], args: []*T{s.top().env[f.Params[1]], deref("OovPos")}})
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

type setState struct{ done [2]int }

func (x *unkCheck) setUpMeCab() {
	w := x.w
	pt, ct := w.typ("", "MeCabOovProviderPlugin"), w.typ("", "MeCabOovProviderPluginConfig")
	f := w.must(w.method("", "MeCabOovProviderPlugin", "SetUp"), "MeCabOovProviderPlugin.SetUp")
	rd := []*ssa.Function{
		w.must(w.method("", "MeCabOovProviderPlugin", "readCharacterProperty"), "MeCabOovProviderPlugin.readCharacterProperty"),
		w.must(w.method("", "MeCabOovProviderPlugin", "readOov"), "MeCabOovProviderPlugin.readOov"),
	}
	who := w.fname(f)
	x.r.oblige(who + ": reads both configured files, the categories first")
	k := newAI(w, aclient{})
	k.keep = true
	k.cl.clone = func(d any) any { n := *d.(*setState); return &n }
	k.cl.key = func(d any) string { return fmt.Sprint(d.(*setState).done) }
	var cfg *T
	var given [2]*T
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*setState)
		for i, g := range rd {
			if callee != g {
				continue
			}
			recv := s.stack[0].env[f.Params[0]]
			x.r.count("settings compared", 1)
			v, isC := args[1].strVal()
			ok := args[0] == recv && (args[1] == given[i] || isC && v == "" && k.nonNil(s, k.ldf2(cfg, ct, []string{"CharDef", "UnkDef"}[i])) == -1)
			if i == 1 {
				ok = ok && args[2] == s.stack[0].env[f.Params[1]]
			}
			if !ok {
				x.bad(k, s, "file:"+g.Name(), w.posOf(c), fmt.Sprintf("%s has %s read %s", who, w.fname(g), shortT(args[1])))
			}
			if d.done[i] != 0 || i == 1 && d.done[0] == 0 {
				x.bad(k, s, "order:"+g.Name(), w.posOf(c), who+" does not read the two files one after the other, the categories first")
			}
			d.done[i]++
			return nil, false, false
		}
		return nil, false, true
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[0]) == 1 {
			return
		}
		n++
		if s.data.(*setState).done != [2]int{1, 1} {
			x.bad(k, s, "unread", w.posOf(at), who+" can succeed without having read both files")
		}
	}
	x.drive(k, f, func(s *astate) {
		s.data = &setState{}
		cfg = k.ldf(s, s.top().env[f.Params[0]], pt, "config")
		for i, n := range []string{"CharDef", "UnkDef"} {
			p := k.ldf(s, cfg, ct, n)
			given[i] = k.load(s, p, types.Typ[types.String])
		}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// ldf2: the named field as it was before anything was stored.
func (k *ai) ldf2(p *T, t types.Type, name string) *T {
	i := fieldNo(t, name)
	return k.mk(&T{op: "load", typ: t.Underlying().(*types.Struct).Field(i).Type(), args: []*T{k.fld(p, t, i)}})
}

// ---- the definition files ------------------------------------------------------------------

type defState struct {
	h     *ssa.BasicBlock
	lines int
	line  *T
	added int
	fresh map[*T]*T // lists just put under a key
	base  *T        // the list just appended to, not yet stored back
	in    ssa.Instruction
	own   *T // a new list with the new word, not yet under a key
}

func (d *defState) clone() *defState {
	n := *d
	n.fresh = map[*T]*T{}
	for a, b := range d.fresh {
		n.fresh[a] = b
	}
	return &n
}

func (x *unkCheck) readFile(name string) {
	w := x.w
	pt := w.typ("", "MeCabOovProviderPlugin")
	ct, ot := w.typ("", "categoryInfo"), w.typ("", "oov")
	f := w.must(w.method("", "MeCabOovProviderPlugin", name), "MeCabOovProviderPlugin."+name)
	who := w.fname(f)
	x.r.oblige(who + ": each column at its own place, every line")
	cats := name == "readCharacterProperty"
	ln := "internal/lnreader"
	readLine := w.must(w.method(ln, "LineNumberReader", "ReadLine"), "LineNumberReader.ReadLine")
	skip := w.must(w.pkgFunc(ln, "IsSkipLine"), "lnreader.IsSkipLine")
	catType := w.must(w.pkgFunc("dictionary", "GetCategoryType"), "dictionary.GetCategoryType")
	posId := w.must(w.method("dictionary", "Grammar", "GetPartOfSpeechId"), "Grammar.GetPartOfSpeechId")
	errT := types.Universe.Lookup("error").Type()
	k := newAI(w, aclient{})
	k.keep = true
	k.cl.clone = func(d any) any { return d.(*defState).clone() }
	k.cl.key = func(d any) string {
		y := d.(*defState)
		b := -1
		if y.base != nil {
			b = y.base.id
		}
		return fmt.Sprint(y.h, y.lines, y.added, len(y.fresh), b, y.own != nil)
	}
	prim := func(n string, t types.Type, args ...*T) *T {
		return k.mk(&T{op: "prim", s: n, typ: t, args: args})
	}
	// a column of the line
	col := func(s *astate, t *T) (int, bool) {
		d := s.data.(*defState)
		if t == nil || t.op != "load" || t.args[0].op != "idx" || d.line == nil {
			return 0, false
		}
		i, ok := t.args[0].args[1].intVal()
		l := t.args[0].args[0]
		for l.op == "slice" {
			lo := l.args[1]
			if lo.op != "nil" {
				n, isC := lo.intVal()
				ok = ok && isC
				i += n
			}
			l = l.args[0]
		}
		if !ok || l.op != "res" || len(l.args) == 0 || l.args[0].op != "cast" || l.args[0].args[0] != d.line {
			return 0, false
		}
		if cats {
			return int(i), l.s == "strings.Fields"
		}
		if l.s != "strings.Split" || len(l.args) != 2 {
			return 0, false
		}
		sep, isC := l.args[1].strVal()
		return int(i), isC && sep == ","
	}
	isCol := func(s *astate, t *T, n int) bool {
		i, ok := col(s, t)
		return ok && i == n
	}
	// the error of the call that gave t is known to be nil
	fine := func(s *astate, t *T) bool {
		for _, e := range k.all {
			if e.op == "res" && e.in == t.in && e.s == t.s && e.c0 == 1 && len(e.args) == len(t.args) && k.nonNil(s, e) == -1 {
				return true
			}
		}
		return false
	}
	number := func(s *astate, t *T, n int, bits int64) bool {
		t = stripCast(t)
		if t.op == "conv" || t.op == "convert" {
			t = t.args[0]
		}
		if t.op != "res" || t.c0 != 0 || len(t.args) == 0 || !isCol(s, t.args[0], n) || !fine(s, t) {
			return false
		}
		switch t.s {
		case "strconv.Atoi":
			return bits == 0
		case "strconv.ParseInt":
			b, ok := t.args[1].intVal()
			z, ok2 := t.args[2].intVal()
			return ok && ok2 && b == 10 && (z == bits || bits == 0 && z == 64)
		}
		return false
	}
	notZero := func(s *astate, t *T, n int) bool {
		if v, isB := t.boolVal(); isB {
			// decided by the path
			for _, e := range k.all {
				if e.op == "eq" && (isCol(s, e.args[0], n) && isText(e.args[1], "0") || isCol(s, e.args[1], n) && isText(e.args[0], "0")) {
					if r := k.truth(s, e); r != 0 {
						return v == (r == -1)
					}
				}
			}
			return false
		}
		if t.op != "not" || t.args[0].op != "eq" {
			return false
		}
		a, b := t.args[0].args[0], t.args[0].args[1]
		return isCol(s, a, n) && isText(b, "0") || isCol(s, b, n) && isText(a, "0")
	}
	// the category of the line
	isCat := func(s *astate, t *T) bool {
		return t.op == "prim" && t.s == "category" && isCol(s, t.args[0], 0) && k.nonNil(s, prim("no category", errT, t.args[0])) == -1
	}
	has := func(s *astate, m string, key *T) int {
		r := 0
		for _, t := range append([]*T{}, k.all...) {
			if (t.op == "haskey" || t.op == "load") && t.args[0].op == "idx" && isField(t.args[0].args[0], pt, m) && t.args[0].args[1] == key {
				v := 0
				if t.op == "haskey" {
					v = k.truth(s, t)
				} else if pointerLike(t.typ) {
					v = k.nonNil(s, t)
				}
				if v != 0 {
					r = v
				}
			}
		}
		return r
	}
	entryOf := func(s *astate, at string, v *T) {
		d := s.data.(*defState)
		d.added++
		x.r.count("definitions compared", 1)
		if v.op != "alloc" || namedOf(v.typ) != ot {
			x.bad(k, s, "new:"+who, at, who+" does not add a new word for each line")
			return
		}
		for i, n := range []string{"leftId", "rightId", "cost"} {
			if t := k.ldf(s, v, ot, n); !number(s, t, i+1, 16) {
				x.bad(k, s, "column:"+n, at, fmt.Sprintf("%s takes %s for %s, not column %d", who, shortT(t), n, i+2))
			}
		}
		t := k.ldf(s, v, ot, "posId")
		ok := t.op == "prim" && t.s == "pos" && len(t.args) == 7
		for i := 1; ok && i < 7; i++ {
			ok = isCol(s, t.args[i], i+3)
		}
		if !ok {
			x.bad(k, s, "column:pos", at, fmt.Sprintf("%s takes %s for the part of speech, not that of columns 5 to 10", who, shortT(t)))
		} else if k.rangeOf(s, t).lo < 0 && k.truth(s, k.eq(t, k.cst(constant.MakeInt64(-1), types.Typ[types.Int16]))) != -1 {
			x.bad(k, s, "unknown pos:"+who, at, who+" accepts a part of speech the grammar does not have")
		}
	}
	underKey := func(s *astate, at string, key *T) {
		if !isCat(s, key) {
			x.bad(k, s, "key:"+who, at, fmt.Sprintf("%s files a line under %s, not its category", who, shortT(key)))
		} else if !cats && has(s, "categories", key) != 1 {
			x.bad(k, s, "undefined:"+who, at, who+" accepts words for a category that is not defined")
		}
	}
	isOovs := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(sl.Elem()) == ot
	}
	isOovsPtr := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && isOovs(p.Elem())
	}
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*defState)
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && isOovs(c.Value().Type()) {
				if d.base != nil {
					x.bad(k, s, "lost:"+who, w.posOf(c), who+" can lose a word it has added")
				}
				d.base, d.in = args[0], c
				es := k.elemsOf(s, args[1])
				if len(es) != 1 {
					x.bad(k, s, "one:"+who, w.posOf(c), who+" adds more than a word for a line")
				} else {
					entryOf(s, w.posOf(c), es[0])
				}
			}
			return nil, false, true
		}
		switch callee {
		case readLine:
			d.lines++
			d.line = prim(fmt.Sprintf("line %d", d.lines), callee.Signature.Results().At(0).Type())
			return []*T{d.line, prim(fmt.Sprintf("end %d", d.lines), errT)}, true, false
		case skip:
			return []*T{prim("skip", types.Typ[types.Bool], args...)}, true, false
		case catType:
			return []*T{prim("category", callee.Signature.Results().At(0).Type(), args...), prim("no category", errT, args...)}, true, false
		case posId:
			p := prim("pos", types.Typ[types.Int16], append([]*T{args[0]}, k.elemsOf(s, args[1])...)...)
			if args[1].op == "slice" && len(p.args) == 1 {
				// a part of the line
				p = prim("pos", types.Typ[types.Int16], args[0])
			}
			if len(p.args) == 1 {
				if hi := args[1]; hi.op == "slice" && hi.args[2].op != "nil" && hi.args[1].op != "nil" {
					a, ok := hi.args[1].intVal()
					b, ok2 := hi.args[2].intVal()
					if ok && ok2 && b-a == 6 {
						as := []*T{args[0]}
						for i := int64(0); i < 6; i++ {
							as = append(as, k.elemAt(s, args[1], k.num(i)))
						}
						p = prim("pos", types.Typ[types.Int16], as...)
					}
				}
			}
			return []*T{p}, true, false
		}
		return nil, false, true
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		d := s.data.(*defState)
		at := w.posOf(in)
		mu, isMap := in.(*ssa.MapUpdate)
		switch {
		case isMap && namedOf(mu.Value.Type()) == ct:
			key := a.args[1]
			d.added++
			x.r.count("definitions compared", 1)
			if !isField(a.args[0], pt, "categories") {
				x.bad(k, s, "map:"+who, at, who+" files a category elsewhere")
			}
			underKey(s, at, key)
			if has(s, "categories", key) != -1 {
				x.bad(k, s, "again:"+who, at, who+" can define a category twice")
			}
			if v.op != "alloc" || namedOf(v.typ) != ct {
				x.bad(k, s, "new:"+who, at, who+" does not make a new definition for each line")
				return
			}
			for i, n := range []string{"isInvoke", "isGroup"} {
				if t := k.ldf(s, v, ct, n); !notZero(s, t, i+1) {
					x.bad(k, s, "column:"+n, at, fmt.Sprintf("%s takes %s for %s, not whether column %d is something else than 0", who, shortT(t), n, i+2))
				}
			}
			if t := k.ldf(s, v, ct, "length"); !number(s, t, 3, 0) {
				x.bad(k, s, "column:length", at, fmt.Sprintf("%s takes %s for the length, not column 4", who, shortT(t)))
			}
			if t := k.ldf(s, v, ct, "catType"); t != key {
				x.bad(k, s, "column:catType", at, fmt.Sprintf("%s takes %s for the category", who, shortT(t)))
			}
		case isMap && (isOovs(mu.Value.Type()) || isOovsPtr(mu.Value.Type())):
			key := a.args[1]
			if !isField(a.args[0], pt, "oovList") {
				x.bad(k, s, "map:"+who, at, who+" files words elsewhere")
			}
			underKey(s, at, key)
			if isOovs(mu.Value.Type()) {
				// the list itself
				b := d.base
				ok := b != nil && v.op == "append1" && v.in == d.in && v.args[0] == b &&
					(b.op == "load" && b.args[0] == a || b.op == "nil" || k.rangeOf(s, k.lenOf(s, b)).hi <= 0 && has(s, "oovList", key) == -1)
				if !ok {
					x.bad(k, s, "list:"+who, at, who+" can lose words it has added before")
				}
				d.base = nil
				return
			}
			ok := has(s, "oovList", key) == -1 && v.op == "alloc"
			if ok && v == d.own {
				d.own = nil
			} else if ok {
				l := k.load(s, v, v.typ.Underlying().(*types.Pointer).Elem())
				es := k.elemsOf(s, l)
				ok = k.rangeOf(s, k.lenOf(s, l)).hi <= 0 || len(es) == 1 && d.added == 0
				if ok && len(es) == 1 {
					entryOf(s, at, es[0])
				}
			}
			if !ok {
				x.bad(k, s, "list:"+who, at, who+" can lose words it has added before, or begins with some")
			}
			d.fresh[v] = key
		case d.base != nil && v.op == "append1" && v.in == d.in && v.args[0] == d.base:
			// stored back
			if k.load(s, a, v.typ) != d.base {
				x.bad(k, s, "list:"+who, at, who+" stores the words of a category elsewhere")
			}
			d.base = nil
			if key := d.fresh[a]; key != nil {
				return
			}
			if a.op == "load" && a.args[0].op == "idx" && isField(a.args[0].args[0], pt, "oovList") && has(s, "oovList", a.args[0].args[1]) == 1 {
				underKey(s, at, a.args[0].args[1])
				return
			}
			if a.op == "alloc" && len(d.fresh) == 0 && d.own == nil && k.rangeOf(s, k.lenOf(s, v.args[0])).hi <= 0 {
				d.own = a // to be filed
				return
			}
			x.bad(k, s, "list:"+who, at, who+" stores the words of a category elsewhere")
		}
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*defState)
		if d.h != nil {
			return
		}
		for b := range k.loop(h) {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == readLine {
					d.h = h
				}
			}
		}
		if d.h != nil && d.lines > 0 {
			x.bad(k, s, "first:"+who, w.pos(f.Pos()), who+" passes over the first line")
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*defState)
		if d.h != h {
			return
		}
		at := w.pos(f.Pos())
		if d.base != nil || d.own != nil {
			x.bad(k, s, "lost:"+who, at, who+" can lose a word it has added")
		}
		if d.lines == 1 && d.added == 1 {
			return
		}
		if d.lines == 1 && d.added == 0 && cats {
			if k.truth(s, prim("skip", types.Typ[types.Bool], d.line)) == 1 {
				return
			}
			u8 := types.Typ[types.Uint8]
			is := func(i int64, c byte) bool {
				e := k.elemAt(s, d.line, k.num(i))
				return k.truth(s, k.eq(e, k.cst(constant.MakeInt64(int64(c)), u8))) == 1
			}
			if is(0, '0') && is(1, 'x') {
				return
			}
			for _, t := range k.all {
				if t.op == "res" && (t.s == "bytes.HasPrefix" || t.s == "strings.HasPrefix") && k.truth(s, t) == 1 && len(t.args) == 2 && stripCast(t.args[0]) == d.line {
					if p, ok := stripCast(t.args[1]).strVal(); ok && p == "0x" {
						return
					}
				}
			}
		}
		x.bad(k, s, "line:"+who, at, who+" can pass over a line, or use it twice")
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[0]) == 1 {
			return
		}
		n++
		d := s.data.(*defState)
		end := prim("end 1", errT)
		over := k.nonNil(s, end) == 1
		for _, t := range k.all {
			// io.EOF
			over = over || t.op == "eq" && (t.args[0] == end && t.args[1].op == "sentinel" || t.args[1] == end && t.args[0].op == "sentinel") && k.truth(s, t) == 1
		}
		if d.h == nil || d.lines != 1 || d.added != 0 || !over {
			x.bad(k, s, "end:"+who, w.posOf(at), who+" can stop before the last line")
		}
		// the file it was given, or the one that comes with the package
		par := s.stack[0].env[f.Params[1]]
		read := false
		for _, t := range k.all {
			if t.op != "res" || t.c0 != 1 || k.nonNil(s, t) != -1 {
				continue
			}
			name, _, _ := strings.Cut(t.s, "@")
			switch {
			case name == "os.OpenFile" || name == "os.Open":
				read = read || t.args[0] == par
			case strings.HasSuffix(name, ".Open") && len(t.args) == 2:
				read = read || k.truth(s, k.eq(par, k.str(""))) == 1 && isText(t.args[1], map[bool]string{true: "char.def", false: "unk.def"}[cats])
			}
		}
		if !read {
			x.bad(k, s, "source:"+who, w.posOf(at), who+" may not have read the configured file")
		}
	}
	x.drive(k, f, func(s *astate) { s.data = &defState{fresh: map[*T]*T{}} })
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func isText(t *T, s string) bool {
	v, ok := t.strVal()
	return ok && v == s
}

// isField: t is the named field of an object of type n.
func isField(t *T, n *types.Named, name string) bool {
	return t.op == "load" && t.args[0].op == "fld" && t.args[0].s == tname(n)+"."+name
}
