package main

// C24: the answer is the chain of best predecessors, in text order, and each
// morpheme gives the place its own node has in the original text.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C24", "abstract interpretation (loop induction on the chain of predecessors and on its reversal; value numbering of what the accessors give)", checkReadOut)
}

type roCheck struct {
	w    *World
	r    *Report
	node *types.Named
	seen map[string]bool
}

func fieldNo(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(fmt.Sprintf("%s has no field %s", t, name))
}

// ldf: the named field of the object p (of struct type t) points to.
func (k *ai) ldf(s *astate, p *T, t types.Type, name string) *T {
	i := fieldNo(t, name)
	return k.load(s, k.fld(p, t, i), t.Underlying().(*types.Struct).Field(i).Type())
}

// edgeVal: the value phi gets along the edge the top frame has just taken.
func (k *ai) edgeVal(s *astate, phi *ssa.Phi) *T {
	fr := s.top()
	for i, p := range phi.Block().Preds {
		if p == fr.pred {
			return k.val(s, fr, phi.Edges[i])
		}
	}
	return nil
}

func phisOf(h *ssa.BasicBlock) (ps []*ssa.Phi) {
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, phi)
	}
	return ps
}

func (x *roCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "read-out", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkReadOut(w *World, r *Report) {
	x := &roCheck{w: w, r: r, node: w.typ("", "LatticeNode"), seen: map[string]bool{}}
	x.places()
	x.nodes()
	x.bestPath()
	x.input()
}

// ---- where a morpheme is ------------------------------------------------------

func (x *roCheck) places() {
	w := x.w
	mt, lt, it := w.typ("", "Morpheme"), w.typ("", "MorphemeList"), w.typ("", "InputText")
	for _, m := range []struct{ typ, name string }{
		{"MorphemeList", "GetBegin"}, {"MorphemeList", "GetEnd"}, {"MorphemeList", "GetSurface"}, {"MorphemeList", "Length"},
		{"Morpheme", "Begin"}, {"Morpheme", "End"}, {"Morpheme", "Surface"},
	} {
		f := w.must(w.method("", m.typ, m.name), m.typ+"."+m.name)
		who := w.fname(f)
		x.r.oblige(who + " gives its own node's place")
		k := newAI(w, aclient{})
		k.keep = true
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			x.r.count("accessors", 1)
			recv := s.stack[0].env[f.Params[0]]
			list, i := recv, (*T)(nil)
			if m.typ == "Morpheme" {
				list, i = k.ldf(s, recv, mt, "list"), k.ldf(s, recv, mt, "index")
			} else if len(f.Params) > 1 {
				i = s.stack[0].env[f.Params[1]]
			}
			path, in := k.ldf(s, list, lt, "path"), k.ldf(s, list, lt, "inputText")
			orig := func(end string) *T {
				p := k.ldf(s, k.elemAt(s, path, i), x.node, end)
				return k.elemAt(s, k.ldf(s, in, it, "offsets"), p)
			}
			ok, what := false, ""
			switch m.name {
			case "Length":
				ok, what = k.equal(s, res[0], k.lenOf(s, path)) == 1, "the number of nodes of the path"
			case "GetBegin", "Begin":
				ok, what = k.equal(s, res[0], orig("Begin")) == 1, "where its node begins, in the original text"
			case "GetEnd", "End":
				ok, what = k.equal(s, res[0], orig("End")) == 1, "where its node ends, in the original text"
			default:
				what = "the original text from where its node begins to where it ends"
				y := res[0]
				if y.op == "cast" && y.args[0].op == "slice" {
					sl := y.args[0]
					ru := sl.args[0]
					lo := sl.args[1]
					if lo.op == "nil" {
						lo = k.num(0)
					}
					e := elemType(ru.typ)
					ok = ru.op == "cast" && e != nil && types.Identical(e.Underlying(), types.Typ[types.Int32]) &&
						ru.args[0] == k.ldf(s, in, it, "OriginalText") &&
						sl.args[2].op != "nil" && k.equal(s, lo, orig("Begin")) == 1 && k.equal(s, sl.args[2], orig("End")) == 1
				}
			}
			if !ok {
				x.bad(k, s, "place:"+who, w.posOf(at), fmt.Sprintf("%s gives %s, not %s", who, shortT(res[0]), what))
			}
		}
		k.run(f, func(s *astate) {
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if n == 0 || k.gaveUp {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	// the list made is the list of what it is made from
	f := w.must(w.pkgFunc("", "NewMorphemeList"), "NewMorphemeList")
	x.r.oblige("a new MorphemeList holds what it is given")
	x.object(f, lt, map[string]func(p *ssa.Parameter) bool{
		"path":      func(p *ssa.Parameter) bool { e := elemType(p.Type()); return e != nil && namedOf(e) == x.node },
		"inputText": func(p *ssa.Parameter) bool { return namedOf(p.Type()) == it },
		"grammar":   func(p *ssa.Parameter) bool { return namedOf(p.Type()) == w.typ("dictionary", "Grammar") },
		"lexicon":   func(p *ssa.Parameter) bool { return namedOf(p.Type()) == w.typ("dictionary", "LexiconSet") },
	}, nil)
	x.r.floor("accessors", 7)
}

// object: after f, the object it makes (or, if it has a receiver of that type,
// its receiver) has in each named field the value of the parameter that
// matches, and in all others what is in rest (0: unchanged or zero).
func (x *roCheck) object(f *ssa.Function, t *types.Named, want map[string]func(p *ssa.Parameter) bool, also map[string]string) {
	w := x.w
	who := w.fname(f)
	k := newAI(w, aclient{})
	k.keep = true
	n := 0
	st := t.Underlying().(*types.Struct)
	self := f.Signature.Recv() != nil
	var before []*T
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		x.r.count("objects filled", 1)
		var o *T
		if self {
			o = s.stack[0].env[f.Params[0]]
		} else {
			o = res[0]
		}
		for i := 0; i < st.NumFields(); i++ {
			name := st.Field(i).Name()
			v := k.load(s, k.fld(o, t, i), st.Field(i).Type())
			if p, ok := want[name]; ok {
				good := false
				for _, q := range f.Params {
					if p(q) {
						good = v == s.stack[0].env[q]
					}
				}
				if !good {
					x.bad(k, s, "object:"+who+":"+name, w.posOf(at), fmt.Sprintf("%s leaves %s in %s, not what it was given for it", who, shortT(v), name))
				}
				continue
			}
			if also[name] == "true" {
				if k.truth(s, v) != 1 {
					x.bad(k, s, "object:"+who+":"+name, w.posOf(at), fmt.Sprintf("%s leaves %s in %s", who, shortT(v), name))
				}
				continue
			}
			if also[name] == "any" {
				continue
			}
			if self {
				if v != before[i] {
					x.bad(k, s, "object:"+who+":"+name, w.posOf(at), fmt.Sprintf("%s changes %s", who, name))
				}
			} else if v != k.zeroOf(st.Field(i).Type()) {
				x.bad(k, s, "object:"+who+":"+name, w.posOf(at), fmt.Sprintf("%s starts with %s in %s", who, shortT(v), name))
			}
		}
	}
	k.run(f, func(s *astate) {
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		if self {
			o := s.top().env[f.Params[0]]
			for i := 0; i < st.NumFields(); i++ {
				before = append(before, k.load(s, k.fld(o, t, i), st.Field(i).Type()))
			}
		}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// ---- what a node gives ---------------------------------------------------------

func (x *roCheck) nodes() {
	w := x.w
	nt := x.node
	winfo := w.typ("dictionary", "WordInfo")
	setWI := w.must(w.method("dictionary", "LexiconSet", "GetWordInfo"), "LexiconSet.GetWordInfo")
	setId := w.must(w.method("dictionary", "LexiconSet", "GetDictionaryId"), "LexiconSet.GetDictionaryId")
	undef, _ := w.spkg[w.modpath].Members["UndefinedWordInfo"].(*ssa.Global)
	if undef == nil {
		panic("no variable UndefinedWordInfo")
	}
	for _, name := range []string{"GetBegin", "GetEnd", "IsOOV", "GetPathCost", "GetWordId", "GetWordInfo", "GetDictionaryId"} {
		f := w.must(w.method("", "LatticeNode", name), "LatticeNode."+name)
		who := w.fname(f)
		x.r.oblige(who + " gives what the node holds")
		k := newAI(w, aclient{})
		k.keep = true
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			switch callee {
			case setWI:
				return []*T{k.mk(&T{op: "res", s: "wordinfo", typ: types.NewPointer(winfo), args: []*T{args[0], args[1]}})}, true, false
			case setId:
				return []*T{k.mk(&T{op: "res", s: "dictid", typ: types.Typ[types.Int], args: []*T{args[0], args[1]}})}, true, false
			}
			return nil, false, true
		}
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			x.r.count("node accessors", 1)
			nd := s.stack[0].env[f.Params[0]]
			g := func(fl string) *T { return k.ldf(s, nd, nt, fl) }
			extra := g("extraWordInfo")
			def := k.truth(s, g("isDefined"))
			hasExtra := k.nonNil(s, extra)
			lexicon := func(op string, v *T) bool {
				return v.op == "res" && v.s == op && v.args[0] == g("lexicon") && v.args[1] == g("wordId")
			}
			v := res[0]
			ok, what := false, ""
			switch name {
			case "GetBegin":
				ok, what = v == g("Begin"), "where it begins"
			case "GetEnd":
				ok, what = v == g("End"), "where it ends"
			case "IsOOV":
				ok, what = v == g("IsOov") || k.truth(s, v) != 0 && k.truth(s, v) == k.truth(s, g("IsOov")), "whether it is marked as out of vocabulary"
			case "GetPathCost":
				ok, what = v == g("cost"), "its cost"
			case "GetWordId":
				ok, what = v == k.convert(s, g("wordId"), types.Typ[types.Int32], types.Typ[types.Uint32]), "its word id, as an unsigned number"
			case "GetWordInfo":
				switch {
				case v == extra && (hasExtra == 1 || def == 1):
					ok, what = hasExtra == 1, "a record it may not have"
				case hasExtra == 1:
					what = "the record it was given"
				case def == -1:
					ok, what = isUndef(k, s, v, undef), "the record of an undefined word"
				case hasExtra == -1 && def == 1:
					ok, what = lexicon("wordinfo", v), "the dictionary's record of its word id"
				default:
					what = "what it holds (it does not look whether it is defined and has a record of its own)"
				}
			case "GetDictionaryId":
				c, isC := v.intVal()
				switch {
				case hasExtra == 1 || def == -1:
					ok, what = isC && c == -1, "-1 for a node that is not from a dictionary"
				case hasExtra == -1 && def == 1:
					ok, what = lexicon("dictid", v), "the number of its word's dictionary"
				default:
					what = "what it holds (it does not look whether it is defined and has a record of its own)"
				}
			}
			if !ok {
				x.bad(k, s, "node:"+who, w.posOf(at), fmt.Sprintf("%s can give %s, not %s", who, shortT(v), what))
			}
		}
		k.run(f, func(s *astate) {
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if n == 0 || k.gaveUp {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	nth := func(i int) func(p *ssa.Parameter) bool {
		return func(p *ssa.Parameter) bool {
			f := p.Parent()
			return i < len(f.Params) && f.Params[i] == p
		}
	}
	for _, m := range []struct {
		f    *ssa.Function
		want map[string]func(p *ssa.Parameter) bool
		also map[string]string
	}{
		{w.must(w.pkgFunc("", "NewLatticeNode"), "NewLatticeNode"), map[string]func(p *ssa.Parameter) bool{"lexicon": nth(0), "leftId": nth(1), "rightId": nth(2), "cost": nth(3), "wordId": nth(4)}, map[string]string{"isDefined": "true"}},
		{w.must(w.method("", "LatticeNode", "SetRange"), "LatticeNode.SetRange"), map[string]func(p *ssa.Parameter) bool{"Begin": nth(1), "End": nth(2)}, nil},
		{w.must(w.method("", "LatticeNode", "SetParameter"), "LatticeNode.SetParameter"), map[string]func(p *ssa.Parameter) bool{"leftId": nth(1), "rightId": nth(2), "cost": nth(3)}, nil},
		{w.must(w.method("", "LatticeNode", "SetOOV"), "LatticeNode.SetOOV"), nil, map[string]string{"IsOov": "true"}},
		{w.must(w.method("", "LatticeNode", "SetWordInfo"), "LatticeNode.SetWordInfo"), map[string]func(p *ssa.Parameter) bool{"extraWordInfo": nth(1)}, map[string]string{"isDefined": "true"}},
		{w.must(w.pkgFunc("", "CreateNodeOfOOV"), "CreateNodeOfOOV"), nil, map[string]string{"IsOov": "true", "isDefined": "any"}},
	} {
		x.r.oblige(w.fname(m.f) + " sets what it is for")
		x.object(m.f, nt, m.want, m.also)
	}
	x.r.floor("node accessors", 7)
	x.r.floor("objects filled", 7)
}

func isUndef(k *ai, s *astate, v *T, g *ssa.Global) bool {
	t := k.load(s, k.global(g), g.Type().(*types.Pointer).Elem())
	return v == t
}

// ---- the best path ---------------------------------------------------------------

type roState struct {
	h      *ssa.BasicBlock
	inits  map[*T]*T // what the counters and lists of loops start with
	node   map[*T]*T // list collected along the chain -> the node whose turn it is
	last   []*ssa.BasicBlock
	stores []roStore
}

type roStore struct{ list, i, v *T }

func (d *roState) clone() *roState {
	n := *d
	cp := func(m map[*T]*T) map[*T]*T {
		o := map[*T]*T{}
		for a, b := range m {
			o[a] = b
		}
		return o
	}
	n.inits, n.node = cp(d.inits), cp(d.node)
	n.stores = append([]roStore(nil), d.stores...)
	n.last = append([]*ssa.BasicBlock(nil), d.last...)
	return &n
}

// A roLoop is what the rounds of a loop have been seen to do.
type roLoop struct {
	chain   bool // goes along the chain, adding at the end
	prepend bool // ... or at the front
	counter *T   // ... or counts the nodes, or fills a list backwards
	swap    *T   // swaps mirrored pairs of this list
	copyOf  *T   // copies this list backwards to
	to      *T   // this one (nil: the loop's own list, by appending)
	i, j    *T   // the places of this round
	n       *T
	step    int64
}

func (x *roCheck) bestPath() {
	w := x.w
	nt, lt := x.node, w.typ("", "Lattice")
	f := w.must(w.method("", "Lattice", "GetBestPath"), "Lattice.GetBestPath")
	who := w.fname(f)
	x.r.oblige(who + ": the chain from the end of the sentence, in text order")
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	k.cl.clone = func(d any) any { return d.(*roState).clone() }
	k.cl.key = func(d any) string {
		y := d.(*roState)
		m := ""
		for _, a := range k.all {
			if b := y.inits[a]; b != nil {
				m += fmt.Sprintf("%d=%d,", a.id, b.id)
			}
			if b := y.node[a]; b != nil {
				m += fmt.Sprintf("%d:%d,", a.id, b.id)
			}
		}
		return fmt.Sprint(y.h, len(y.stores), y.last, m)
	}
	recv := func(s *astate) *T { return s.stack[0].env[f.Params[0]] }
	eos := func(s *astate) *T { return k.ldf(s, recv(s), lt, "eosNode") }
	bos := func(s *astate) *T {
		return k.elemAt(s, k.elemAt(s, k.ldf(s, recv(s), lt, "endLists"), k.num(0)), k.num(0))
	}
	prev := func(s *astate, n *T) *T { return k.ldf(s, n, nt, "bestPreviousNode") }
	isNodePtr := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Pointer)
		return ok && namedOf(t) == nt
	}
	isList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(sl.Elem()) == nt
	}
	empty := func(s *astate, t *T) bool {
		return t != nil && (k.nonNil(s, t) == -1 || k.rangeOf(s, k.lenOf(s, t)).hi == 0)
	}
	halves := func(n *T) []*T {
		it := types.Typ[types.Int]
		return []*T{k.bin(token.QUO, n, k.num(2), it), k.bin(token.SHR, n, k.cst(constant.MakeInt64(1), types.Typ[types.Uint]), it), k.bin(token.SHR, n, k.num(1), it)}
	}
	one := func(s *astate, l, n *T) bool {
		c, ok := k.lenOf(s, l).intVal()
		return ok && c == 1 && k.elemAt(s, l, k.num(0)) == n
	}
	loops := map[*ssa.BasicBlock]*roLoop{}
	bos0 := map[*T]*T{} // node -> the beginning of the sentence, while the chain is followed
	var first *T
	prev0 := map[*T]*T{} // node -> its predecessor, while the chain is followed
	// the value of a term that is a counter of a loop plus something, at entry
	atEntry := func(s *astate, t *T) *T {
		d := s.data.(*roState)
		r := k.num(0)
		p := k.poly(t)
		r = k.num(p.c0)
		for a, c := range p.m {
			v := a
			if i := d.inits[a]; i != nil {
				v = i
			}
			r = k.add(r, k.mul(k.num(c), v, types.Typ[types.Int]))
		}
		return r
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*roState)
		d.h, d.stores = h, nil
		d.last = append(d.last, h)
		fr := s.top()
		var nodeP *ssa.Phi
		for _, p := range phisOf(h) {
			d.inits[fr.env[p]] = k.edgeVal(s, p)
			if isNodePtr(p.Type()) {
				nodeP = p
			}
		}
		if nodeP == nil {
			return
		}
		if i := d.inits[fr.env[nodeP]]; k.equal(s, i, prev(s, eos(s))) != 1 {
			x.bad(k, s, "start", w.pos(h.Parent().Pos()), fmt.Sprintf("%s starts at %s, not at the best predecessor of the end of the sentence", who, shortT(i)))
		}
		bos0[fr.env[nodeP]] = bos(s)
		prev0[fr.env[nodeP]] = prev(s, fr.env[nodeP])
		for _, p := range phisOf(h) {
			if isList(p.Type()) || isIntT(p.Type()) {
				d.node[fr.env[p]] = fr.env[nodeP]
			}
		}
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		d := s.data.(*roState)
		if a.op == "idx" && isList(a.args[0].typ) {
			d.stores = append(d.stores, roStore{a.args[0], a.args[1], v})
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*roState)
		if d.h != h {
			return
		}
		fr := s.top()
		at := w.pos(h.Parent().Pos())
		if loops[h] == nil {
			loops[h] = &roLoop{}
		}
		lp := loops[h]
		var nodeP, listP, cnt []*ssa.Phi
		for _, p := range phisOf(h) {
			switch {
			case isNodePtr(p.Type()):
				nodeP = append(nodeP, p)
			case isList(p.Type()) && fr.env[p].op == "sym" && fr.env[p].hdr == h:
				listP = append(listP, p)
			case isIntT(p.Type()) && fr.env[p].op == "sym" && fr.env[p].hdr == h:
				cnt = append(cnt, p)
			}
		}
		if len(nodeP) > 0 {
			x.r.count("rounds along the chain", 1)
			nd := fr.env[nodeP[0]]
			if nx := k.edgeVal(s, nodeP[0]); len(nodeP) != 1 || nx != prev(s, nd) {
				x.bad(k, s, "chain", at, fmt.Sprintf("%s goes on with %s, not with the best predecessor", who, shortT(nx)))
			}
			// counting the nodes, or filling a list of known length from its end
			if len(listP) == 0 && len(cnt) == 1 && len(d.stores) <= 1 {
				c := fr.env[cnt[0]]
				by, _ := k.sub(k.edgeVal(s, cnt[0]), c).intVal()
				if init := d.inits[c]; len(d.stores) == 0 && by == 1 && k.rangeOf(s, init).lo == 0 && k.rangeOf(s, init).hi == 0 {
					lp.counter = c
					return
				}
				if len(d.stores) == 1 && by == -1 && d.stores[0].v == nd && d.stores[0].list.op == "mkslice" {
					st := d.stores[0]
					if n := k.lenOf(s, st.list); d.node[n] != nil && k.equal(s, atEntry(s, st.i), k.sub(n, k.num(1))) == 1 && k.poly(st.i).m[c] == 1 {
						lp.to, lp.counter, lp.n = st.list, c, n
						return
					}
				}
			}
			if len(listP) != 1 {
				x.bad(k, s, "collect", at, fmt.Sprintf("%s does not collect the nodes in one list", who))
				return
			}
			acc, nx := fr.env[listP[0]], k.edgeVal(s, listP[0])
			switch {
			case nx.op == "append1" && nx.args[0] == acc && len(nx.args) == 2 && nx.args[1] == nd, nx.op == "appendn" && nx.args[0] == acc && one(s, nx.args[1], nd):
				lp.chain = true
			case nx.op == "appendn" && nx.args[1] == acc && one(s, nx.args[0], nd):
				lp.prepend = true
			default:
				x.bad(k, s, "node", at, fmt.Sprintf("%s can go on without having taken the node (%s)", who, shortT(nx)))
			}
			return
		}
		if len(d.stores) == 0 && len(listP) == 0 {
			return
		}
		x.r.count("rounds reversing", 1)
		msg := func() string {
			// counters go by one, each in its own direction
			step := map[*T]int64{}
			for _, p := range cnt {
				c, ok := k.sub(k.edgeVal(s, p), fr.env[p]).intVal()
				if !ok || c != 1 && c != -1 {
					return "does not go on with the next place"
				}
				step[fr.env[p]] = c
			}
			dir := func(i *T) int64 {
				p := k.poly(i)
				n := int64(0)
				for a, c := range p.m {
					n += step[a] * c
				}
				return n
			}
			var i, j, src *T
			switch {
			case len(listP) == 1 && len(d.stores) == 0:
				acc, nx := fr.env[listP[0]], k.edgeVal(s, listP[0])
				var e *T
				if nx.op == "append1" && nx.args[0] == acc && len(nx.args) == 2 {
					e = nx.args[1]
				}
				if e == nil || e.op != "load" || e.args[0].op != "idx" || !empty(s, d.inits[acc]) {
					return fmt.Sprintf("goes on with %s", shortT(nx))
				}
				i, src = e.args[0].args[1], e.args[0].args[0]
				lp.copyOf, lp.i, lp.step, lp.n = src, i, dir(i), k.lenOf(s, src)
				if lp.step != -1 || k.equal(s, atEntry(s, i), k.sub(lp.n, k.num(1))) != 1 {
					return "does not copy the nodes from the last to the first"
				}
				return ""
			case len(listP) == 0 && len(d.stores) == 1 && d.stores[0].list.op == "mkslice":
				st := d.stores[0]
				if st.v.op != "load" || st.v.args[0].op != "idx" {
					return "stores " + shortT(st.v)
				}
				j, i, src = st.i, st.v.args[0].args[1], st.v.args[0].args[0]
				lp.copyOf, lp.to, lp.i, lp.j, lp.step, lp.n = src, st.list, i, j, dir(i), k.lenOf(s, src)
				if k.equal(s, k.lenOf(s, st.list), lp.n) != 1 {
					return "copies the nodes to a list of another length"
				}
				first := k.rangeOf(s, atEntry(s, i))
				up := lp.step == 1 && first.lo == 0 && first.hi == 0
				down := lp.step == -1 && k.equal(s, atEntry(s, i), k.sub(lp.n, k.num(1))) == 1
				if !up && !down {
					return "does not copy all nodes"
				}
			case len(listP) == 0 && len(d.stores) == 2 && d.stores[0].list == d.stores[1].list:
				a, b := d.stores[0], d.stores[1]
				ea, eb := k.idx(a.list, a.i, elemType(a.list.typ)), k.idx(a.list, b.i, elemType(a.list.typ))
				if !(a.v.op == "load" && a.v.args[0] == eb && b.v.op == "load" && b.v.args[0] == ea && a.v.s == b.v.s) {
					return "does not let two nodes change places"
				}
				i, j, src = a.i, b.i, a.list
				n := k.lenOf(s, src)
				if dir(i) != 1 && dir(i) != -1 {
					return "does not go through the pairs"
				}
				// the one that starts outside
				if r := k.rangeOf(s, atEntry(s, j)); r.lo == 0 && r.hi == 0 {
					i, j = j, i
				}
				first := k.rangeOf(s, atEntry(s, i))
				lp.swap, lp.i, lp.j, lp.n, lp.step = src, i, j, n, dir(i)
				if first.lo == 0 && first.hi == 0 && lp.step == 1 {
					ok := k.rangeOf(s, k.sub(j, i)).lo >= 0
					for _, h := range halves(n) {
						ok = ok || k.rangeOf(s, k.sub(h, i)).lo >= 1
					}
					if !ok {
						return "can swap a pair a second time"
					}
					break
				}
				ok := false
				for try := 0; try < 2 && !ok; try++ {
					for _, h := range append(halves(n), halves(k.sub(n, k.num(1)))...) {
						c := k.num(0)
						if h.op == "/" || h.op == ">>" {
							if h.args[0] == n {
								c = k.num(1)
							}
						}
						ok = ok || dir(i) == -1 && k.equal(s, atEntry(s, i), k.sub(h, c)) == 1
					}
					if !ok {
						i, j = j, i
					}
				}
				lp.i, lp.j, lp.step = i, j, dir(i)
				if !ok {
					return "swaps neither from the outside nor from the middle"
				}
			default:
				return fmt.Sprintf("changes %d places of the path in one round", len(d.stores))
			}
			// mirrored: now, or at entry and from then on in opposite directions
			if lp.j != nil {
				m := k.sub(lp.n, k.num(1))
				now := k.equal(s, k.add(i, j), m) == 1
				ind := dir(i)+dir(j) == 0 && k.equal(s, k.add(atEntry(s, i), atEntry(s, j)), m) == 1
				if !now && !ind {
					return fmt.Sprintf("takes %s and %s for mirrored places", shortT(i), shortT(j))
				}
			}
			return ""
		}()
		if msg != "" {
			x.bad(k, s, "reverse", at, who+" "+msg)
		}
	}
	ends, fails := 0, 0
	verdict := func(s *astate, l *T) string {
		d := s.data.(*roState)
		done := func(a *T) string { // the chain has been followed to the beginning
			nd := d.node[a]
			if nd == nil {
				return fmt.Sprintf("gives %s, which is not known to be the chain of best predecessors", shortT(a))
			}
			if !isIntT(a.typ) && !empty(s, d.inits[a]) {
				return "starts with a list that is not empty"
			}
			if k.truth(s, k.eq(nd, bos(s))) != 1 && k.truth(s, k.eq(nd, first)) != 1 && k.truth(s, k.eq(nd, bos0[nd])) != 1 && k.nonNil(s, prev0[nd]) != -1 && k.nonNil(s, prev(s, nd)) != -1 {
				return "can stop before the beginning of the sentence is reached"
			}
			return ""
		}
		short := func(a *T) bool { return k.rangeOf(s, k.lenOf(s, a)).hi <= 1 }
		gone := func(lp *roLoop) bool {
			if lp.step == -1 {
				return k.rangeOf(s, lp.i).hi < 0
			}
			if lp.swap != nil {
				ok := k.rangeOf(s, k.sub(lp.i, lp.j)).lo >= 0
				for _, h := range halves(lp.n) {
					ok = ok || k.rangeOf(s, k.sub(lp.i, h)).lo >= 0
				}
				return ok
			}
			return k.rangeOf(s, k.sub(lp.n, lp.i)).hi <= 0
		}
		if a := d.node[l]; a != nil {
			if m := done(l); m != "" {
				return m
			}
			if lp := loops[l.hdr]; lp != nil && lp.prepend {
				return ""
			}
			rev := 0
			for _, h := range d.last {
				if lp := loops[h]; lp != nil && lp.swap != nil {
					if lp.swap != l {
						return "reverses another list"
					}
					if !gone(lp) {
						return "can stop before every pair has been swapped"
					}
					rev++
				}
			}
			if rev == 1 || rev == 0 && short(l) {
				return ""
			}
			return fmt.Sprintf("gives the nodes having reversed them %d times", rev)
		}
		for _, h := range d.last {
			// counted by one loop along the chain, filled by another
			if lp := loops[h]; lp != nil && lp.to == l && lp.counter != nil {
				m := done(lp.counter)
				for _, g := range d.last {
					if loops[g] != nil && loops[g].counter == lp.n && loops[g].to == nil && m == "" {
						return done(lp.n)
					}
				}
				return m + "gives nodes that have not been counted"
			}
		}
		for _, h := range d.last {
			lp := loops[h]
			if lp == nil || lp.copyOf == nil || !(lp.to == l || lp.to == nil && l.op == "sym" && l.hdr == h) {
				continue
			}
			if m := done(lp.copyOf); m != "" {
				return m
			}
			if !gone(lp) {
				return "can leave nodes out"
			}
			return ""
		}
		return fmt.Sprintf("gives %s, which is not known to be the chain of best predecessors", shortT(l))
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		conn := k.truth(s, k.ldf(s, eos(s), nt, "isConnectedToBOS"))
		if conn == 0 {
			conn = k.nonNil(s, prev(s, eos(s)))
		}
		pos := w.posOf(at)
		if k.nonNil(s, res[1]) == 1 {
			fails++
			if conn != -1 {
				x.bad(k, s, "refused", pos, who+" can fail although the end of the sentence is connected")
			}
			return
		}
		ends++
		x.r.count("ways to a path", 1)
		if conn != 1 {
			x.bad(k, s, "unconnected", pos, who+" can give a path although the end of the sentence is not connected")
		}
		s2 := s.clone(k)
		l := res[0]
		k.later = append(k.later, func() {
			if msg := verdict(s2, l); msg != "" {
				x.bad(k, s2, "path", pos, who+" "+msg)
			}
		})
	}
	k.run(f, func(s *astate) {
		s.data = &roState{inits: map[*T]*T{}, node: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		first = bos(s)
	})
	for _, g := range k.later {
		g()
	}
	if k.gaveUp || ends == 0 || fails == 0 {
		x.bad(nil, nil, "shape", w.pos(f.Pos()), fmt.Sprintf("%s was not recognised as following the chain of best predecessors (%d ends, %d failures)", who, ends, fails))
	}
	x.r.floor("rounds along the chain", 1)
	x.r.floor("ways to a path", 1)
}

// ---- the text the places refer to --------------------------------------------------

// input: the list Tokenize gives refers to the text the lattice was built on.
func (x *roCheck) input() {
	w := x.w
	tok := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	best := w.must(w.method("", "Lattice", "GetBestPath"), "Lattice.GetBestPath")
	build := w.must(w.method("", "InputTextBuilder", "Build"), "InputTextBuilder.Build")
	newB := w.must(w.pkgFunc("", "NewInputTextBuilder"), "NewInputTextBuilder")
	it, lt := w.typ("", "InputText"), w.typ("", "MorphemeList")
	who := w.fname(tok)
	x.r.oblige(who + ": one text throughout")
	relevant := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		return g == best || g == build || g == newB
	})
	only := map[*ssa.Function]bool{w.pkgFunc("", "NewMorphemeList"): true}
	makesList := transitively(w, func(in ssa.Instruction) bool {
		al, ok := in.(*ssa.Alloc)
		return ok && al.Heap && namedOf(al.Type()) == lt
	})
	for _, f := range w.allFns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == w.modpath && (relevant[f] || makesList[f]) && f != best && f != build && f != newB {
			only[f] = true
		}
	}
	k := newAI(w, aclient{})
	k.keep = true
	k.only = only
	type st struct{ b, in, path *T }
	k.cl.clone = func(d any) any { y := *d.(*st); return &y }
	k.cl.key = func(d any) string {
		y := d.(*st)
		return fmt.Sprint(y.b, y.in, y.path)
	}
	n := 0
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*st)
		at := w.posOf(c)
		switch callee {
		case newB:
			if args[0] != s.stack[0].env[tok.Params[2]] {
				x.bad(k, s, "text:builder", at, fmt.Sprintf("%s works on %s, not on the text it was given", who, shortT(args[0])))
			}
			if d.b != nil {
				x.bad(k, s, "text:second", at, who+" can start with the text a second time")
			}
			res := k.opaque(s, s.top(), c, callee, args)
			d.b = res[0]
			return res, true, false
		case build:
			if args[0] != d.b {
				x.bad(k, s, "text:built", at, who+" builds another text than the one it was given")
			}
			res := k.opaque(s, s.top(), c, callee, args)
			d.in = res[0]
			return res, true, false
		case best:
			res := k.opaque(s, s.top(), c, callee, args)
			d.path = res[0]
			return res, true, false
		}
		for _, a := range args {
			if a.typ != nil && namedOf(a.typ) == it && a.op != "fld" && (callee == nil || !only[callee]) {
				x.r.count("uses of the built text", 1)
				if a != d.in {
					x.bad(k, s, "text:other", at, fmt.Sprintf("%s uses %s, which is not the text it has built from the rewritten input", who, shortT(a)))
				}
			}
		}
		return nil, false, true
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[1]) == 1 {
			return
		}
		n++
		d := s.data.(*st)
		if in := k.ldf(s, res[0], lt, "inputText"); d.in == nil || in != d.in {
			x.bad(k, s, "text:list", w.posOf(at), fmt.Sprintf("%s gives a list that refers to %s, not to the text the lattice was built on", who, shortT(in)))
		}
	}
	k.run(tok, func(s *astate) {
		s.data = &st{}
		for _, p := range tok.Params {
			k.val(s, s.top(), p)
		}
	})
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(tok.Pos()), who+" could not be analysed completely")
	}
	x.r.floor("uses of the built text", 2)
}
