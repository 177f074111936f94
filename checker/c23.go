package main

// C23: every word and every unknown word offered at a position where a word
// may begin enters the lattice there, once, and at its own place.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "abstract interpretation (typestate per position, word and provider; loop induction with a ghost of what has been found; induction over the dictionaries' iterators)", checkOffered)
}

type ofCheck struct {
	w      *World
	r      *Report
	node   *types.Named
	seen   map[string]bool
	finds  []Finding
	counts map[string]int
	// hypotheses that did not hold in an earlier run
	noFlag  map[*ssa.Phi]bool
	noCell  map[string]bool
	noRange map[*ssa.BasicBlock]bool
	changed bool
}

type ofState struct {
	over bool // the path is being read out
	done bool // every position has been visited
	in   *T   // the text

	posH *ssa.BasicBlock
	pos  *T // the position
	posP *ssa.Phi
	ends *T // the list of nodes ending there, at the round's start

	it         *T
	gen        *T
	n0         *T // whether the iterator had anything at first
	wordH      *ssa.BasicBlock
	id, end    *T // the word taken and not yet entered
	words      int
	word0      int
	found      []*T // any of these: something has entered the lattice
	drainedErr *T

	plug    *listLoop
	asked   int
	defAsk  bool
	list    *T // nodes a provider has given, not yet entered
	listErr *T
	ins     map[*ssa.BasicBlock]*listLoop // loops entering them
	rng     map[*ssa.BasicBlock]*listLoop // loops giving them their places
	node    *T                            // the node entered in this round
	cells   map[*T]bool                   // variables that tell whether something has been found
	errs    []*T
}

func (d *ofState) clone() *ofState {
	n := *d
	n.found = append([]*T(nil), d.found...)
	n.errs = append([]*T(nil), d.errs...)
	cp := func(m map[*ssa.BasicBlock]*listLoop) map[*ssa.BasicBlock]*listLoop {
		o := map[*ssa.BasicBlock]*listLoop{}
		for a, b := range m {
			o[a] = b
		}
		return o
	}
	n.ins, n.rng = cp(d.ins), cp(d.rng)
	n.cells = map[*T]bool{}
	for a, b := range d.cells {
		n.cells[a] = b
	}
	return &n
}

func (x *ofCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "offered", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.finds = append(x.finds, f)
}

func checkOffered(w *World, r *Report) {
	x := &ofCheck{w: w, r: r, node: w.typ("", "LatticeNode"), noFlag: map[*ssa.Phi]bool{}, noCell: map[string]bool{}, noRange: map[*ssa.BasicBlock]bool{}}
	for i := 0; i < 8; i++ {
		x.changed, x.finds, x.seen, x.counts = false, nil, map[string]bool{}, map[string]int{}
		x.positions()
		if !x.changed {
			break
		}
	}
	for _, n := range []string{"rounds over positions", "rounds over words", "rounds over providers", "nodes entered", "ways to the end of the text"} {
		r.count(n, x.counts[n])
		r.floor(n, 1)
	}
	for _, f := range x.finds {
		r.add(f)
	}
	x.finds, x.seen = nil, map[string]bool{}
	x.setIterator()
	x.wordIterator()
	r.floor("steps from one dictionary to the next", 1)
	r.floor("ways through the iterators", 10)
	for _, f := range x.finds {
		r.add(f)
	}
}

func (x *ofCheck) positions() {
	w := x.w
	nt, lt, tt, it := x.node, w.typ("", "Lattice"), w.typ("", "JapaneseTokenizer"), w.typ("", "InputText")
	m := func(pkg, typ, name string) *ssa.Function {
		return w.must(w.method(pkg, typ, name), typ+"."+name)
	}
	tok := m("", "JapaneseTokenizer", "Tokenize")
	build := m("", "InputTextBuilder", "Build")
	canBow, cats := m("", "InputText", "CanBow"), m("", "InputText", "GetCharCategoryTypes")
	insert, best := m("", "Lattice", "Insert"), m("", "Lattice", "GetBestPath")
	nodeWI := m("", "LatticeNode", "GetWordInfo")
	lookup := m("dictionary", "LexiconSet", "Lookup")
	next, get, errF := m("dictionary", "LexiconSetIterator", "Next"), m("dictionary", "LexiconSetIterator", "Get"), m("dictionary", "LexiconSetIterator", "Err")
	params := map[*ssa.Function]string{
		m("dictionary", "LexiconSet", "GetLeftId"):  "leftId",
		m("dictionary", "LexiconSet", "GetRightId"): "rightId",
		m("dictionary", "LexiconSet", "GetCost"):    "cost",
	}
	prim := map[*ssa.Function]bool{build: true, canBow: true, cats: true, insert: true, best: true, nodeWI: true, lookup: true, next: true, get: true, errF: true}
	for f := range params {
		prim[f] = true
	}
	provT := w.typ("", "OovProviderPlugin")
	wiT := w.typ("dictionary", "WordInfo")
	noBow, ok := w.spkg[w.rel("dictionary")].Pkg.Scope().Lookup("NOOOVBOW").(*types.Const)
	if !ok {
		panic("no constant dictionary.NOOOVBOW")
	}
	isProvide := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "ProvideOOV" && namedOf(c.Common().Value.Type()) == provT
	}
	calls := func(fs ...*ssa.Function) map[*ssa.Function]bool {
		return transitively(w, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := c.Common().StaticCallee()
			for _, f := range fs {
				if g == f {
					return true
				}
			}
			return false
		})
	}
	provides := transitively(w, isProvide)
	looks, gets, inserts := calls(lookup), calls(get), calls(insert)
	ranges := transitively(w, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && namedOf(fa.X.Type()) == nt && (fa.Field == fieldNo(nt, "Begin") || fa.Field == fieldNo(nt, "End"))
	})
	setsEos := transitively(w, func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && namedOf(fa.X.Type()) == lt && fa.Field == fieldNo(lt, "eosNode")
	})
	only := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath || prim[f] {
			continue
		}
		leaf := len(f.Blocks) == 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
						leaf = false
					}
				}
			}
		}
		if leaf || provides[f] || looks[f] || gets[f] || inserts[f] || setsEos[f] || ranges[f] {
			only[f] = true
		}
	}
	hasIn := func(k *ai, h *ssa.BasicBlock, p func(ssa.Instruction) bool, fs map[*ssa.Function]bool, target ...*ssa.Function) bool {
		for b := range k.loop(h) {
			for _, in := range b.Instrs {
				if p != nil && p(in) {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g != nil && fs[g] && !prim[g] {
						return true
					}
					for _, t := range target {
						if g == t {
							return true
						}
					}
				}
			}
		}
		return false
	}
	storesRange := func(in ssa.Instruction) bool {
		st, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		return ok && namedOf(fa.X.Type()) == nt && (fa.Field == fieldNo(nt, "Begin") || fa.Field == fieldNo(nt, "End"))
	}
	isNodePtr := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Pointer)
		return ok && namedOf(t) == nt
	}
	who := w.fname(tok)
	x.r.oblige(who + ": every position, word and provider")
	k := newAI(w, aclient{})
	k.keep = true
	k.only = only
	ids := func(ts ...*T) string {
		o := ""
		for _, t := range ts {
			if t == nil {
				o += "-,"
			} else {
				o += fmt.Sprint(t.id, ",")
			}
		}
		return o
	}
	k.cl.clone = func(d any) any { return d.(*ofState).clone() }
	k.cl.key = func(d any) string {
		y := d.(*ofState)
		o := fmt.Sprint(y.over, y.done, y.posH, y.wordH, y.words, y.asked, y.defAsk, y.plug != nil, len(y.ins), len(y.rng)) + ids(y.in, y.pos, y.ends, y.it, y.gen, y.n0, y.id, y.end, y.list, y.listErr, y.node) + ids(y.found...) + ids(y.errs...)
		for h, l := range y.ins {
			o += fmt.Sprint(h.Index) + ids(l.phi)
		}
		return o
	}
	self := func(s *astate) *T { return s.stack[0].env[tok.Params[0]] }
	fld := func(s *astate, n string) *T { return k.ldf(s, self(s), tt, n) }
	bytea := func(s *astate) *T {
		d := s.data.(*ofState)
		if d.in == nil {
			return nil
		}
		return k.ldf(s, d.in, it, "Bytea")
	}
	bow := func(s *astate) *T {
		d := s.data.(*ofState)
		return k.mk(&T{op: "res", s: "CanBow", typ: types.Typ[types.Bool], args: []*T{d.in, d.pos}})
	}
	catsAt := func(in, i *T) *T {
		return k.mk(&T{op: "res", s: "categories", typ: types.Typ[types.Uint32], args: []*T{in, i}})
	}
	nextT := func(it, gen *T) *T {
		return k.mk(&T{op: "res", s: "Next", typ: types.Typ[types.Bool], args: []*T{it, gen}})
	}
	errT := types.Universe.Lookup("error").Type()
	itErr := func(it, gen *T) *T {
		return k.mk(&T{op: "res", s: "Err", typ: errT, args: []*T{it, gen}})
	}
	// noOov: 1 the category forbids unknown words here, -1 it does not
	noOov := func(s *astate) int {
		d := s.data.(*ofState)
		c := k.cst(noBow.Val(), types.Typ[types.Uint32])
		a := k.bin(token.AND, catsAt(d.in, d.pos), c, types.Typ[types.Uint32])
		if t := k.truth(s, k.eq(a, c)); t != 0 {
			return t
		}
		return -k.truth(s, k.eq(a, k.cst(constant.MakeInt64(0), types.Typ[types.Uint32])))
	}
	// what is left of "found"
	rest := func(s *astate, f []*T) (open []*T, t int) {
		t = -1
		for _, a := range f {
			switch k.truth(s, a) {
			case 1:
				return nil, 1
			case 0:
				open = append(open, a)
				t = 0
			}
		}
		return
	}
	same := func(s *astate, a *T, f []*T) bool {
		open, t := rest(s, f)
		if t != 0 {
			return k.truth(s, a) == t
		}
		return len(open) == 1 && (a == open[0] || k.truth(s, k.eq(a, open[0])) == 1)
	}
	listDone := func(s *astate) bool {
		d := s.data.(*ofState)
		if d.list == nil || d.listErr != nil && k.nonNil(s, d.listErr) == 1 {
			return true
		}
		if k.gone(s, nil, d.list) {
			return true
		}
		for _, l := range d.ins {
			if l.list == d.list && k.gone(s, l, d.list) {
				return true
			}
		}
		return false
	}
	placed := func(s *astate, list *T) bool {
		d := s.data.(*ofState)
		for h, l := range d.rng {
			if l.list == list && !x.noRange[h] && k.gone(s, l, list) {
				return true
			}
		}
		return false
	}
	drained := func(s *astate) bool {
		d := s.data.(*ofState)
		return d.it != nil && k.truth(s, nextT(d.it, d.gen)) == -1
	}
	askedAll := func(s *astate) bool {
		d := s.data.(*ofState)
		return k.gone(s, d.plug, fld(s, "oovProviderPlugins"))
	}
	length := func(s *astate) *T { return k.lenOf(s, bytea(s)) }
	lenHL := func(s *astate, n *T) *T {
		wi := k.mk(&T{op: "res", s: "GetWordInfo", typ: types.NewPointer(wiT), args: []*T{n}})
		return k.convert(s, k.ldf(s, wi, wiT, "HeadwordLength"), types.Typ[types.Int16], types.Typ[types.Int])
	}

	// reached: 1 a node ends at the position, -1 none does
	reached := func(s *astate) int {
		d := s.data.(*ofState)
		l := k.elemAt(s, k.ldf(s, fld(s, "lattice"), lt, "endLists"), d.pos)
		for _, t := range []*T{d.ends, l} {
			switch r := k.rangeOf(s, k.lenOf(s, t)); {
			case r.hi <= 0:
				return -1
			case r.lo > 0:
				return 1
			}
		}
		return 0
	}
	// vars: the variables of truth values that live in memory
	boolT := types.Typ[types.Bool]
	vars := func(s *astate) (vs []*T) {
		for _, f := range s.stack {
			for _, t := range f.env {
				if t.op == "alloc" && t.typ != nil {
					if p, ok := t.typ.Underlying().(*types.Pointer); ok && isBool(p.Elem()) {
						vs = append(vs, t)
					}
				}
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
		return
	}
	cellKey := func(h *ssa.BasicBlock, a *T) string { return fmt.Sprintf("%p %s", h, a) }
	k.cl.pre = func(k *ai, s *astate, h *ssa.BasicBlock, pred int) {
		d := s.data.(*ofState)
		d.cells = map[*T]bool{}
		if !d.over && d.posH != nil {
			for _, a := range vars(s) {
				if !x.noCell[cellKey(h, a)] && same(s, k.load(s, a, boolT), d.found) {
					d.cells[a] = true
				}
			}
		}
		if d.over || d.posH != nil || !hasIn(k, h, nil, looks, lookup) {
			return
		}
		// before the first position: the end of the sentence is at the end of the text
		at := w.pos(h.Parent().Pos())
		if d.in == nil {
			x.bad(k, s, "notext", at, who+" goes through positions before it has a text")
			return
		}
		eos := k.ldf(s, fld(s, "lattice"), lt, "eosNode")
		for _, n := range []string{"Begin", "End"} {
			if v := k.ldf(s, eos, nt, n); k.equal(s, v, length(s)) != 1 {
				x.bad(k, s, "eos:"+n, at, fmt.Sprintf("%s starts with an end of sentence whose %s is %s, not the length of the text", who, n, shortT(v)))
			}
		}
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*ofState)
		if d.over {
			return
		}
		fr := s.top()
		at := w.pos(h.Parent().Pos())
		if d.posH == nil {
			if d.in == nil || !hasIn(k, h, nil, looks, lookup) {
				return
			}
			for _, p := range phisOf(h) {
				t := fr.env[p]
				e, isC := k.edgeVal(s, p).intVal()
				if isC && isIntT(p.Type()) && (e == 0 || e == -1) && t.op == "sym" && t.hdr == h {
					up := true
					for i, pb := range h.Preds {
						if k.loop(h)[pb] {
							b, n := linear(p.Edges[i])
							up = up && b == p && n == 1
						}
					}
					if up {
						d.posP, d.pos = p, k.add(t, k.num(-e))
					}
				}
			}
			if d.pos == nil {
				x.bad(k, s, "order", at, who+" does not go through the positions one by one, from the first")
				return
			}
			d.posH = h
			d.ends = k.elemAt(s, k.ldf(s, fld(s, "lattice"), lt, "endLists"), d.pos)
			return
		}
		enters := hasIn(k, h, nil, inserts, insert)
		takes := hasIn(k, h, nil, gets, get)
		asks := hasIn(k, h, isProvide, provides)
		if takes && d.it != nil {
			if d.id != nil {
				x.bad(k, s, "lost", at, who+" can go on without having entered a word it has taken")
			}
			d.wordH = h
			before := d.gen
			d.gen = k.mk(&T{op: "sym", s: fmt.Sprintf("gen@%p", h), typ: types.Typ[types.Int]})
			for _, p := range phisOf(h) {
				t := fr.env[p]
				if !x.noFlag[p] && isBool(p.Type()) && t.op == "sym" && t.hdr == h && k.edgeVal(s, p) == nextT(d.it, before) && fr.env[p] != nextT(d.it, before) {
					fr.env[p] = nextT(d.it, d.gen)
				}
			}
		}
		if asks {
			l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return namedOf(t) == provT })
			if ok {
				if l.list == nil || l.list != fld(s, "oovProviderPlugins") {
					x.bad(k, s, "providers", at, fmt.Sprintf("%s asks the providers of another list than the tokenizer's", who))
				}
				if d.plug != nil {
					x.bad(k, s, "again", at, who+" can ask the providers a second time at one position")
				}
				d.plug, d.asked = &l, 0
			}
		}
		if enters && !takes && !asks && d.list != nil {
			if l, ok := k.listLoopOf(s, h, isNodePtr); ok && l.list == d.list {
				d.ins[h] = &l
			}
		}
		if hasIn(k, h, storesRange, ranges) && !takes && !asks && d.list != nil {
			if l, ok := k.listLoopOf(s, h, isNodePtr); ok && l.list == d.list {
				d.rng[h] = &l
			}
		}
		if enters {
			// what remembers that something has entered
			flag := false
			for _, p := range phisOf(h) {
				t := fr.env[p]
				if x.noFlag[p] || flag || !isBool(p.Type()) || t.op != "sym" || t.hdr != h {
					continue
				}
				if e := k.edgeVal(s, p); e != nil && same(s, e, d.found) {
					d.found, flag = []*T{t}, true
				}
			}
			for _, a := range vars(s) {
				t := k.load(s, a, boolT)
				if d.cells[a] && !flag && k.truth(s, t) == 0 && !same(s, t, d.found) {
					d.found, flag = []*T{t}, true
				}
			}
			if !flag {
				switch {
				case takes && d.it != nil:
					d.found = append(d.found, d.n0)
				case d.ins[h] != nil:
					d.found = append(d.found, k.lt(k.num(0), k.lenOf(s, d.list)))
				default:
					d.found = append(d.found, k.mk(&T{op: "sym", s: fmt.Sprintf("found@%p", h), typ: types.Typ[types.Bool]}))
				}
			}
		}
		d.node, d.word0 = nil, d.words
	}
	// flags: at the end of a round they tell what has been found by then
	flags := func(s *astate, h *ssa.BasicBlock) {
		d := s.data.(*ofState)
		fr := s.top()
		for _, a := range vars(s) {
			if x.noCell[cellKey(h, a)] {
				continue
			}
			if v := k.load(s, a, boolT); !same(s, v, d.found) {
				x.noCell[cellKey(h, a)], x.changed = true, true
			}
		}
		for _, p := range phisOf(h) {
			if !isBool(p.Type()) || x.noFlag[p] {
				continue
			}
			t := fr.env[p]
			switch {
			case t.op == "res" && t.s == "Next":
				if v := k.edgeVal(s, p); v != nextT(d.it, d.gen) && !(k.truth(s, v) != 0 && k.truth(s, v) == k.truth(s, nextT(d.it, d.gen))) {
					x.noFlag[p], x.changed = true, true
				}
			case t.op == "sym" && t.hdr == h:
				if v := k.edgeVal(s, p); !same(s, v, d.found) {
					x.noFlag[p], x.changed = true, true
				}
			}
		}
	}
	endRound := func(s *astate, at string) {
		d := s.data.(*ofState)
		x.counts["rounds over positions"]++
		untouched := d.it == nil && d.plug == nil && !d.defAsk
		if untouched && (k.truth(s, bow(s)) == -1 || reached(s) == -1) {
			return
		}
		say := func(key, msg string) { x.bad(k, s, "round:"+key, at, who+" can go on to the next position "+msg) }
		switch {
		case d.it == nil:
			say("lookup", "without having looked up the words that begin here, where a word may begin and a node ends")
		case d.id != nil:
			say("word", "without having entered a word the dictionaries gave")
		case !drained(s):
			say("words", "before the dictionaries have given all their words")
		case !listDone(s):
			say("list", "without having entered all nodes a provider gave")
		case !askedAll(s) && noOov(s) != 1:
			say("providers", "without having asked every provider of unknown words")
		default:
			if _, t := rest(s, d.found); t != 1 {
				say("none", "without a node that begins here")
			}
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*ofState)
		if d.over || d.posH == nil {
			return
		}
		at := w.pos(h.Parent().Pos())
		if h == d.posH {
			endRound(s, at)
			return
		}
		if h == d.wordH {
			x.counts["rounds over words"]++
			if d.id != nil {
				x.bad(k, s, "word", at, who+" can go on to the next word without having entered this one")
			}
		}
		if d.plug != nil && h == d.plug.h {
			x.counts["rounds over providers"]++
			switch {
			case d.asked != 1:
				x.bad(k, s, "asked", at, fmt.Sprintf("%s can ask a provider %d times", who, d.asked))
			case !k.stepsByOne(s, *d.plug):
				x.bad(k, s, "step", at, who+" does not go on with the next provider")
			case !listDone(s):
				x.bad(k, s, "list", at, who+" can go on to the next provider without having entered all nodes of this one")
			}
		}
		if l := d.ins[h]; l != nil {
			if !k.stepsByOne(s, *l) {
				x.bad(k, s, "nodestep", at, who+" does not go on with the next node")
			}
			if d.node == nil {
				x.bad(k, s, "node", at, who+" can go on to the next node of a provider without having entered this one")
			}
		}
		if l := d.rng[h]; l != nil && !x.noRange[h] {
			e := k.elemAt(s, d.list, k.index(*l))
			if !k.stepsByOne(s, *l) || k.equal(s, k.ldf(s, e, nt, "Begin"), d.pos) != 1 || k.equal(s, k.ldf(s, e, nt, "End"), k.add(d.pos, lenHL(s, e))) != 1 {
				x.noRange[h], x.changed = true, true
			}
		}
		flags(s, h)
	}
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*ofState)
		at := w.posOf(c)
		if d.over {
			return nil, false, false
		}
		here := func(i *T, what string) {
			if d.pos == nil || k.equal(s, i, d.pos) != 1 {
				x.bad(k, s, "at:"+what, at, fmt.Sprintf("%s asks %s at %s, not at the position whose turn it is", who, what, shortT(i)))
			}
		}
		opaque := func() []*T { return k.opaque(s, s.top(), c, callee, args) }
		if isProvide(c) {
			in, i, has := args[1], args[2], args[3]
			if d.pos == nil {
				x.bad(k, s, "early", at, who+" asks a provider outside of the loop over positions")
				return opaque(), true, false
			}
			if in != d.in {
				x.bad(k, s, "ask:text", at, who+" asks a provider about another text")
			}
			here(i, "a provider")
			switch {
			case !drained(s):
				x.bad(k, s, "ask:early", at, who+" can ask a provider before the dictionaries have given all their words")
			case !listDone(s):
				x.bad(k, s, "ask:list", at, who+" can ask a provider without having entered the nodes of the one before")
			}
			if !same(s, has, d.found) {
				x.bad(k, s, "ask:found", at, fmt.Sprintf("%s tells a provider %s, which can differ from whether something has been found here", who, shortT(has)))
			}
			p := args[0]
			switch {
			case d.plug != nil && d.plug.list != nil && s.inLoop(d.plug.h) && p == k.elemAt(s, d.plug.list, k.index(*d.plug)):
				d.asked++
				if noOov(s) != -1 {
					x.bad(k, s, "ask:forbidden", at, who+" can ask the providers where the character category forbids unknown words")
				}
			case p == fld(s, "defaultOovProvider"):
				if d.defAsk {
					x.bad(k, s, "ask:twice", at, who+" can ask the default provider twice")
				}
				d.defAsk = true
				if _, t := rest(s, d.found); t != -1 {
					x.bad(k, s, "ask:default", at, who+" can ask the default provider although something has been found")
				}
				if !askedAll(s) && noOov(s) != 1 {
					x.bad(k, s, "ask:before", at, who+" can ask the default provider before the others")
				}
			default:
				x.bad(k, s, "ask:other", at, fmt.Sprintf("%s asks %s, which is neither the provider whose turn it is nor the default one", who, shortT(p)))
			}
			res := opaque()
			d.list, d.listErr = res[0], res[1]
			d.errs = append(d.errs, res[1])
			d.ins, d.rng = map[*ssa.BasicBlock]*listLoop{}, map[*ssa.BasicBlock]*listLoop{}
			return res, true, false
		}
		switch callee {
		case build:
			res := opaque()
			d.in = res[0]
			return res, true, false
		case canBow:
			if args[0] == d.in && d.pos != nil && k.equal(s, args[1], d.pos) == 1 {
				return []*T{bow(s)}, true, false
			}
			return []*T{k.mk(&T{op: "res", s: "CanBow", typ: types.Typ[types.Bool], args: []*T{args[0], args[1]}})}, true, false
		case cats:
			if args[0] == d.in && d.pos != nil && k.equal(s, args[1], d.pos) == 1 {
				return []*T{catsAt(d.in, d.pos)}, true, false
			}
			return []*T{catsAt(args[0], args[1])}, true, false
		case nodeWI:
			return []*T{k.mk(&T{op: "res", s: "GetWordInfo", typ: types.NewPointer(wiT), args: []*T{args[0]}})}, true, false
		case lookup:
			if d.it != nil {
				x.bad(k, s, "lookup:again", at, who+" can look up the words of a position twice")
			}
			if args[0] != fld(s, "lexicon") || d.in == nil || args[1] != bytea(s) {
				x.bad(k, s, "lookup:what", at, fmt.Sprintf("%s looks up %s in %s, not its text in its dictionaries", who, shortT(args[1]), shortT(args[0])))
			}
			here(args[2], "the dictionaries")
			if d.pos != nil && k.truth(s, bow(s)) != 1 {
				x.bad(k, s, "lookup:where", at, who+" can look up words where none may begin")
			}
			res := opaque()
			d.it, d.gen = res[0], k.sym("gen@0", types.Typ[types.Int])
			d.n0 = nextT(d.it, d.gen)
			return res, true, false
		case next:
			if args[0] == d.it {
				if k.truth(s, d.n0) == -1 {
					return []*T{k.boolean(false)}, true, false
				}
				return []*T{nextT(d.it, d.gen)}, true, false
			}
		case errF:
			if args[0] == d.it {
				e := itErr(d.it, d.gen)
				d.errs = append(d.errs, e)
				return []*T{e}, true, false
			}
		case get:
			if args[0] == d.it {
				if k.truth(s, nextT(d.it, d.gen)) != 1 {
					x.bad(k, s, "get", at, who+" can take a word although there may be none left")
				}
				if d.id != nil {
					x.bad(k, s, "lost", at, who+" can take a word without having entered the one before")
				}
				k.assume(s, d.n0, true)
				d.id = k.mk(&T{op: "res", s: "Get", typ: types.Typ[types.Int32], args: []*T{d.it, d.gen}, c0: 0})
				d.end = k.mk(&T{op: "res", s: "Get", typ: types.Typ[types.Int], args: []*T{d.it, d.gen}, c0: 1})
				res := []*T{d.id, d.end}
				d.gen = k.add(d.gen, k.num(1))
				return res, true, false
			}
		case insert:
			x.counts["nodes entered"]++
			if args[0] != fld(s, "lattice") {
				x.bad(k, s, "insert:lattice", at, who+" enters a node in another lattice")
			}
			b, e, n := args[1], args[2], args[3]
			switch {
			case d.id != nil && n.op == "alloc" && k.ldf(s, n, nt, "wordId") == d.id:
				x.insertWord(k, s, at, who, d, n, b, e, params, fld(s, "lexicon"))
				d.id, d.end = nil, nil
				d.words++
			case d.id != nil:
				x.bad(k, s, "insert:id", at, fmt.Sprintf("%s enters %s, not a node of the word the dictionaries gave", who, shortT(n)))
				d.id, d.end = nil, nil
			case d.list != nil:
				mine := false
				for h, l := range d.ins {
					if s.inLoop(h) && n == k.elemAt(s, d.list, k.index(*l)) {
						mine = true
					}
				}
				if !mine {
					x.bad(k, s, "insert:node", at, fmt.Sprintf("%s enters %s, not the node of the provider whose turn it is", who, shortT(n)))
				} else if d.node != nil {
					x.bad(k, s, "insert:twice", at, who+" can enter a node twice")
				}
				okB := k.equal(s, b, d.pos) == 1 || placed(s, d.list) && k.equal(s, b, k.ldf(s, n, nt, "Begin")) == 1
				okE := k.equal(s, e, k.add(d.pos, lenHL(s, n))) == 1 || placed(s, d.list) && k.equal(s, e, k.ldf(s, n, nt, "End")) == 1
				if !okB || !okE {
					x.bad(k, s, "insert:place", at, fmt.Sprintf("%s enters an unknown word from %s to %s, not from the position to where its own length ends", who, shortT(b), shortT(e)))
				}
				d.node = n
			default:
				x.bad(k, s, "insert:other", at, fmt.Sprintf("%s enters %s, which neither the dictionaries nor a provider gave for this position", who, shortT(n)))
			}
			d.found = []*T{k.boolean(true)}
			return opaque(), true, false
		case best:
			at := w.posOf(c)
			x.counts["ways to the end of the text"]++
			if d.posH == nil || d.in == nil || k.rangeOf(s, k.sub(length(s), d.pos)).hi > 0 {
				x.bad(k, s, "stop", at, who+" can read out a path without having visited every position of the text")
			}
			d.over = true
			return opaque(), true, false
		}
		if name, ok := params[callee]; ok {
			return []*T{k.mk(&T{op: "res", s: name, typ: types.Typ[types.Int16], args: []*T{args[0], args[1]}})}, true, false
		}
		return nil, false, true
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		d := s.data.(*ofState)
		e := res[1]
		if d.over {
			return
		}
		pos := w.posOf(at)
		if k.nonNil(s, e) == -1 {
			if k.rangeOf(s, k.lenOf(s, s.stack[0].env[tok.Params[2]])).hi > 0 {
				x.bad(k, s, "silent", pos, who+" can succeed on a text that is not empty without having read out a path")
			}
			return
		}
		if d.posH == nil {
			return
		}
		for _, o := range d.errs {
			if e == o {
				return
			}
		}
		// a failure of its own: nothing has been found
		_, t := rest(s, d.found)
		all := d.it != nil && drained(s) && (askedAll(s) || noOov(s) == 1) && listDone(s) && (d.defAsk || k.nonNil(s, fld(s, "defaultOovProvider")) == -1)
		if t != -1 || !all || reached(s) != 1 {
			x.bad(k, s, "refused", pos, who+" can fail although something may have been found, or before everything has been asked")
		}
	}
	k.run(tok, func(s *astate) {
		s.data = &ofState{ins: map[*ssa.BasicBlock]*listLoop{}, rng: map[*ssa.BasicBlock]*listLoop{}}
		for _, p := range tok.Params {
			k.val(s, s.top(), p)
		}
	})
	if k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(tok.Pos()), who+" could not be analysed completely")
	}
}

func (x *ofCheck) insertWord(k *ai, s *astate, at, who string, d *ofState, n, b, e *T, params map[*ssa.Function]string, lex *T) {
	nt := x.node
	if k.equal(s, b, d.pos) != 1 || e != d.end {
		x.bad(k, s, "insert:range", at, fmt.Sprintf("%s enters a word from %s to %s, not from the position to the word's own end", who, shortT(b), shortT(e)))
	}
	if k.ldf(s, n, nt, "lexicon") != lex {
		x.bad(k, s, "insert:lexicon", at, who+" enters a word that does not know its dictionaries")
	}
	var names []string
	for _, name := range params {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		v := k.ldf(s, n, nt, name)
		if !(v.op == "res" && v.s == name && v.args[0] == lex && v.args[1] == d.id) {
			x.bad(k, s, "insert:"+name, at, fmt.Sprintf("%s enters a word with %s as its %s", who, shortT(v), name))
		}
	}
}

// inLoop: some frame is inside the loop headed by h, in a state reached
// through its generic entry.
func (s *astate) inLoop(h *ssa.BasicBlock) bool {
	for _, f := range s.stack {
		if f.generic[h] {
			return true
		}
	}
	return false
}

// ---- the iterators ---------------------------------------------------------------

// drive interprets f, a method whose receiver is already in an arbitrary state.
func (x *ofCheck) drive(f *ssa.Function, cl aclient, init func(k *ai, s *astate)) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who)
	k := newAI(w, cl)
	k.keep = true
	n := 0
	exit := cl.exit
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how == aReturn {
			n++
			x.r.count("ways through the iterators", 1)
			exit(k, s, how, at, res)
		}
	}
	k.run(f, func(s *astate) {
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		if init != nil {
			init(k, s)
		}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func (x *ofCheck) setIterator() {
	w := x.w
	m := func(pkg, typ, name string) *ssa.Function {
		return w.must(w.method(pkg, typ, name), typ+"."+name)
	}
	lst, st := w.typ("dictionary", "LexiconSet"), w.typ("dictionary", "LexiconSetIterator")
	wt := w.typ("dictionary", "DoubleArrayLexiconIterator")
	lookup := m("dictionary", "DoubleArrayLexicon", "Lookup")
	next, get, errF := m("dictionary", "DoubleArrayLexiconIterator", "Next"), m("dictionary", "DoubleArrayLexiconIterator", "Get"), m("dictionary", "DoubleArrayLexiconIterator", "Err")
	lookT := func(k *ai, lex, text, off *T) *T {
		return k.mk(&T{op: "res", s: "Lookup", typ: types.NewPointer(wt), args: []*T{lex, text, off}})
	}
	nextT := func(k *ai, it *T) *T {
		return k.mk(&T{op: "res", s: "Next", typ: types.Typ[types.Bool], args: []*T{it}})
	}
	errT := func(k *ai, it *T) *T {
		return k.mk(&T{op: "res", s: "Err", typ: types.Universe.Lookup("error").Type(), args: []*T{it}})
	}
	call := func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		switch callee {
		case lookup:
			return []*T{lookT(k, args[0], args[1], args[2])}, true, false
		case next:
			return []*T{nextT(k, args[0])}, true, false
		case errF:
			return []*T{errT(k, args[0])}, true, false
		}
		return nil, false, true
	}
	// where the search begins
	first := int64(-1) // the dictionary searched first when there are several
	f := m("dictionary", "LexiconSet", "Lookup")
	who := w.fname(f)
	x.drive(f, aclient{call: call, exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		pos := w.posOf(at)
		fr := s.stack[0]
		lex := k.ldf(s, fr.env[f.Params[0]], lst, "lexicons")
		o := res[0]
		if k.ldf(s, o, st, "text") != fr.env[f.Params[1]] || k.ldf(s, o, st, "offset") != fr.env[f.Params[2]] || k.ldf(s, o, st, "lexicons") != lex {
			x.bad(k, s, "start:what", pos, who+" does not search the text it was given, from where it was told, in all dictionaries")
		}
		id := k.ldf(s, o, st, "dictId")
		c, isC := id.intVal()
		n := k.rangeOf(s, k.lenOf(s, lex))
		switch {
		case isC && c == 0 && n.hi <= 1:
		case isC && c == 0 && first != 1:
			first = 0
		case isC && c == 1 && first != 0 && (n.lo >= 2 || k.equal(s, k.lenOf(s, lex), k.num(1)) == -1):
			first = 1
		default:
			x.bad(k, s, "start:first", pos, fmt.Sprintf("%s can start with dictionary %s", who, shortT(id)))
		}
		if k.ldf(s, o, st, "dalit") != lookT(k, k.elemAt(s, lex, id), fr.env[f.Params[1]], fr.env[f.Params[2]]) {
			x.bad(k, s, "start:words", pos, who+" does not start with the words of the dictionary it starts with")
		}
	}}, nil)
	// how it goes on
	f = m("dictionary", "LexiconSetIterator", "Next")
	who2 := w.fname(f)
	recv := func(s *astate) *T { return s.stack[0].env[f.Params[0]] }
	type round struct{ id, da *T }
	var step func(k *ai, s *astate, at string, id0, da0 *T)
	step = func(k *ai, s *astate, at string, id0, da0 *T) {
		o := recv(s)
		id, da := k.ldf(s, o, st, "dictId"), k.ldf(s, o, st, "dalit")
		if id == id0 && da == da0 {
			return
		}
		x.r.count("steps from one dictionary to the next", 1)
		lex := k.ldf(s, o, st, "lexicons")
		n := k.lenOf(s, lex)
		if k.truth(s, nextT(k, da0)) != -1 {
			x.bad(k, s, "go:early", at, who2+" can leave a dictionary that has words left")
		}
		nx := k.add(id0, k.num(1))
		more := k.rangeOf(s, k.sub(n, nx)) // > 0: there is a dictionary after this one
		c, isC := id.intVal()
		ok := false
		if first == 0 {
			ok = k.equal(s, id, nx) == 1 && more.lo > 0
		} else {
			ok = k.equal(s, id, nx) == 1 && more.lo > 0 || isC && c == 0 && more.hi <= 0 ||
				id.op == "%" && k.equal(s, id.args[0], nx) == 1 && k.equal(s, id.args[1], n) == 1
			ok = ok && k.equal(s, id0, k.num(0)) == -1
		}
		if !ok {
			x.bad(k, s, "go:next", at, fmt.Sprintf("%s goes on from dictionary %s with %s, which is not the one whose turn it is", who2, shortT(id0), shortT(id)))
		}
		if da != lookT(k, k.elemAt(s, lex, id), k.ldf(s, o, st, "text"), k.ldf(s, o, st, "offset")) {
			x.bad(k, s, "go:words", at, who2+" goes on with something else than that dictionary's words at the same place")
		}
	}
	x.drive(f, aclient{call: call,
		clone: func(d any) any { y := *d.(*round); return &y },
		key: func(d any) string {
			y := d.(*round)
			return fmt.Sprint(y.id.id, ",", y.da.id)
		},
		head: func(k *ai, s *astate, h *ssa.BasicBlock) {
			o := recv(s)
			s.data = &round{k.ldf(s, o, st, "dictId"), k.ldf(s, o, st, "dalit")}
			k.bound(s, k.ldf(s, o, st, "dictId"), ival{lo: 0, hi: 1 << 40})
			// the first dictionary is there
			k.bound(s, k.sub(k.lenOf(s, k.ldf(s, o, st, "lexicons")), k.ldf(s, o, st, "dictId")), ival{lo: 1, hi: 1 << 40})
		},
		back: func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*round)
			step(k, s, w.pos(f.Pos()), d.id, d.da)
		},
		exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			pos := w.posOf(at)
			d := s.data.(*round)
			step(k, s, pos, d.id, d.da)
			o := recv(s)
			id, da := k.ldf(s, o, st, "dictId"), k.ldf(s, o, st, "dalit")
			v := k.truth(s, res[0])
			if res[0] == nextT(k, da) && v == 0 {
				v = 2
			}
			last := k.equal(s, id, k.num(0)) == 1
			if first == 0 {
				last = k.rangeOf(s, k.sub(k.lenOf(s, k.ldf(s, o, st, "lexicons")), k.add(id, k.num(1)))).hi <= 0
			}
			failed := k.nonNil(s, errT(k, da)) == 1 || k.nonNil(s, errT(k, d.da)) == 1
			ok := false
			switch v {
			case 1:
				ok = k.truth(s, nextT(k, da)) == 1
			case -1:
				ok = failed || last && k.truth(s, nextT(k, da)) == -1
			case 2:
				ok = last
			}
			if !ok {
				x.bad(k, s, "go:answer", pos, fmt.Sprintf("%s can answer %s, which is not whether the dictionaries have a word left", who2, shortT(res[0])))
			}
		}}, func(k *ai, s *astate) {
		o := recv(s)
		id := k.ldf(s, o, st, "dictId")
		s.data = &round{id, k.ldf(s, o, st, "dalit")}
		k.bound(s, id, ival{lo: 0, hi: 1 << 40})
		k.bound(s, k.sub(k.lenOf(s, k.ldf(s, o, st, "lexicons")), id), ival{lo: 1, hi: 1 << 40})
	})
	// what it gives
	f = m("dictionary", "LexiconSetIterator", "Get")
	who3 := w.fname(f)
	x.drive(f, aclient{
		clone: func(d any) any { y := *d.(*int); return &y },
		key:   func(d any) string { return fmt.Sprint(*d.(*int)) },
		call: func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			n := s.data.(*int)
			switch callee {
			case get:
				*n++
				return []*T{k.mk(&T{op: "res", s: "Get", typ: types.Typ[types.Int32], args: args, c0: 0}), k.mk(&T{op: "res", s: "Get", typ: types.Typ[types.Int], args: args, c0: 1})}, true, false
			case errF:
				return []*T{errT(k, args[0])}, true, false
			}
			return nil, false, true
		},
		exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			da := k.ldf(s, recv(s), st, "dalit")
			if n := *s.data.(*int); n != 1 {
				x.bad(k, s, "give:once", w.posOf(at), fmt.Sprintf("%s takes %d words of its dictionary at once", who3, n))
			}
			if k.nonNil(s, errT(k, da)) == 1 {
				return
			}
			if !(res[1].op == "res" && res[1].s == "Get" && res[1].c0 == 1 && res[1].args[0] == da) {
				x.bad(k, s, "give:end", w.posOf(at), fmt.Sprintf("%s gives %s, not where its dictionary's word ends", who3, shortT(res[1])))
			}
		}}, func(k *ai, s *astate) { s.data = new(int) })
}

func (x *ofCheck) wordIterator() {
	w := x.w
	m := func(pkg, typ, name string) *ssa.Function {
		return w.must(w.method(pkg, typ, name), typ+"."+name)
	}
	lt, wt, dt := w.typ("dictionary", "DoubleArrayLexicon"), w.typ("dictionary", "DoubleArrayLexiconIterator"), w.typ("dartsclone", "Iterator")
	search := m("dartsclone", "DoubleArray", "CommonPrefixSearchItr")
	next, get, errF := m("dartsclone", "Iterator", "Next"), m("dartsclone", "Iterator", "Get"), m("dartsclone", "Iterator", "Err")
	idsOf := m("dictionary", "wordIdTable", "get")
	i32s := types.NewSlice(types.Typ[types.Int32])
	type st struct{ gets int }
	da := func(k *ai, name string, typ types.Type, d *st, it *T, c0 int64) *T {
		n := 0
		if d != nil {
			n = d.gets
		}
		return k.mk(&T{op: "res", s: name, typ: typ, args: []*T{it, k.num(int64(n))}, c0: c0})
	}
	errT := types.Universe.Lookup("error").Type()
	call := func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d, _ := s.data.(*st)
		switch callee {
		case search:
			return []*T{k.mk(&T{op: "res", s: "search", typ: types.NewPointer(dt), args: args})}, true, false
		case next:
			return []*T{da(k, "Next", types.Typ[types.Bool], d, args[0], 0)}, true, false
		case errF:
			return []*T{da(k, "Err", errT, d, args[0], 0)}, true, false
		case get:
			d.gets++
			return []*T{da(k, "Get", types.Typ[types.Int], d, args[0], 0), da(k, "Get", types.Typ[types.Int], d, args[0], 1)}, true, false
		case idsOf:
			return []*T{k.mk(&T{op: "res", s: "ids", typ: i32s, args: args})}, true, false
		}
		return nil, false, true
	}
	f := m("dictionary", "DoubleArrayLexicon", "Lookup")
	who := w.fname(f)
	x.drive(f, aclient{call: call, exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		fr := s.stack[0]
		lex := fr.env[f.Params[0]]
		d := k.ldf(s, res[0], wt, "dait")
		if !(d.op == "res" && d.s == "search" && d.args[0] == k.ldf(s, lex, lt, "trie") && d.args[1] == fr.env[f.Params[1]] && d.args[2] == fr.env[f.Params[2]]) ||
			k.ldf(s, res[0], wt, "wordIdT") != k.ldf(s, lex, lt, "wordIdT") {
			x.bad(k, s, "words:what", w.posOf(at), who+" does not search its own trie for what it was given, with its own table of word ids")
		}
		n := k.ldf(s, res[0], wt, "index")
		if k.rangeOf(s, n).hi >= 0 && k.rangeOf(s, k.sub(k.lenOf(s, k.ldf(s, res[0], wt, "wordIds")), n)).hi > 0 {
			x.bad(k, s, "words:start", w.posOf(at), who+" starts in the middle of a list of words")
		}
	}}, nil)

	f = m("dictionary", "DoubleArrayLexiconIterator", "Next")
	who2 := w.fname(f)
	recv := func(s *astate) *T { return s.stack[0].env[f.Params[0]] }
	// have: 1 the list has a word left, -1 it has not
	have := func(k *ai, s *astate, n, ids *T) int {
		r, l := k.rangeOf(s, n), k.rangeOf(s, k.sub(k.lenOf(s, ids), n))
		switch {
		case r.hi < 0 || l.hi <= 0:
			return -1
		case r.lo >= 0 && l.lo > 0:
			return 1
		}
		return 0
	}
	keep := func(d any) any { y := *d.(*st); return &y }
	key := func(d any) string { return fmt.Sprint(d.(*st).gets) }
	start := func(k *ai, s *astate) { s.data = &st{} }
	x.drive(f, aclient{call: call, clone: keep, key: key, exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		o := recv(s)
		it := k.ldf(s, o, wt, "dait")
		d := s.data.(*st)
		if d.gets != 0 {
			x.bad(k, s, "words:taken", w.posOf(at), who2+" can take what the trie has found")
		}
		nx, e := da(k, "Next", types.Typ[types.Bool], nil, it, 0), da(k, "Err", errT, nil, it, 0)
		h := have(k, s, k.ldf(s, o, wt, "index"), k.ldf(s, o, wt, "wordIds"))
		ok := false
		switch k.truth(s, res[0]) {
		case 1:
			ok = h == 1 || k.truth(s, nx) == 1
		case -1:
			ok = k.nonNil(s, e) == 1 || h == -1 && k.truth(s, nx) == -1
		default:
			ok = res[0] == nx && h == -1
		}
		if !ok {
			x.bad(k, s, "words:answer", w.posOf(at), fmt.Sprintf("%s can answer %s, which is not whether the list or the trie has a word left", who2, shortT(res[0])))
		}
	}}, start)

	f = m("dictionary", "DoubleArrayLexiconIterator", "Get")
	who3 := w.fname(f)
	var n0, ids0, len0 *T
	x.drive(f, aclient{call: call, clone: keep, key: key, exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		o := recv(s)
		it := k.ldf(s, o, wt, "dait")
		d := s.data.(*st)
		if k.nonNil(s, da(k, "Err", errT, d, it, 0)) == 1 {
			return
		}
		h := have(k, s, n0, ids0)
		ids, n, l := ids0, n0, len0
		switch {
		case d.gets == 0 && h == 1:
		case d.gets == 1 && h == -1:
			ids = k.mk(&T{op: "res", s: "ids", typ: i32s, args: []*T{k.ldf(s, o, wt, "wordIdT"), da(k, "Get", types.Typ[types.Int], d, it, 0)}})
			n, l = k.num(0), da(k, "Get", types.Typ[types.Int], d, it, 1)
		default:
			x.bad(k, s, "words:turn", w.posOf(at), who3+" can go on with what the trie has found before the list is used up, or the other way round")
			return
		}
		switch {
		case res[0] != k.elemAt(s, ids, n):
			x.bad(k, s, "words:word", w.posOf(at), fmt.Sprintf("%s gives %s, not the word whose turn it is", who3, shortT(res[0])))
		case res[1] != l:
			x.bad(k, s, "words:end", w.posOf(at), fmt.Sprintf("%s gives %s, not where the word ends", who3, shortT(res[1])))
		case k.ldf(s, o, wt, "wordIds") != ids || k.ldf(s, o, wt, "length") != l:
			x.bad(k, s, "words:kept", w.posOf(at), who3+" does not keep the list it is in, or where its words end")
		case k.equal(s, k.ldf(s, o, wt, "index"), k.add(n, k.num(1))) != 1:
			x.bad(k, s, "words:on", w.posOf(at), fmt.Sprintf("%s goes on with word %s of the list", who3, shortT(k.ldf(s, o, wt, "index"))))
		}
	}}, func(k *ai, s *astate) {
		start(k, s)
		n0, ids0, len0 = k.ldf(s, recv(s), wt, "index"), k.ldf(s, recv(s), wt, "wordIds"), k.ldf(s, recv(s), wt, "length")
	})
	x.trieIterator()
}

// trieIterator: nothing is lost between asking whether there is something and
// taking it.
func (x *ofCheck) trieIterator() {
	w := x.w
	dt := w.typ("dartsclone", "Iterator")
	m := func(name string) *ssa.Function {
		return w.must(w.method("dartsclone", "Iterator", name), "Iterator."+name)
	}
	fetch := func(f *ssa.Function) (g *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if h := c.Common().StaticCallee(); h != nil && h.Signature.Recv() != nil && namedOf(h.Signature.Recv().Type()) == dt && h.Signature.Results().Len() == 2 && isIntT(h.Signature.Results().At(0).Type()) && isIntT(h.Signature.Results().At(1).Type()) {
						g = h
					}
				}
			}
		}
		return
	}
	for _, name := range []string{"Next", "Get"} {
		f := m(name)
		who := w.fname(f)
		g := fetch(f)
		if g == nil || g == f {
			continue // written in another way
		}
		var v0, o0 *T
		recv := func(s *astate) *T { return s.stack[0].env[f.Params[0]] }
		x.drive(f, aclient{
			clone: func(d any) any { y := *d.(*int); return &y },
			key:   func(d any) string { return fmt.Sprint(*d.(*int)) },
			call: func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
				if callee == g {
					*s.data.(*int)++
					k.bound(s, k.sym("found", types.Typ[types.Int]), ival{lo: -1, hi: 1 << 40})
					return []*T{k.sym("found", types.Typ[types.Int]), k.sym("place", types.Typ[types.Int])}, true, false
				}
				return nil, false, true
			},
			exit: func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
				n := *s.data.(*int)
				o := recv(s)
				none := k.num(-1)
				v, p := k.ldf(s, o, dt, "rvalue"), k.ldf(s, o, dt, "roffset")
				fv, fp := k.sym("found", types.Typ[types.Int]), k.sym("place", types.Typ[types.Int])
				kept := k.equal(s, v0, none)
				pos := w.posOf(at)
				failed := k.nonNil(s, k.ldf(s, o, dt, "err")) == 1
				if name == "Next" {
					if n == 0 && failed && k.truth(s, res[0]) == -1 {
						return
					}
					switch {
					case kept == 0, n > 1, kept == 1 && n != 1, kept == -1 && n != 0:
						x.bad(k, s, "trie:peek", pos, who+" looks for the next key more than once, or although it has one")
					case kept == 1 && (k.equal(s, v, fv) != 1 || p != fp && k.equal(s, v, none) != 1):
						x.bad(k, s, "trie:keep", pos, who+" does not keep what it has found")
					case kept == -1 && (v != v0 || p != o0):
						x.bad(k, s, "trie:keep", pos, who+" changes what it has found")
					}
					no, yes := s.clone(k), s.clone(k)
					ok1 := !k.bound(no, v, ival{lo: -1, hi: -1}) || k.equal(no, v, none) == -1 || k.truth(no, res[0]) == -1
					ok2 := !k.bound(yes, v, ival{lo: 0, hi: 1 << 40}) || k.truth(yes, res[0]) == 1
					if !ok1 || !ok2 {
						x.bad(k, s, "trie:answer", pos, fmt.Sprintf("%s answers %s, not whether it has found a key", who, shortT(res[0])))
					}
					return
				}
				switch {
				case kept == -1 && n == 0:
					if res[0] != v0 || res[1] != o0 {
						x.bad(k, s, "trie:give", pos, who+" does not give what it has kept")
					}
					if k.equal(s, v, none) != 1 {
						x.bad(k, s, "trie:twice", pos, who+" can give the same key again")
					}
				case kept == 1 && n == 1:
					if res[0] != fv && k.equal(s, res[0], fv) != 1 || res[1] != fp {
						x.bad(k, s, "trie:give", pos, who+" does not give what it has found")
					}
					if k.equal(s, v, none) != 1 {
						x.bad(k, s, "trie:twice", pos, who+" can give the same key again")
					}
				default:
					x.bad(k, s, "trie:turn", pos, who+" can pass over a key it has kept, or give one it has not looked for")
				}
			}}, func(k *ai, s *astate) {
			s.data = new(int)
			v0, o0 = k.ldf(s, recv(s), dt, "rvalue"), k.ldf(s, recv(s), dt, "roffset")
			k.bound(s, v0, ival{lo: -1, hi: 1 << 40})
		})
	}
	f := w.must(w.method("dartsclone", "DoubleArray", "CommonPrefixSearchItr"), "DoubleArray.CommonPrefixSearchItr")
	who := w.fname(f)
	at := w.typ("dartsclone", "DoubleArray")
	x.drive(f, aclient{exit: func(k *ai, s *astate, how aexit, in ssa.Instruction, res []*T) {
		fr := s.stack[0]
		o := res[0]
		if k.ldf(s, o, dt, "array") != k.ldf(s, fr.env[f.Params[0]], at, "array") || k.ldf(s, o, dt, "key") != fr.env[f.Params[1]] || k.ldf(s, o, dt, "offset") != fr.env[f.Params[2]] ||
			k.equal(s, k.ldf(s, o, dt, "rvalue"), k.num(-1)) != 1 || k.nonNil(s, k.ldf(s, o, dt, "err")) != -1 {
			x.bad(k, s, "trie:start", w.posOf(in), who+" does not start at the place it was given, in its own array, with nothing found")
		}
	}}, nil)
}
