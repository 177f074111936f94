package main

// C09: each lexicon column comes back through its own accessor.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "abstract interpretation of the path of each column: line to entry, entry to record, record to accessor, accessor to morpheme, lattice node and printed line; each end compared with the column as a term", checkColumns)
}

// where each column goes, in a line of a lexicon
const (
	colKey, colLeft, colRight, colCost, colSurface, colPos = 0, 1, 2, 3, 4, 5
	colReading, colNormalized, colDicform                  = 11, 12, 13
	colA, colB, colStructure                               = 15, 16, 17
)

type columns struct {
	*layout
	sl               *slots
	readRecord, find *ssa.Function
	// the parameters of find, by field of WordInfo
	finders map[*ssa.Function]map[string]int
	// tables of parts of speech keep the memory they are given
	keepsGiven bool
}

func checkColumns(w *World, r *Report) {
	r.Explanation = "Each line of a lexicon is followed, on all paths of the builder, to the entry it makes; the fields of the entry are compared with the columns as terms. Records are followed from the entry to the file and back to the accessors (as in C08), and on to the morpheme, to the lattice node and to the printed line."
	l := &layout{w: w, r: r, rule: "columns"}
	l.classify()
	x := &columns{layout: l, finders: map[*ssa.Function]map[string]int{}}
	x.sl = l.builderLexicon()
	l.lexicon()
	x.entries()
	x.findersOf()
	x.units()
	x.posIds()
	if x.keepsGiven {
		x.lookups(func(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
			if x.ownStrings(v, in.Block(), 0) < 0 {
				x.bad(nil, nil, "own:"+w.fname(f), w.posOf(in), w.fname(f)+" looks up a part of speech in memory that may be used for another one later")
			}
		})
	}
	x.delegates()
	x.nodes()
	x.morphemes()
	x.printed()
}

// isReader: a function that gives the columns of the next line.
func (x *columns) isReader(f *ssa.Function) bool {
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != x.w.rel("dictionary") || f.Signature.Results().Len() != 2 || f.Signature.Recv() == nil {
		return false
	}
	res := f.Signature.Results()
	e := sliceOfT(res.At(0).Type())
	if e == nil || !isStrT(e) || !isErrorType(res.At(1).Type()) {
		return false
	}
	return len(x.w.reachable([]*ssa.Function{f})) > 1
}

// column: t is column i of the line.
func (x *columns) column(t, cols *T) (int64, bool) {
	for t.op == "conv" && len(t.args) == 1 && isStrT(t.typ) {
		t = t.args[0]
	}
	if t.op != "load" || t.args[0].op != "idx" {
		return 0, false
	}
	base, i := t.args[0].args[0], t.args[0].args[1]
	n, ok := i.intVal()
	return n, ok && base == cols
}

// number: t is the number in column i of the line, in base 10.
func (x *columns) number(t, cols *T) (int64, bool) {
	cs, i, ok := parsed(t)
	if !ok || cs != cols {
		return 0, false
	}
	p := unconv(t, 2)
	if strings.HasPrefix(p.s, "strconv.ParseInt") {
		if b, isC := p.args[1].intVal(); !isC || b != 10 {
			return 0, false
		}
	}
	return i, true
}

// errOf: the error of the call whose first result t is.
func (k *ai) errOf(t *T, i int64) *T {
	n := *t
	n.c0 = i
	n.typ = types.Universe.Lookup("error").Type()
	n.id = 0
	return k.mk(&n)
}

type colState struct {
	cols, err *T
	old       *T // the entries before
	pos       map[*T][]*T
	gets      []string
	get       map[*T]*T // result of a lookup in the tree -> key
	puts      int
}

func (d *colState) clone() any {
	n := *d
	n.pos = map[*T][]*T{}
	for a, b := range d.pos {
		n.pos[a] = b
	}
	n.get = map[*T]*T{}
	for a, b := range d.get {
		n.get[a] = b
	}
	return &n
}

func (d *colState) key() string {
	id := func(t *T) int {
		if t == nil {
			return 0
		}
		return t.id
	}
	var ps []string
	for a, b := range d.pos {
		ps = append(ps, fmt.Sprint(a.id, len(b)))
	}
	sort.Strings(ps)
	return fmt.Sprint(id(d.cols), id(d.err), id(d.old), ps, d.puts, mapKey(d.get))
}

// same: whether x and y are known to be equal (1), or different (-1).
func (k *ai) same(s *astate, x, y *T) int {
	if v := k.equal(s, x, y); v != 0 {
		return v
	}
	return k.truth(s, k.eq(x, y))
}

// textOf: the reader at recv reads what was given.
func (x *columns) textOf(k *ai, s *astate, recv, want *T) bool {
	if hasTerm(recv, want) {
		return true
	}
	for a, v := range s.mem {
		if within(a, recv) && hasTerm(v, want) {
			return true
		}
	}
	return false
}

// plainCalls: the calls that are not followed.
func (x *columns) posCall(k *ai, s *astate, ci ssa.CallInstruction) (list *T, ok bool) {
	com := ci.Common()
	if !com.IsInvoke() || com.Method.Name() != "GetPosId" || len(com.Args) != 1 {
		return nil, false
	}
	return k.val(s, s.top(), com.Args[0]), true
}

// entries: BuildLexicon.
func (x *columns) entries() {
	w := x.w
	dt := w.typ("dictionary", "DictionaryBuilder")
	f := w.must(w.method("dictionary", "DictionaryBuilder", "BuildLexicon"), "DictionaryBuilder.BuildLexicon")
	who := w.fname(f)
	x.r.oblige("every line of a lexicon becomes one entry, column by column")
	st := dt.Underlying().(*types.Struct)
	fEnt := oneField(dt, "the entries", func(t types.Type) bool { e := sliceOfT(t); return e != nil && namedOf(e) != nil })
	k := newAI(w, aclient{})
	k.keep, k.unroll = true, true
	k.keepFact = func(s *astate, t *T) bool { return true }
	var recv, input *T
	ents := func(s *astate) *T {
		return k.load(s, k.fld(recv, dt, fEnt), st.Field(fEnt).Type())
	}
	k.cl.clone = func(d any) any { return d.(*colState).clone() }
	k.cl.key = func(d any) string { return d.(*colState).key() }
	x.lineLoads(k, who, func(s *astate, t *T) bool { return t == s.data.(*colState).cols })
	check := func(s *astate, at string) { x.entry(k, s, who, recv, ents(s), at) }
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*colState)
		if list, ok := x.posCall(k, s, ci); ok {
			cs := k.elemsOf(s, list)
			res := k.opaque(s, s.top(), ci, callee, args)
			d.pos[res[0]] = cs
			return res, true, false
		}
		if callee == nil {
			return nil, false, true
		}
		if x.isReader(callee) {
			if d.cols != nil && k.nonNil(s, d.err) != 1 {
				x.bad(k, s, "again", w.posOf(ci), who+" reads another line before it is done with one")
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			d.cols, d.err = res[0], res[1]
			d.old = ents(s)
			d.puts = 0
			x.readRecord = callee
			if !x.textOf(k, s, args[0], input) {
				x.bad(k, s, "input", w.posOf(ci), who+" reads lines from something else than its input")
			}
			return res, true, false
		}
		if n := namedOf2(callee); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "redblacktree") && len(args) > 1 {
			switch callee.Name() {
			case "Get":
				res := k.opaque(s, s.top(), ci, callee, args)
				d.get[res[0]] = args[1]
				return res, true, false
			case "Put":
				d.puts++
				x.put(k, s, d, args[1], args[2], func(key, msg string) { x.bad(k, s, key, w.posOf(ci), who+" "+msg) })
				return k.opaque(s, s.top(), ci, callee, args), true, false
			}
		}
		return nil, false, true
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*colState)
		if s.top().fn != f || d.cols == nil {
			return
		}
		check(s, w.pos(f.Pos()))
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		d := s.data.(*colState)
		if k.nonNil(s, res[0]) != -1 {
			return
		}
		if d.cols != nil && k.nonNil(s, d.err) == -1 {
			check(s, w.posOf(at))
		}
	}
	k.run(f, func(s *astate) {
		s.data = &colState{pos: map[*T][]*T{}, get: map[*T]*T{}}
		for _, p := range f.Params {
			t := k.val(s, s.top(), p)
			if p == f.Params[0] {
				recv = t
			} else if !types.Implements(p.Type(), w.typ("dictionary", "PosIdStore").Underlying().(*types.Interface)) {
				input = t
			}
		}
	})
	if k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	x.r.floor("lines followed to an entry", 1)
}

func namedOf2(f *ssa.Function) *types.Named {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

// entry: one round of the builder; the last line became the last entry.
func (x *columns) entry(k *ai, s *astate, who string, recv, now *T, at string) {
	d := s.data.(*colState)
	bad := func(key, msg string) { x.bad(k, s, key, at, who+" "+msg) }
	if now.op != "append1" || len(now.args) != 2 || now.args[0] != d.old {
		bad("append", "does not add exactly one entry, at the end, for a line")
		return
	}
	x.r.count("lines followed to an entry", 1)
	e := now.args[1]
	get := func(path string) *T { return x.at(k, s, e, path) }
	cols := d.cols
	// the trie key: the only other string of the entry that is column 0 or ""
	var key *T
	entT := namedOf(e.typ)
	if entT == nil {
		if p, ok := e.typ.Underlying().(*types.Pointer); ok {
			entT = namedOf(p.Elem())
		}
	}
	if entT == nil {
		bad("entry", "adds something that is not an entry")
		return
	}
	want := []struct {
		slot, what string
		col        int64
		num        bool
	}{
		{"surface", "the surface", colSurface, false},
		{"normalized", "the normalized form", colNormalized, false},
		{"reading", "the reading form", colReading, false},
		{"A", "the A units", colA, false},
		{"B", "the B units", colB, false},
		{"structure", "the word structure", colStructure, false},
		{"left", "the left id", colLeft, true},
		{"right", "the right id", colRight, true},
		{"cost", "the cost", colCost, true},
		{"dicform", "the dictionary-form word id", colDicform, true},
	}
	for _, f := range want {
		p := x.sl.path[f.slot]
		if p == "" {
			bad("slot:"+f.slot, "has no place known for "+f.what)
			continue
		}
		v := get(p)
		x.r.count("columns compared", 1)
		if v == nil {
			bad("col:"+f.slot, "does not set "+f.what)
			continue
		}
		if f.num {
			if i, ok := x.number(v, cols); ok && i == f.col {
				if k.nonNil(s, k.errOf(unconv(v, 2), 1)) != -1 {
					bad("err:"+f.slot, "stores "+f.what+" although the column may not be a number")
				}
				continue
			}
			if n, isC := unconv(v, 4).intVal(); isC && f.slot == "dicform" && n == -1 && x.colIs(k, s, cols, colDicform, "*") {
				continue
			}
		} else if i, ok := x.column(v, cols); ok && i == f.col {
			continue
		}
		bad("col:"+f.slot, fmt.Sprintf("stores %s as %s, not column %d", shortT(v), f.what, f.col))
	}
	// the part of speech
	x.r.count("columns compared", 1)
	if p := get(x.sl.path["pos"]); p == nil || !x.posOf(p, d.pos, cols, colPos) {
		bad("col:pos", fmt.Sprintf("stores %s as the part-of-speech id, not that of columns %d to %d", shortT(p), colPos, colPos+posParts-1))
	}
	// the length of the trie key
	x.r.count("columns compared", 1)
	if v := get(x.sl.path["headword"]); v == nil || unconv(v, 2).op != "len" {
		bad("col:headword", fmt.Sprintf("stores %s as the length of the trie key", shortT(v)))
	} else if i, ok := x.column(unconv(v, 2).args[0], cols); !ok || i != colKey {
		bad("col:headword", fmt.Sprintf("stores %s as the length of the trie key", shortT(v)))
	}
	// the trie
	x.r.count("columns compared", 1)
	c0, c1 := x.col(k, s, cols, colKey), x.col(k, s, cols, colLeft)
	none := k.same(s, c1, k.str("-1")) // 1: the word is not to be found
	if none == 0 {
		if v := get(x.sl.path["left"]); v != nil {
			if r := k.rangeOf(s, unconv(v, 2)); r.lo == -1 && r.hi == -1 {
				none = 1
			} else if k.equal(s, unconv(v, 2), k.num(-1)) == -1 {
				none = -1
			}
		}
	}
	empty := k.isEmpty(s, c0)
	_ = key
	switch {
	case d.puts > 1:
		bad("trie:twice", "adds a word to the trie more than once")
	case d.puts == 0:
		if none != 1 && empty != 1 {
			bad("trie:none", "may not add a word to the trie although its left id is not -1")
		}
	default:
		if none != -1 {
			bad("trie:hidden", "may add a word to the trie although its left id is -1")
		}
	}
}

// put: the ids kept for a key are those there were, and the new entry's.
func (x *columns) put(k *ai, s *astate, d *colState, key, v *T, bad func(string, string)) {
	if d.cols == nil {
		bad("trie:early", "adds something to the trie before it has read a line")
		return
	}
	plain := func(t *T) *T {
		for t.op == "iface" || t.op == "cast" || t.op == "conv" {
			t = t.args[0]
		}
		return t
	}
	if i, ok := x.column(plain(key), d.cols); !ok || i != colKey {
		bad("trie:key", fmt.Sprintf("adds %s to the trie, not column %d", shortT(key), colKey))
		return
	}
	key = plain(key)
	for v.op == "iface" {
		v = v.args[0]
	}
	isId := func(t *T) bool { return k.equal(s, unconv(t, 4), k.lenOf(s, d.old)) == 1 }
	base := func(t *T) (g, found *T) {
		for t != nil {
			if kk, ok := d.get[t]; ok {
				if plain(kk) == key {
					return t, k.errOfBool(t)
				}
				return nil, nil
			}
			if len(t.args) == 0 {
				return nil, nil
			}
			t = t.args[0]
		}
		return nil, nil
	}
	var notFound bool
	for t, kk := range d.get {
		if plain(kk) == key && k.truth(s, k.errOfBool(t)) == -1 {
			notFound = true
		}
	}
	one := func(t *T) bool {
		n, isC := k.lenOf(s, t).intVal()
		return isC && n == 1 && isId(k.elemAt(s, t, k.num(0)))
	}
	switch {
	case v.op == "append1" && len(v.args) == 2 && isId(v.args[1]):
		if v.args[0].op == "nil" || k.lenOf(s, v.args[0]) == k.num(0) {
			if !notFound {
				bad("trie:lost", "forgets the words that share a trie key")
			}
			return
		}
		if g, _ := base(v.args[0]); g == nil {
			bad("trie:ids", fmt.Sprintf("keeps %s as the words of a trie key", shortT(v)))
		}
	case one(v):
		if !notFound {
			bad("trie:lost", "forgets the words that share a trie key")
		}
	default:
		bad("trie:ids", fmt.Sprintf("keeps %s as the words of a trie key, not those there were and the new one", shortT(v)))
	}
}

func (k *ai) errOfBool(t *T) *T {
	n := *t
	n.c0 = 1
	n.typ = types.Typ[types.Bool]
	n.id = 0
	return k.mk(&n)
}

// col: column i of a line; lines are not written to (see lineLoads).
func (x *columns) col(k *ai, s *astate, cols *T, i int64) *T {
	return k.cl.load(k, s, k.idx(cols, k.num(i), types.Typ[types.String]), nil)
}

// lineLoads: the columns of a line do not change once it is read.
func (x *columns) lineLoads(k *ai, who string, cols func(s *astate, t *T) bool) {
	k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
		if a.op == "idx" && cols(s, a.args[0]) {
			return k.mk(&T{op: "load", s: "column", typ: types.Typ[types.String], args: []*T{a}})
		}
		return nil
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		if a.op == "idx" && cols(s, a.args[0]) {
			x.bad(k, s, "changes:"+who, x.w.posOf(in), who+" changes the columns of a line it has read")
		}
	}
}

func (x *columns) colIs(k *ai, s *astate, cols *T, i int64, v string) bool {
	return k.same(s, x.col(k, s, cols, i), k.str(v)) == 1
}

// posOf: p is the id of the part of speech in columns from on.
func (x *columns) posOf(p *T, ids map[*T][]*T, cols *T, from int64) bool {
	cs, ok := ids[unconv(p, 2)]
	if !ok || len(cs) != posParts {
		return false
	}
	for i, c := range cs {
		if n, ok := x.column(c, cols); !ok || n != from+int64(i) {
			return false
		}
	}
	return true
}

// at: the part of an entry that a path leads to.
func (x *columns) at(k *ai, s *astate, e *T, path string) *T {
	cur := e
	rest := strings.TrimPrefix(path, "@")
	addr := false // cur is an address of a value, not a value
	for rest != "" {
		if rest[0] == '[' {
			j := strings.IndexByte(rest, ']')
			var n int64
			fmt.Sscan(rest[1:j], &n)
			rest = rest[j+1:]
			et := elemType(cur.typ)
			if addr {
				if p, ok := cur.typ.Underlying().(*types.Pointer); ok {
					et = elemType(p.Elem())
				}
			}
			if et == nil {
				return nil
			}
			cur, addr = k.idx(cur, k.num(n), et), true
			if rest == "" {
				return k.load(s, cur, et)
			}
			continue
		}
		rest = rest[1:]
		j := strings.IndexAny(rest, ".[")
		if j < 0 {
			j = len(rest)
		}
		name := rest[:j]
		rest = rest[j:]
		if cur.typ == nil {
			return nil
		}
		var n *types.Named
		if p, ok := cur.typ.Underlying().(*types.Pointer); ok {
			n = namedOf(p.Elem())
			if n == nil {
				if q, ok := p.Elem().Underlying().(*types.Pointer); ok { // address of a pointer
					cur = k.load(s, cur, p.Elem())
					n = namedOf(q.Elem())
				}
			}
			if _, isP := p.Elem().Underlying().(*types.Pointer); isP && n == nil {
				return nil
			}
		}
		if n == nil {
			return nil
		}
		i := structField(n, name)
		if i < 0 {
			return nil
		}
		ft := n.Underlying().(*types.Struct).Field(i).Type()
		cur = k.fld(cur, n, i)
		addr = true
		if rest == "" || rest[0] == '.' {
			v := k.load(s, cur, ft)
			if rest == "" {
				return v
			}
			if _, isP := ft.Underlying().(*types.Pointer); isP {
				cur, addr = v, false
			}
		}
	}
	return cur
}
