package main

// C09: the dictionary printer.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A piece is part of a printed line: a text, or a value with its verb.
type piece struct {
	lit  string
	verb byte
	v    *T
}

type printState struct {
	line   []piece
	lines  int
	wi, w  *T // the record printed, and its word
	lists  map[*T][]*T
	pos    map[*T]*T // strings of a part of speech -> its id
	joined map[*T]*T // joined strings -> id of the part of speech
	phi    map[*ssa.BasicBlock]*T
	gr     map[*T]bool // grammars that were extended by the dictionary's
	round  bool
}

func (d *printState) clone() any {
	n := *d
	n.line = append([]piece(nil), d.line...)
	n.lists, n.pos, n.joined, n.phi, n.gr = map[*T][]*T{}, map[*T]*T{}, map[*T]*T{}, map[*ssa.BasicBlock]*T{}, map[*T]bool{}
	for a, b := range d.lists {
		n.lists[a] = b
	}
	for a, b := range d.pos {
		n.pos[a] = b
	}
	for a, b := range d.joined {
		n.joined[a] = b
	}
	for a, b := range d.phi {
		n.phi[a] = b
	}
	for a, b := range d.gr {
		n.gr[a] = b
	}
	return &n
}

func (d *printState) key() string {
	var ps []string
	for _, p := range d.line {
		id := 0
		if p.v != nil {
			id = p.v.id
		}
		ps = append(ps, fmt.Sprint(p.lit, p.verb, id))
	}
	for a, b := range d.phi {
		ps = append(ps, fmt.Sprint("h", a.Index, "=", b.id))
	}
	for a := range d.gr {
		ps = append(ps, fmt.Sprint("g", a.id))
	}
	id := func(t *T) int {
		if t == nil {
			return 0
		}
		return t.id
	}
	sort.Strings(ps)
	return fmt.Sprint(ps, d.lines, id(d.wi), id(d.w), mapKey(d.pos), mapKey(d.joined), len(d.lists), d.round)
}

// splitText: a function that writes a list of references as text.
func isSplitText(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() == nil && f.Signature.Params().Len() == 1 && isInt32s(f.Signature.Params().At(0).Type()) && f.Signature.Results().Len() == 1 && isStrT(f.Signature.Results().At(0).Type())
}

func (x *columns) printed() {
	w := x.w
	f := w.must(w.pkgFunc("dictionary", "PrintDictionary"), "PrintDictionary")
	who := w.fname(f)
	x.r.oblige(who + " prints every word's columns in the order of a lexicon")
	lex, gram, winfo, dict := w.typ("dictionary", "DoubleArrayLexicon"), w.typ("dictionary", "Grammar"), w.typ("dictionary", "WordInfo"), w.typ("dictionary", "BinaryDictionary")
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	k.cl.clone = func(d any) any { return d.(*printState).clone() }
	k.cl.key = func(d any) string { return d.(*printState).key() }
	var out, sysDict, opened *T
	split := map[*ssa.Function]bool{}
	bad := func(s *astate, key, at, msg string) { x.bad(k, s, "print:"+key, at, who+" "+msg) }
	field := func(s *astate, p *T, n *types.Named, is func(types.Type) bool) *T {
		i := oneField(n, "a field", is)
		return k.load(s, k.fld(p, n, i), n.Underlying().(*types.Struct).Field(i).Type())
	}
	isT := func(n *types.Named) func(types.Type) bool {
		return func(t types.Type) bool { return namedOf(t) == n }
	}
	elems := func(s *astate, l *T) []*T {
		es := k.elemsOf(s, l)
		for i, e := range es {
			for e.op == "iface" {
				e = e.args[0]
			}
			es[i] = e
		}
		return es
	}
	// text: the pieces of a string
	var text func(s *astate, d *printState, v *T) []piece
	text = func(s *astate, d *printState, v *T) []piece {
		if sv, ok := v.strVal(); ok {
			return []piece{{lit: sv}}
		}
		if (v.op == "concat" || v.op == "+" || v.op == "add") && isStrT(v.typ) {
			var ps []piece
			for _, a := range v.args {
				ps = append(ps, text(s, d, a)...)
			}
			return ps
		}
		if isRes(v, "strings.Join") && len(v.args) == 2 {
			if es := d.lists[v.args[0]]; es != nil {
				var ps []piece
				for i, e := range es {
					if i > 0 {
						ps = append(ps, text(s, d, v.args[1])...)
					}
					ps = append(ps, text(s, d, e)...)
				}
				return ps
			}
		}
		if isRes(v, "strconv.Itoa") || isRes(v, "strconv.FormatInt") {
			if isRes(v, "strconv.FormatInt") {
				if b, ok := v.args[1].intVal(); !ok || b != 10 {
					return []piece{{verb: '?', v: v}}
				}
			}
			return []piece{{verb: 'd', v: v.args[0]}}
		}
		return []piece{{verb: 's', v: v}}
	}
	format := func(s *astate, d *printState, at, fm string, args []*T) []piece {
		var ps []piece
		n := 0
		for i := 0; i < len(fm); i++ {
			if fm[i] != '%' || i+1 == len(fm) {
				ps = append(ps, piece{lit: fm[i : i+1]})
				continue
			}
			i++
			if fm[i] == '%' {
				ps = append(ps, piece{lit: "%"})
				continue
			}
			if n >= len(args) {
				return append(ps, piece{verb: '?'})
			}
			a := args[n]
			n++
			switch {
			case (fm[i] == 's' || fm[i] == 'v') && isStrT(a.typ):
				ps = append(ps, text(s, d, a)...)
			case (fm[i] == 'd' || fm[i] == 'v') && isInteger(a.typ):
				ps = append(ps, piece{verb: 'd', v: a})
			default:
				ps = append(ps, piece{verb: fm[i], v: a})
			}
		}
		return ps
	}
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*printState)
		if callee == nil {
			return nil, false, true
		}
		name := callee.String()
		opq := func() ([]*T, bool, bool) { return k.opaque(s, s.top(), ci, callee, args), true, false }
		res := callee.Signature.Results()
		switch {
		case name == "strings.Join":
			es := elems(s, args[0])
			id := d.pos[args[0]]
			sep, _ := args[1].strVal()
			r := k.opaque(s, s.top(), ci, callee, args)
			if es != nil {
				d.lists[args[0]] = es
			}
			if id != nil && sep == "," {
				d.joined[r[0]] = id
			}
			return r, true, false
		case name == "fmt.Fprintf" || name == "fmt.Fprint" || name == "fmt.Fprintln" || name == "io.WriteString":
			var ps []piece
			switch name {
			case "fmt.Fprintf":
				if fm, ok := args[1].strVal(); ok {
					ps = format(s, d, w.posOf(ci), fm, elems(s, args[2]))
				} else {
					ps = []piece{{verb: '?', v: args[1]}}
				}
			case "io.WriteString":
				ps = text(s, d, args[1])
			default:
				for i, a := range elems(s, args[1]) {
					if i > 0 && name == "fmt.Fprintln" {
						ps = append(ps, piece{lit: " "})
					}
					if !isStrT(a.typ) {
						ps = append(ps, piece{verb: 'd', v: a})
						continue
					}
					ps = append(ps, text(s, d, a)...)
				}
				if name == "fmt.Fprintln" {
					ps = append(ps, piece{lit: "\n"})
				}
			}
			d.line = append(d.line, ps...)
			return opq()
		case callee.Signature.Recv() != nil && strings.HasSuffix(name, ".WriteString") && len(args) == 2 && !w.inModule(callee):
			d.line = append(d.line, text(s, d, args[1])...)
			return opq()
		case callee.Signature.Recv() != nil && strings.HasSuffix(name, ".WriteByte") && len(args) == 2 && !w.inModule(callee):
			if b, ok := args[1].intVal(); ok {
				d.line = append(d.line, piece{lit: string(rune(b))})
			} else {
				d.line = append(d.line, piece{verb: 'c', v: args[1]})
			}
			return opq()
		case isSplitText(callee):
			split[callee] = true
			return opq()
		case res.Len() == 2 && namedOf(res.At(0).Type()) == dict:
			r := k.opaque(s, s.top(), ci, callee, args)
			opened = r[0]
			return r, true, false
		case namedOf2(callee) == lex:
			r := k.opaque(s, s.top(), ci, callee, args)
			if callee.Name() == "GetWordInfo" {
				d.wi, d.w = r[0], args[1]
			}
			return r, true, false
		case namedOf2(callee) == gram:
			r := k.opaque(s, s.top(), ci, callee, args)
			switch callee.Name() {
			case "GetPartOfSpeechString":
				d.pos[r[0]] = args[1]
				x.grammarUsed(k, s, d, args[0], opened, sysDict, w.posOf(ci), bad)
			case "AddPosList":
				if opened == nil || args[1] != field(s, opened, dict, isT(gram)) {
					bad(s, "add", w.posOf(ci), "adds the parts of speech of another dictionary than the one it prints")
				}
				if d.gr[args[0]] {
					bad(s, "add2", w.posOf(ci), "adds the parts of speech of the dictionary twice")
				}
				d.gr[args[0]] = true
			}
			return r, true, false
		case namedOf2(callee) == dict || callee.Pkg == nil || callee.Pkg.Pkg.Path() != w.rel("dictionary"):
			return nil, false, false
		}
		return nil, false, true
	}
	// loops
	counter := func(h *ssa.BasicBlock) *ssa.Phi { // from 0, one by one
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok || !isInteger(p.Type()) {
				continue
			}
			good := true
			for i, e := range p.Edges {
				if k.loop(h)[h.Preds[i]] {
					b, n := linear(e)
					good = good && b == ssa.Value(p) && n == 1
				} else {
					v, ok := constInt(e)
					good = good && ok && v == 0
				}
			}
			if good {
				return p
			}
		}
		return nil
	}
	// the lists that hold the part of speech with each id at its place, once
	// their loop is over
	tables := map[*ssa.Phi]int{}
	fills := map[*T]int{}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		if s.top().fn != f {
			return
		}
		d := s.data.(*printState)
		if len(d.line) > 0 {
			bad(s, "stray", w.pos(f.Pos()), "prints something that is no line of a word")
			d.line = nil
		}
		if p := counter(h); p != nil {
			d.phi[h] = s.top().env[p]
		}
		d.wi, d.w = nil, nil
	}
	lexOf := func(s *astate) *T { return field(s, opened, dict, isT(lex)) }
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*printState)
		if s.top().fn != f {
			return
		}
		i := d.phi[h]
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isStrings(phi.Type()) {
				continue
			}
			for j, p := range h.Preds {
				if p != s.top().pred {
					continue
				}
				v := k.val(s, s.top(), phi.Edges[j])
				if i != nil && v.op == "append1" && len(v.args) == 2 && v.args[0] == s.top().env[phi] && d.joined[v.args[1]] != nil && k.equal(s, unconv(d.joined[v.args[1]], 2), i) == 1 {
					if tables[phi] == 0 {
						tables[phi] = 1
					}
				} else {
					tables[phi] = -1
				}
			}
		}
		for a, v := range s.mem {
			if i != nil && a.op == "idx" && a.args[0].op == "mkslice" && isStrings(a.args[0].typ) && d.joined[v] != nil && k.equal(s, a.args[1], i) == 1 && k.equal(s, unconv(d.joined[v], 2), i) == 1 {
				fills[a.args[0]] = 1
			}
		}
		if len(d.line) > 0 || d.wi != nil {
			x.line(k, s, d, h, i, lexOf(s), tables, fills, bad)
		} else if i != nil {
			// a round that prints nothing must be one over the parts of speech
			listed := false
			for _, in := range h.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && isStrings(phi.Type()) {
					listed = true
				}
			}
			for a := range s.mem {
				if a.op == "idx" && a.args[0].op == "mkslice" {
					listed = true
				}
			}
			if !listed {
				bad(s, "skip", w.pos(f.Pos()), "may leave a word out")
			}
		}
		d.line = nil
		d.lines++
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[0]) == 1 {
			return
		}
		n++
		d := s.data.(*printState)
		if opened == nil {
			bad(s, "open", w.posOf(at), "succeeds without opening the dictionary")
			return
		}
		// all words
		done := false
		sizes := map[*T]bool{}
		for t := range s.bnd {
			walkT(t, func(y *T) bool {
				if isRes(y, "DoubleArrayLexicon).Size") && y.args[0] == lexOf(s) {
					sizes[y] = true
				}
				return true
			})
		}
		for sz := range sizes {
			for _, i := range d.phi {
				if k.rangeOf(s, k.sub(unconv(i, 8), sz)).lo >= 0 {
					done = true
				}
			}
			if k.rangeOf(s, sz).hi <= 0 {
				done = true
			}
		}
		if !done {
			bad(s, "all", w.posOf(at), "may return before it has printed all words")
		}
	}
	k.run(f, func(s *astate) {
		s.data = &printState{lists: map[*T][]*T{}, pos: map[*T]*T{}, joined: map[*T]*T{}, phi: map[*ssa.BasicBlock]*T{}, gr: map[*T]bool{}}
		for _, p := range f.Params {
			t := k.val(s, s.top(), p)
			switch {
			case isWriterType(p.Type()):
				out = t
			case namedOf(p.Type()) == dict:
				sysDict = t
			}
		}
	})
	for _, y := range k.later {
		y()
	}
	_, _ = out, winfo
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	for _, g := range sortedFns(w, split) {
		x.splitText(g)
	}
	x.r.floor("lines printed", 1)
	x.r.floor("grammars used by the printer", 1)
}

// grammarUsed: the parts of speech are the dictionary's own, or the system's
// with those of the dictionary after them if it has any.
func (x *columns) grammarUsed(k *ai, s *astate, d *printState, g, opened, sysDict *T, at string, bad func(*astate, string, string, string)) {
	w := x.w
	dict, hdr, gram := w.typ("dictionary", "BinaryDictionary"), w.typ("dictionary", "DictionaryHeader"), w.typ("dictionary", "Grammar")
	x.r.count("grammars used by the printer", 1)
	of := func(d *T, n *types.Named) *T {
		if d == nil {
			return nil
		}
		i := oneField(dict, "a part", func(t types.Type) bool { return namedOf(t) == n })
		return k.load(s, k.fld(d, dict, i), dict.Underlying().(*types.Struct).Field(i).Type())
	}
	if opened == nil {
		bad(s, "grammar", at, "takes the parts of speech before it has opened the dictionary")
		return
	}
	v := k.getField(s, of(opened, hdr), hdr, "Version")
	is := func(name string) int {
		c, ok := x.constOf(name)
		if !ok {
			return 0
		}
		return k.same(s, v, k.constant(ssa.NewConst(constant.MakeUint64(c), v.typ)))
	}
	switch {
	case g == of(opened, gram) && is("SystemDictVersion") == 1 && len(d.gr) == 0:
	case g == of(sysDict, gram) && is("SystemDictVersion") == -1 && is("UserDictVersion2") == 1 && d.gr[g]:
	case g == of(sysDict, gram) && is("SystemDictVersion") == -1 && is("UserDictVersion2") == -1 && len(d.gr) == 0:
	default:
		bad(s, "grammar", at, fmt.Sprintf("takes the parts of speech from %s", shortT(g)))
	}
}

// line: one word's line.
func (x *columns) line(k *ai, s *astate, d *printState, h *ssa.BasicBlock, i, lexicon *T, tables map[*ssa.Phi]int, fills map[*T]int, bad func(*astate, string, string, string)) {
	at := x.w.pos(s.top().fn.Pos())
	winfo := x.w.typ("dictionary", "WordInfo")
	if d.wi == nil || i == nil || k.equal(s, unconv(d.w, 8), unconv(i, 8)) != 1 {
		bad(s, "word", at, "does not print the words one by one, from the first")
		return
	}
	if d.wi.args[0] != lexicon {
		bad(s, "lexicon", at, "prints words of another lexicon than the one it opened")
	}
	x.r.count("lines printed", 1)
	// into columns
	var cols [][]piece
	var cur []piece
	ended := false
	for _, p := range d.line {
		if p.v != nil || p.verb != 0 {
			cur = append(cur, p)
			continue
		}
		for _, r := range p.lit {
			if ended {
				bad(s, "two", at, "prints something behind the line of a word")
				return
			}
			switch r {
			case ',':
				cols = append(cols, cur)
				cur = nil
			case '\n':
				cols = append(cols, cur)
				cur = nil
				ended = true
			default:
				cur = append(cur, piece{lit: string(r)})
			}
		}
	}
	if !ended || len(cur) > 0 || len(cols) != 13 {
		bad(s, "columns", at, fmt.Sprintf("prints %d columns for a word, not 13", len(cols)))
		return
	}
	get := func(n string) *T { return k.getField(s, d.wi, winfo, n) }
	isNum := func(c []piece, v *T) bool {
		if len(c) != 1 || c[0].verb != 'd' || c[0].v == nil {
			return false
		}
		return c[0].v == v || unconv(c[0].v, 2) == v
	}
	isField := func(c []piece, n string) bool { return len(c) == 1 && c[0].verb == 's' && c[0].v == get(n) }
	param := func(c []piece, name string) bool {
		if len(c) != 1 || c[0].verb != 'd' || c[0].v == nil {
			return false
		}
		v := unconv(c[0].v, 2)
		return v.op == "res" && strings.Contains(v.s, "DoubleArrayLexicon)."+name) && v.args[0] == lexicon && k.equal(s, unconv(v.args[1], 8), unconv(i, 8)) == 1
	}
	lit := func(c []piece) string {
		t := ""
		for _, p := range c {
			if p.verb != 0 || p.v != nil {
				return ""
			}
			t += p.lit
		}
		return t
	}
	list := func(c []piece, n string) bool {
		if len(c) != 1 || c[0].v == nil {
			return false
		}
		v := c[0].v
		return v.op == "res" && len(v.args) == 1 && v.args[0] == get(n)
	}
	pos := func(c []piece) bool {
		if len(c) != 1 || c[0].v == nil {
			return false
		}
		v, id := c[0].v, get("PosId")
		if j := d.joined[v]; j != nil {
			return j == id || unconv(j, 2) == id
		}
		if v.op != "load" || v.args[0].op != "idx" || unconv(v.args[0].args[1], 2) != id {
			return false
		}
		t := v.args[0].args[0]
		later := func(ok func() bool) {
			k.later = append(k.later, func() {
				if !ok() {
					bad(s, "table", at, "prints the part of speech from a list that may hold another one at its place")
				}
			})
		}
		if t.op == "mkslice" {
			later(func() bool { return fills[t] == 1 })
			return isRes(t.args[0], "GetPartOfSpeechSize")
		}
		for _, fr := range s.stack {
			for val, e := range fr.env {
				phi, ok := val.(*ssa.Phi)
				if !ok || e != t {
					continue
				}
				b := d.phi[phi.Block()]
				if b == nil {
					continue
				}
				for i, p := range phi.Block().Preds {
					if !k.loop(phi.Block())[p] && !noElems(phi.Edges[i]) {
						return false
					}
				}
				// up to the number of parts of speech
				for f := range s.bnd {
					sz := (*T)(nil)
					walkT(f, func(y *T) bool {
						if isRes(y, "GetPartOfSpeechSize") {
							sz = y
						}
						return true
					})
					if sz != nil && k.rangeOf(s, k.sub(b, sz)).lo >= 0 {
						later(func() bool { return tables[phi] == 1 })
						return true
					}
				}
			}
		}
		return false
	}
	unit := func(c []piece) bool {
		a, b := k.equal(s, k.lenOf(s, get("AUnitSplit")), k.num(0)), k.equal(s, k.lenOf(s, get("BUnitSplit")), k.num(0))
		switch lit(c) {
		case "A":
			return a == 1
		case "B":
			return a == -1 && b == 1
		case "C":
			return a == -1 && b == -1
		}
		return false
	}
	dic := func(c []piece) bool {
		v := get("DictionaryFormWordId")
		if lit(c) == "*" {
			return k.rangeOf(s, v).hi < 0
		}
		return isNum(c, v) && k.rangeOf(s, v).lo >= 0
	}
	for j, c := range []struct {
		what string
		ok   func([]piece) bool
	}{
		{"the surface", func(c []piece) bool { return isField(c, "Surface") }},
		{"the left id", func(c []piece) bool { return param(c, "GetLeftId") }},
		{"the right id", func(c []piece) bool { return param(c, "GetRightId") }},
		{"the cost", func(c []piece) bool { return param(c, "GetCost") }},
		{"the surface", func(c []piece) bool { return isField(c, "Surface") }},
		{"the part of speech", pos},
		{"the reading form", func(c []piece) bool { return isField(c, "ReadingForm") }},
		{"the normalized form", func(c []piece) bool { return isField(c, "NormalizedForm") }},
		{"the dictionary-form word id, or *", dic},
		{"A if there are no A units, B if there are no B units, or C", unit},
		{"the A units", func(c []piece) bool { return list(c, "AUnitSplit") }},
		{"the B units", func(c []piece) bool { return list(c, "BUnitSplit") }},
		{"the word structure", func(c []piece) bool { return list(c, "WordStructure") }},
	} {
		x.r.count("columns printed", 1)
		if !c.ok(cols[j]) {
			t := lit(cols[j])
			if len(cols[j]) > 0 && cols[j][0].v != nil {
				t = shortT(cols[j][0].v)
			}
			bad(s, fmt.Sprint("col", j), at, fmt.Sprintf("prints %s as column %d, not %s", t, j, c.what))
		}
	}
}

// splitText: a list of references as text: numbers with / between them, or *.
func (x *columns) splitText(f *ssa.Function) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + " writes every reference of a list, in order")
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	type sst struct {
		l   *listLoop
		buf *T   // what is written to
		out []*T // written since the last round began
	}
	var par *T
	k.cl.clone = func(d any) any {
		y := *d.(*sst)
		y.out = append([]*T(nil), y.out...)
		return &y
	}
	k.cl.key = func(d any) string {
		y := d.(*sst)
		key := ""
		if y.l != nil {
			key = fmt.Sprint(y.l.phi.id)
		}
		if y.buf != nil {
			key += fmt.Sprint(" ", y.buf.id)
		}
		for _, o := range y.out {
			key += fmt.Sprint(",", o.id)
		}
		return key
	}
	good := map[*ssa.Phi]int{}
	fill := map[*T]int{}
	wrote := map[*T]int{}
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*sst)
		if callee == nil || callee.Signature.Recv() == nil || len(args) != 2 || !strings.HasPrefix(callee.Name(), "Write") || w.inModule(callee) {
			return nil, false, callee == nil || w.inModule(callee) && callee.Signature.Recv() != nil
		}
		if d.buf != nil && d.buf != args[0] {
			x.bad(k, s, "splittext:"+who, w.posOf(ci), who+" writes to several places")
		}
		d.buf = args[0]
		d.out = append(d.out, args[1])
		return k.opaque(s, s.top(), ci, callee, args), true, false
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && isBasic(t, types.Int32) }); ok && l.list == par {
			s.data.(*sst).l = &l
		}
		if d := s.data.(*sst); len(d.out) > 0 {
			x.bad(k, s, "splittext:"+who, w.pos(f.Pos()), who+" writes something that is no number of the list")
			d.out = nil
		}
	}
	isElemText := func(s *astate, l *listLoop, v *T) bool {
		if !isRes(v, "strconv.Itoa") && !isRes(v, "strconv.FormatInt") {
			return false
		}
		if isRes(v, "strconv.FormatInt") {
			if b, ok := v.args[1].intVal(); !ok || b != 10 {
				return false
			}
		}
		return unconv(v.args[0], 4) == k.elemAt(s, par, k.index(*l))
	}
	var flat func(v *T) []*T
	flat = func(v *T) []*T {
		if (v.op == "concat" || v.op == "+" || v.op == "add") && isStrT(v.typ) {
			var vs []*T
			for _, a := range v.args {
				vs = append(vs, flat(a)...)
			}
			return vs
		}
		return []*T{v}
	}
	// the number of this round, behind a / unless it is the first
	aRound := func(s *astate, l *listLoop, out []*T) bool {
		var vs []*T
		for _, o := range out {
			if sv, ok := o.strVal(); !ok || sv != "" {
				vs = append(vs, flat(o)...)
			}
		}
		if len(vs) == 0 || !isElemText(s, l, vs[len(vs)-1]) || !k.stepsByOne(s, *l) {
			return false
		}
		first := k.equal(s, k.index(*l), k.num(0))
		switch len(vs) {
		case 1:
			return first == 1
		case 2:
			sv, ok := vs[0].strVal()
			b, isC := vs[0].intVal()
			return first == -1 && (ok && sv == "/" || isC && b == '/')
		}
		return false
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*sst)
		l := d.l
		if l == nil || l.h != h {
			return
		}
		if d.buf != nil {
			if aRound(s, l, d.out) {
				if wrote[d.buf] == 0 {
					wrote[d.buf] = 1
				}
			} else {
				wrote[d.buf] = -1
			}
		}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isStrT(phi.Type()) {
				continue
			}
			for j, p := range h.Preds {
				if p != s.top().pred {
					continue
				}
				vs := flat(k.val(s, s.top(), phi.Edges[j]))
				if vs[0] == s.top().env[phi] && aRound(s, l, vs[1:]) {
					if good[phi] == 0 {
						good[phi] = 1
					}
				} else {
					good[phi] = -1
				}
			}
		}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isStrings(phi.Type()) {
				continue
			}
			for j, p := range h.Preds {
				if p == s.top().pred {
					v := k.val(s, s.top(), phi.Edges[j])
					if v.op == "append1" && len(v.args) == 2 && v.args[0] == s.top().env[phi] && isElemText(s, l, v.args[1]) && k.stepsByOne(s, *l) {
						if good[phi] == 0 {
							good[phi] = 1
						}
					} else {
						good[phi] = -1
					}
				}
			}
		}
		for a, v := range s.mem {
			if a.op == "idx" && a.args[0].op == "mkslice" && isStrings(a.args[0].typ) && k.equal(s, a.args[1], k.index(*l)) == 1 {
				if isElemText(s, l, v) && k.stepsByOne(s, *l) {
					if fill[a.args[0]] == 0 {
						fill[a.args[0]] = 1
					}
				} else {
					fill[a.args[0]] = -1
				}
			}
		}
	}
	type later struct {
		s   *astate
		phi *ssa.Phi
		mk  *T
		buf *T
		at  string
		v   *T
	}
	var late []later
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		v := res[0]
		bad := func() {
			x.bad(k, s, "splittext:"+who, w.posOf(at), fmt.Sprintf("%s gives %s, not the numbers of the list with / between them, or * for none", who, shortT(v)))
		}
		if sv, ok := v.strVal(); ok {
			if sv != "*" || k.equal(s, k.lenOf(s, par), k.num(0)) != 1 {
				bad()
			}
			return
		}
		d := s.data.(*sst)
		l := d.l
		if k.equal(s, k.lenOf(s, par), k.num(0)) != -1 || l == nil || !k.gone(s, l, par) || len(d.out) > 0 {
			bad()
			return
		}
		y := later{s: s, at: w.posOf(at), v: v}
		if isRes(v, "strings.Builder).String") || isRes(v, "bytes.Buffer).String") {
			if d.buf != nil && v.args[0] != d.buf || v.args[0].op != "alloc" {
				bad()
				return
			}
			y.buf = v.args[0]
			late = append(late, y)
			return
		}
		for _, in := range l.h.Instrs {
			if p, ok := in.(*ssa.Phi); ok && isStrT(p.Type()) && s.top().env[p] == v {
				y.phi = p
			}
		}
		if y.phi != nil {
			late = append(late, y)
			return
		}
		if !isRes(v, "strings.Join") || len(v.args) != 2 {
			bad()
			return
		}
		if sep, ok := v.args[1].strVal(); !ok || sep != "/" {
			bad()
			return
		}
		if v.args[0].op == "mkslice" {
			y.mk = v.args[0]
		}
		for _, in := range l.h.Instrs {
			if p, ok := in.(*ssa.Phi); ok && s.top().env[p] == v.args[0] {
				y.phi = p
			}
		}
		late = append(late, y)
	}
	k.run(f, func(s *astate) {
		s.data = &sst{}
		par = k.val(s, s.top(), f.Params[0])
	})
	for _, y := range late {
		ok := false
		if y.phi != nil && good[y.phi] == 1 {
			for i, p := range y.phi.Block().Preds {
				if !k.loop(y.phi.Block())[p] {
					ok = noElems(y.phi.Edges[i])
					if c, isC := y.phi.Edges[i].(*ssa.Const); isC && isStrT(c.Type()) {
						ok = constant.StringVal(c.Value) == ""
					}
				}
			}
		}
		if y.buf != nil && wrote[y.buf] == 1 {
			ok = true
		}
		if y.mk != nil && fill[y.mk] == 1 && y.mk.args[0] == k.lenOf(y.s, par) {
			ok = true
		}
		if !ok {
			x.bad(k, y.s, "splittext:"+who, y.at, fmt.Sprintf("%s gives %s, not the numbers of the list with / between them, or * for none", who, shortT(y.v)))
		}
	}
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	x.r.count("functions writing lists of references", 1)
}
