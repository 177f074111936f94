package main

// C28: the way back from the rewritten text to the original one.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "abstract interpretation (contents of the tables after stores, copies, appends and nested loops, with linear relations between positions; value numbering of the accessors)", checkOffsets)
}

type offCheck struct {
	w    *World
	r    *Report
	in   *types.Named
	bt   *types.Named
	seen map[string]bool
}

func (x *offCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "offsets", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkOffsets(w *World, r *Report) {
	x := &offCheck{w: w, r: r, in: w.typ("", "InputText"), bt: w.typ("", "InputTextBuilder"), seen: map[string]bool{}}
	x.begin()
	x.replace()
	x.text()
	x.build()
	x.accessors()
	x.stepsTo()
	x.writers()
	x.r.floor("tables compared", 12)
	x.r.floor("accessors", 8)
}

// tables: the lists of numbers.
func isTable(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// run interprets f, following tables; done is called for every return once all
// paths have been seen.
func (x *offCheck) run(f *ssa.Function, prims func(a *arrTrack, s *astate, callee *ssa.Function, args []*T) ([]*T, bool), done func(k *ai, a *arrTrack, s *astate, at string, res []*T)) {
	w := x.w
	who := w.fname(f)
	k := newAI(w, aclient{})
	a := newArrTrack(k, isTable)
	if prims != nil {
		a.call = func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee != nil {
				if res, ok := prims(a, s, callee, args); ok {
					return res, true, false
				}
			}
			return nil, false, true
		}
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		s2 := s.clone(k)
		k.later = append(k.later, func() { done(k, a, s2, w.posOf(at), res) })
	}
	k.run(f, func(s *astate) {
		s.data = &arrState{phi: map[*T]*arrLoop{}, bld: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		if f.Signature.Recv() != nil {
			// the tables as they are before
			recv := s.top().env[f.Params[0]]
			if n := namedOf(f.Params[0].Type()); n == x.bt || n == x.in {
				st := n.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					k.load(s, k.fld(recv, n, i), st.Field(i).Type())
				}
			}
		}
	})
	for _, g := range k.later {
		g()
	}
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// A tcase is a generic place q of a table and what is to be there.
type tcase struct {
	what string
	q    *T
	more []*T
	want func(c *acx, got *T) bool
}

func (x *offCheck) table(k *ai, a *arrTrack, s *astate, at, who, name string, l *T, pre []*T, cases []tcase) {
	log := len(a.data(s).log)
	for _, tc := range cases {
		c := a.ctx(s, append(append([]*T{}, tc.more...), pre...)...)
		if c.vacuous() {
			continue
		}
		x.r.count("tables compared", 1)
		got := c.elem(l, tc.q, log)
		if got != nil && tc.want(c, got) {
			continue
		}
		g := "what could not be determined"
		if got != nil {
			g = shortT(got)
		}
		x.bad(k, s, "table:"+who+":"+name+":"+tc.what, at, fmt.Sprintf("%s leaves %s in %s, %s", who, g, name, tc.what))
	}
}

func isOrig(c *acx, t, list, i *T) bool {
	return t.op == "orig" && t.args[0] == list && c.eq(t.args[1], i)
}

func isRunes(t *T, text *T) bool {
	if t.op != "cast" || t.args[0] != text {
		return false
	}
	e := elemType(t.typ)
	return e != nil && types.Identical(e.Underlying(), types.Typ[types.Int32])
}

// ---- a new builder ---------------------------------------------------------------

func (x *offCheck) begin() {
	w := x.w
	f := w.must(w.pkgFunc("", "NewInputTextBuilder"), "NewInputTextBuilder")
	who := w.fname(f)
	x.r.oblige(who + ": every character at its own position")
	x.run(f, nil, func(k *ai, a *arrTrack, s *astate, at string, res []*T) {
		text, gr := s.stack[0].env[f.Params[0]], s.stack[0].env[f.Params[1]]
		o := res[0]
		g := func(n string) *T { return k.ldf(s, o, x.bt, n) }
		if o.op != "alloc" || g("OriginalText") != text || g("grammar") != gr {
			x.bad(k, s, "new:"+who, at, who+" does not keep the text and the grammar it is given")
		}
		M, T0 := g("modifiedRunes"), g("textOffsets")
		if !isRunes(M, text) {
			x.bad(k, s, "runes:"+who, at, fmt.Sprintf("%s starts with %s, not with the characters of the text", who, shortT(M)))
			return
		}
		n := k.lenOf(s, M)
		c := a.ctx(s)
		if !c.eq(k.lenOf(s, T0), k.add(n, k.num(1))) {
			x.bad(k, s, "len:"+who, at, fmt.Sprintf("%s makes %s positions", who, shortT(k.lenOf(s, T0))))
			return
		}
		q := k.sym("place", types.Typ[types.Int])
		self := func(c *acx, got *T) bool { return c.eq(got, q) }
		x.table(k, a, s, at, who, "textOffsets", T0, nil, []tcase{
			{"where the position of a character is to be", q, []*T{q, k.sub(k.sub(n, k.num(1)), q)}, self},
			{"where the end of the text is to be", n, nil, func(c *acx, got *T) bool { return c.eq(got, n) }},
		})
		// the characters themselves
		x.table(k, a, s, at, who, "modifiedRunes", M, nil, []tcase{
			{"where a character of the text is to be", q, []*T{q, k.sub(k.sub(n, k.num(1)), q)}, func(c *acx, got *T) bool { return isOrig(c, got, M, q) }},
		})
	})
}

// ---- replacing ---------------------------------------------------------------------

func (x *offCheck) replace() {
	w := x.w
	f := w.must(w.method("", "InputTextBuilder", "Replace"), "InputTextBuilder.Replace")
	who := w.fname(f)
	x.r.oblige(who + ": both tables are cut and filled at the same places")
	if len(f.Params) != 4 {
		x.bad(nil, nil, "shape:"+who, w.pos(f.Pos()), who+" does not take a range and characters")
		return
	}
	n := 0
	x.run(f, nil, func(k *ai, a *arrTrack, s *astate, at string, res []*T) {
		n++
		env := s.stack[0].env
		recv, begin, end, runes := env[f.Params[0]], env[f.Params[1]], env[f.Params[2]], env[f.Params[3]]
		init := func(name string) *T { // before
			i := fieldNo(x.bt, name)
			return k.mk(&T{op: "load", typ: x.bt.Underlying().(*types.Struct).Field(i).Type(), args: []*T{k.fld(recv, x.bt, i)}})
		}
		g := func(n string) *T { return k.ldf(s, recv, x.bt, n) }
		for _, n := range []string{"OriginalText", "grammar"} {
			if g(n) != init(n) {
				x.bad(k, s, "other:"+who, at, who+" changes "+n)
			}
		}
		M0, T0, M, T1 := init("modifiedRunes"), init("textOffsets"), g("modifiedRunes"), g("textOffsets")
		one := k.num(1)
		N, rl, tl := k.lenOf(s, M0), k.lenOf(s, runes), k.sub(end, begin)
		same := k.sub(k.lenOf(s, T0), k.add(N, one))
		pre := []*T{begin, tl, k.sub(N, end), same, k.sub(k.num(0), same)}
		c := a.ctx(s, pre...)
		if c.vacuous() {
			return
		}
		N1 := k.add(k.sub(N, tl), rl)
		for _, y := range []struct {
			name string
			l, n *T
		}{{"modifiedRunes", M, N1}, {"textOffsets", T1, k.add(N1, one)}} {
			if !c.eq(k.lenOf(s, y.l), y.n) {
				x.bad(k, s, "len:"+who+":"+y.name, at, fmt.Sprintf("%s leaves %s entries in %s", who, shortT(k.lenOf(s, y.l)), y.name))
				return
			}
		}
		q := k.sym("place", types.Typ[types.Int])
		before := []*T{q, k.sub(k.sub(begin, one), q)}
		in := []*T{q, k.sub(k.sub(rl, one), q)}
		cases := func(l0, n *T, new func(c *acx, got *T) bool) []tcase {
			return []tcase{
				{"in front of what is replaced", q, before, func(c *acx, got *T) bool { return isOrig(c, got, l0, q) }},
				{"where the replacement is to be", k.add(begin, q), in, new},
				{"behind what is replaced", q, []*T{k.sub(q, k.add(begin, rl)), k.sub(k.sub(n, one), q)}, func(c *acx, got *T) bool { return isOrig(c, got, l0, k.add(k.sub(q, rl), tl)) }},
			}
		}
		x.table(k, a, s, at, who, "modifiedRunes", M, pre, cases(M0, N1, func(c *acx, got *T) bool { return isOrig(c, got, runes, q) }))
		x.table(k, a, s, at, who, "textOffsets", T1, pre, cases(T0, k.add(N1, one), func(c *acx, got *T) bool { return isOrig(c, got, T0, begin) }))
		x.r.count("ways to replace", 1)
	})
	x.r.floor("ways to replace", 1)
}

// ---- a copy of the text --------------------------------------------------------------

func (x *offCheck) text() {
	w := x.w
	f := w.must(w.method("", "InputTextBuilder", "GetText"), "InputTextBuilder.GetText")
	who := w.fname(f)
	x.r.oblige(who + ": a copy")
	x.run(f, nil, func(k *ai, a *arrTrack, s *astate, at string, res []*T) {
		recv := s.stack[0].env[f.Params[0]]
		M0 := k.ldf(s, recv, x.bt, "modifiedRunes")
		n := k.lenOf(s, M0)
		c := a.ctx(s)
		if !c.eq(k.lenOf(s, res[0]), n) {
			x.bad(k, s, "len:"+who, at, fmt.Sprintf("%s gives %s characters", who, shortT(k.lenOf(s, res[0]))))
			return
		}
		for _, r := range chain(k, res[0]) {
			if r == M0 {
				x.bad(k, s, "shared:"+who, at, who+" hands out the builder's own characters")
				return
			}
		}
		q := k.sym("place", types.Typ[types.Int])
		x.table(k, a, s, at, who, "the copy", res[0], nil, []tcase{
			{"where a character of the text is to be", q, []*T{q, k.sub(k.sub(n, k.num(1)), q)}, func(c *acx, got *T) bool { return isOrig(c, got, M0, q) }},
		})
	})
}

// ---- building ---------------------------------------------------------------------------

func (x *offCheck) build() {
	w := x.w
	f := w.must(w.method("", "InputTextBuilder", "Build"), "InputTextBuilder.Build")
	cats := w.must(w.method("dictionary", "CharacterCategory", "GetCategoryTypes"), "CharacterCategory.GetCategoryTypes")
	catT := w.typ("dictionary", "CharacterCategory")
	grT := w.typ("dictionary", "Grammar")
	who := w.fname(f)
	x.r.oblige(who + ": every byte leads to its character and that character's position")
	intT := types.Typ[types.Int]
	prims := func(a *arrTrack, s *astate, callee *ssa.Function, args []*T) ([]*T, bool) {
		k := a.k
		if callee == cats {
			return []*T{k.mk(&T{op: "prim", s: "category", typ: types.Typ[types.Uint32], args: args})}, true
		}
		if callee.Pkg != nil && callee.Pkg.Pkg.Path() == "unicode/utf8" && (callee.Name() == "DecodeRune" || callee.Name() == "DecodeRuneInString") {
			size := k.mk(&T{op: "prim", s: "size", typ: intT, args: args})
			lo := int64(0)
			n := k.lenOf(s, args[0])
			if k.rangeOf(s, n).lo >= 1 {
				lo = 1
			}
			k.bound(s, size, ival{lo: lo, hi: 4})
			k.bound(s, k.sub(n, size), ival{lo: 0, hi: 1 << 62})
			return []*T{k.mk(&T{op: "prim", s: "rune", typ: types.Typ[types.Int32], args: args}), size}, true
		}
		return nil, false
	}
	x.run(f, prims, func(k *ai, a *arrTrack, s *astate, at string, res []*T) {
		recv := s.stack[0].env[f.Params[0]]
		b := func(n string) *T { return k.ldf(s, recv, x.bt, n) }
		M, T0 := b("modifiedRunes"), b("textOffsets")
		o := res[0]
		g := func(n string) *T { return k.ldf(s, o, x.in, n) }
		if o.op != "alloc" {
			x.bad(k, s, "new:"+who, at, who+" gives "+shortT(o))
			return
		}
		if g("OriginalText") != b("OriginalText") {
			x.bad(k, s, "original:"+who, at, fmt.Sprintf("%s gives %s as the original text", who, shortT(g("OriginalText"))))
		}
		text := g("ModifiedText")
		if text.op != "cast" || text.args[0] != M {
			x.bad(k, s, "modified:"+who, at, fmt.Sprintf("%s gives %s as the text, not the builder's characters", who, shortT(text)))
			return
		}
		ofText := func(t *T) bool {
			t = stripCast(t)
			return t == text || t.op == "cast" && t.args[0] == M && isStringT(t.typ)
		}
		if !ofText(g("Bytea")) {
			x.bad(k, s, "bytes:"+who, at, fmt.Sprintf("%s gives %s as the bytes of the text", who, shortT(g("Bytea"))))
			return
		}
		bl, n := k.lenOf(s, text), k.lenOf(s, M)
		one := k.num(1)
		same := k.sub(k.lenOf(s, T0), k.add(n, one))
		pre := []*T{same, k.sub(k.num(0), same)}
		c := a.ctx(s, pre...)
		q := k.sym("place", types.Typ[types.Int])
		// the round a value is the number of
		round := func(l *arrLoop, t *T) bool {
			z, ok := a.inRound(l, t, k.num(0)).intVal()
			y, ok2 := a.inRound(l, t, one).intVal()
			return ok && ok2 && z == 0 && y == 1
		}
		inChar := func(value func(l *arrLoop, v *T) bool) func(c *acx, got *T) bool {
			return func(c *acx, got *T) bool {
				if got.op != "seg" {
					return false
				}
				l := a.byId[int(got.c0)]
				v, m, first := got.args[0], got.args[1], got.args[2]
				start := k.subst(first, l.init)
				if first.op == "len" && l.init[first.args[0]] != nil {
					start = k.lenOf(s, l.init[first.args[0]])
				}
				if z, ok := start.intVal(); !ok || z != 0 || !value(l, v) {
					return false
				}
				// as many bytes as the character there has
				for _, bk := range l.backs {
					cb := a.ctx(bk.s, pre...)
					ok := false
					for _, t := range append([]*T{}, k.all...) {
						if t.op != "prim" || t.s != "size" || !cb.eq(t, m) {
							continue
						}
						p := t.args[0]
						if i, isV := l.init[p]; isV {
							// the rest of the text
							nx := bk.next[p]
							ok = ok || ofText(i) && nx.op == "slice" && nx.args[0] == p && nx.args[2].op == "nil" && cb.eq(nx.args[1], m) &&
								cb.eq(first, k.sub(bl, k.lenOf(bk.s, p)))
							continue
						}
						root, lo := splitSlice(k, p)
						ok = ok || ofText(root) && (p.op != "slice" || p.args[2].op == "nil") && cb.eq(lo, first)
					}
					if !ok {
						return false
					}
				}
				return true
			}
		}
		inText := []*T{q, k.sub(k.sub(bl, one), q)}
		for _, y := range []struct {
			name string
			val  func(l *arrLoop, v *T) bool
			last func(c *acx, got *T) bool
		}{
			{"byteIndexes", round, func(c *acx, got *T) bool { return c.eq(got, n) }},
			{"offsets", func(l *arrLoop, v *T) bool { return v.op == "orig" && v.args[0] == T0 && round(l, v.args[1]) },
				func(c *acx, got *T) bool { return isOrig(c, got, T0, n) }},
		} {
			l := g(y.name)
			if !c.eq(k.lenOf(s, l), k.add(bl, one)) {
				x.bad(k, s, "len:"+who+":"+y.name, at, fmt.Sprintf("%s makes %s entries in %s", who, shortT(k.lenOf(s, l)), y.name))
				continue
			}
			x.table(k, a, s, at, who, y.name, l, pre, []tcase{
				{"for a byte of the text, not what its character gives", q, inText, inChar(y.val)},
				{"for the end of the text", bl, nil, y.last},
			})
		}
		cc := g("charCategories")
		if !c.eq(k.lenOf(s, cc), n) {
			x.bad(k, s, "len:"+who+":charCategories", at, fmt.Sprintf("%s makes %s entries in charCategories", who, shortT(k.lenOf(s, cc))))
			return
		}
		x.table(k, a, s, at, who, "charCategories", cc, pre, []tcase{
			{"where the categories of a character are to be", q, []*T{q, k.sub(k.sub(n, one), q)}, func(c *acx, got *T) bool {
				return got.op == "prim" && got.s == "category" && isOrig(c, got.args[1], M, q) &&
					got.args[0] == k.ldf(s, k.ldf(s, recv, x.bt, "grammar"), grT, "CharCategory") && namedOf(got.args[0].typ) == catT
			}},
		})
	})
}

// ---- reading the tables ---------------------------------------------------------------------

func (x *offCheck) accessors() {
	w := x.w
	for _, name := range []string{"GetText", "GetByteText", "GetSubstring", "GetOffsetTextLength", "GetOriginalIndex", "GetCharCategoryTypes", "CodePointCount", "IsCharAlignment"} {
		f := w.must(w.method("", "InputText", name), "InputText."+name)
		who := w.fname(f)
		x.r.oblige(who + " gives what the tables hold")
		k := newAI(w, aclient{})
		k.keep = true
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			n++
			x.r.count("accessors", 1)
			env := s.stack[0].env
			recv := env[f.Params[0]]
			g := func(n string) *T { return k.ldf(s, recv, x.in, n) }
			p := func(i int) *T { return env[f.Params[i]] }
			idx := func(i *T) *T { return k.elemAt(s, g("byteIndexes"), i) }
			v := res[0]
			ok, what := false, ""
			switch name {
			case "GetText":
				ok, what = v == g("ModifiedText"), "the rewritten text"
			case "GetByteText":
				ok, what = v == g("Bytea"), "the bytes of the rewritten text"
			case "GetOffsetTextLength":
				ok, what = v == idx(p(1)), "the number of characters before that byte"
			case "GetOriginalIndex":
				ok, what = v == k.elemAt(s, g("offsets"), p(1)), "the original position of that byte"
			case "GetCharCategoryTypes":
				ok, what = v == k.elemAt(s, g("charCategories"), idx(p(1))), "the categories of the character of that byte"
			case "CodePointCount":
				ok, what = k.equal(s, v, k.sub(idx(p(2)), idx(p(1)))) == 1, "the number of characters between the two bytes"
			case "IsCharAlignment":
				bt := k.elemAt(s, g("Bytea"), p(1))
				lead := k.not(k.eq(k.bin(token.AND, bt, k.num(0xC0), types.Typ[types.Uint8]), k.num(0x80)))
				ok = v == lead
				what = "whether a character begins there"
				if !ok {
					// RuneStart of the same byte
					ok = v.op == "res" && v.in != nil && len(v.args) == 1 && v.args[0] == bt && v.in.(ssa.CallInstruction).Common().StaticCallee() != nil && v.in.(ssa.CallInstruction).Common().StaticCallee().String() == "unicode/utf8.RuneStart"
				}
			case "GetSubstring":
				what = "the text from the one byte's character to the other's"
				if v.op == "cast" && v.args[0].op == "slice" {
					sl := v.args[0]
					lo := sl.args[1]
					if lo.op == "nil" {
						lo = k.num(0)
					}
					ok = isRunes(sl.args[0], g("ModifiedText")) && sl.args[2].op != "nil" && k.equal(s, lo, idx(p(1))) == 1 && k.equal(s, sl.args[2], idx(p(2))) == 1
				}
				if t := stripCast(v); !ok && t.op == "slice" {
					// the bytes themselves
					lo := t.args[1]
					if lo.op == "nil" {
						lo = k.num(0)
					}
					b := stripCast(t.args[0])
					ok = (b == g("Bytea") || b == g("ModifiedText")) && lo == p(1) && t.args[2] == p(2)
				}
			}
			if !ok {
				x.bad(k, s, "accessor:"+who, w.posOf(at), fmt.Sprintf("%s gives %s, not %s", who, shortT(v), what))
			}
		}
		k.run(f, func(s *astate) {
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if n == 0 || k.gaveUp {
			x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
}

// stepsTo: how many bytes a number of characters from a byte on takes.
func (x *offCheck) stepsTo() {
	w := x.w
	f := w.must(w.method("", "InputText", "GetCodePointsOffsetLength"), "InputText.GetCodePointsOffsetLength")
	who := w.fname(f)
	x.r.oblige(who + ": the first byte that many characters on, or the end")
	k := newAI(w, aclient{})
	a := newArrTrack(k, func(types.Type) bool { return false })
	k.cl.load = nil
	get := func(s *astate) (list, idx, target, n *T) {
		env := s.stack[0].env
		recv, i, cp := env[f.Params[0]], env[f.Params[1]], env[f.Params[2]]
		list = k.ldf(s, recv, x.in, "byteIndexes")
		return list, i, k.add(k.elemAt(s, list, i), cp), k.lenOf(s, k.ldf(s, recv, x.in, "Bytea"))
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		s2 := s.clone(k)
		k.later = append(k.later, func() {
			var l *arrLoop
			loops := 0
			for _, e := range a.data(s2).log {
				if e.kind == "loop" {
					l = e.loop
					loops++
				}
			}
			pos := w.posOf(at)
			if loops != 1 || a.rounds(l) == nil {
				x.bad(k, s2, "steps:loop", pos, who+" was not recognised as going on byte by byte")
				return
			}
			list, i, target, bl := get(s2)
			// a place of the table, which has one more than there are bytes
			c := a.ctx(s2, i, k.sub(bl, i))
			if !c.eq(res[0], a.rounds(l)) {
				x.bad(k, s2, "steps:count", pos, fmt.Sprintf("%s gives %s, not the number of bytes passed", who, shortT(res[0])))
			}
			p := k.add(i, res[0])
			reached := c.ge0(k.sub(p, bl))
			for _, e := range k.elemsNear(s2, list) {
				reached = reached || c.eq(e.args[0].args[1], p) && c.ge0(k.sub(e, target))
			}
			if !reached {
				x.bad(k, s2, "steps:early", pos, who+" can stop before that many characters have been passed")
			}
			for _, b := range l.backs {
				cb := a.ctx(b.s)
				q := k.add(i, a.rounds(l))
				ok := false
				for _, e := range k.elemsNear(b.s, list) {
					ok = ok || cb.eq(e.args[0].args[1], q) && cb.ge0(k.sub(k.sub(target, k.num(1)), e))
				}
				if !ok || !cb.ge0(k.sub(k.sub(bl, k.num(1)), q)) {
					x.bad(k, b.s, "steps:far", pos, who+" can go on behind that many characters")
				}
			}
		})
	}
	k.run(f, func(s *astate) {
		s.data = &arrState{phi: map[*T]*arrLoop{}, bld: map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	for _, g := range k.later {
		g()
	}
	if k.gaveUp || n == 0 {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// elemsNear: the elements of the list the state knows something about.
func (k *ai) elemsNear(s *astate, list *T) []*T {
	seen := map[*T]bool{}
	var es []*T
	for key := range s.bnd {
		walkT(key, func(u *T) bool {
			if u.op == "load" && u.args[0].op == "idx" && u.args[0].args[0] == list && !seen[u] {
				seen[u] = true
				es = append(es, u)
			}
			return true
		})
	}
	return es
}

// writers: nobody else changes the tables.
func (x *offCheck) writers() {
	w := x.w
	x.r.oblige("the tables are changed by nobody else")
	ok := map[*ssa.Function]bool{}
	for _, f := range []*ssa.Function{w.pkgFunc("", "NewInputTextBuilder"), w.pkgFunc("", "NewInputText"), w.method("", "InputTextBuilder", "Replace"), w.method("", "InputTextBuilder", "Build")} {
		ok[f] = true
	}
	// helpers only they use
	for ch := true; ch; {
		ch = false
		for _, f := range w.allFns {
			if ok[f] || f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath {
				continue
			}
			cs := w.index().args[f]
			all := len(cs) > 0
			for _, c := range cs {
				all = all && ok[c.Parent()]
			}
			if all {
				ok[f], ch = true, true
			}
		}
	}
	mine := func(fa *ssa.FieldAddr) *types.Named {
		if n := namedOf(fa.X.Type()); n == x.in || n == x.bt {
			return n
		}
		return nil
	}
	// the table of a list, if it is taken right from one
	var table func(v ssa.Value, dep int) *types.Named
	table = func(v ssa.Value, dep int) *types.Named {
		if dep > 8 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.UnOp:
			if fa, isFA := v.X.(*ssa.FieldAddr); isFA && v.Op == token.MUL {
				return mine(fa)
			}
		case *ssa.Slice:
			return table(v.X, dep+1)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if n := table(e, dep+1); n != nil {
					return n
				}
			}
		}
		return nil
	}
	for _, f := range w.allFns {
		if f.Pkg == nil || !w.inModule(f) || ok[f] {
			continue
		}
		x.r.count("functions searched", 1)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var n *types.Named
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						n = mine(a)
					case *ssa.IndexAddr:
						n = table(a.X, 0)
					}
				case *ssa.Call:
					if bi, isB := in.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear") {
						n = table(in.Call.Args[0], 0)
					}
				}
				if n != nil {
					x.bad(nil, nil, "writer:"+w.fname(f), w.posOf(in), fmt.Sprintf("%s changes a field of %s", w.fname(f), n.Obj().Name()))
				}
			}
		}
	}
}
