package main

// C08: the grammar (parts of speech and connection costs), the header, and a
// new builder.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const posParts = 6 // the strings of a part of speech

type gramCheck struct {
	*layout
	e              *emitter
	ctor           *ssa.Function
	buf, off, flag *T
}

// grammar: the grammar as it is read, and as it is written again.
func (l *layout) grammar() {
	w := l.w
	ctor := w.must(w.pkgFunc("dictionary", "NewGrammar"), "NewGrammar")
	x := &gramCheck{layout: l, ctor: ctor, e: newEmitter(w, l.wr)}
	e := x.e
	l.follow(e, nil)
	l.r.oblige("the grammar is read, and written again, as it is laid out")
	ok := l.settled(func(hold func()) bool {
		return e.run(ctor, nil, func(s *astate) {
			k := e.k
			x.buf = k.val(s, s.top(), w.mustParam(ctor, isBytesT))
			x.off = k.val(s, s.top(), w.mustParam(ctor, isIntT))
			x.flag = k.val(s, s.top(), w.mustParam(ctor, isBoolType))
			e.in = x.buf
			s.data.(*emState).g[x.buf] = k.add(x.off, k.num(2))
		}, func() {
			hold()
			for _, y := range e.exits {
				x.exit(y)
			}
		})
	})
	if !ok {
		l.bad(nil, nil, "steps", w.pos(ctor.Pos()), w.fname(ctor)+" and the grammar's methods have more paths than are followed")
	}
}

func (x *gramCheck) meth(name string) *ssa.Function {
	return x.w.must(x.w.method("dictionary", "Grammar", name), "Grammar."+name)
}

func (x *gramCheck) exit(y emExit) {
	k, e := x.e.k, x.e
	who := x.w.fname(x.ctor)
	g := y.res[0]
	var list *T
	d := y.s.data.(*emState)
	count := func(s *astate, t *T) bool { return k.isNum(s, t, x.buf, x.off, "le2") }
	// the parts of speech
	m := e.match(y.s, e.arrives(d.ev)[x.buf], []pat{{what: "the parts of speech", kind: "loop", list: func(s *astate, lp *emLoop) bool {
		list = lp.l.list
		return list != nil && count(s, k.lenOf(s, list)) && k.gone(s, &lp.l, list)
	}, body: func(s *astate, outer *emLoop) []pat {
		return []pat{{what: "the strings of a part of speech", kind: "loop", list: func(s *astate, lp *emLoop) bool {
			n, isC := int64(0), false
			if lp.l.list != nil {
				n, isC = k.lenOf(s, lp.l.list).intVal()
			}
			return isC && n == posParts && k.gone(s, &lp.l, lp.l.list) && k.elemAt(s, list, k.index(outer.l)) == lp.l.list
		}, body: func(s *astate, lp *emLoop) []pat {
			return []pat{{what: "a string", kind: "read str8|read str16", ok: func(s *astate, it emItem) bool {
				return it.kind == "read "+x.encodingOf(e, s, x.flag) && k.equal(s, it.val.args[1], it.pos) == 1 && k.elemAt(s, lp.l.list, k.index(lp.l)) == it.val
			}}}
		}}}
	}}}, y.at)
	if m != nil {
		m.msg = strings.Replace(m.msg, "writes", "reads", 1)
		x.miss(e, who, m)
		return
	}
	x.count("sections read")
	G := d.g[x.buf]
	ss := k.getField(y.s, g, x.w.typ("dictionary", "Grammar"), "StorageSize")
	left, right := k.numAt(y.s, ss, x.buf, G, "le2"), k.numAt(y.s, ss, x.buf, k.add(G, k.num(2)), "le2")
	C := k.add(G, k.num(4))
	if left == nil || right == nil {
		x.bad(k, y.s, "storage", y.at, fmt.Sprintf("%s does not work out its size from the two sizes behind the parts of speech: %s", who, shortT(ss)))
		return
	}
	L, R := x.toInt(y.s, left), x.toInt(y.s, right)
	mat := k.scaled(k.mul(L, R, types.Typ[types.Int]), 2)
	if k.equal(y.s, ss, k.add(k.sub(C, x.off), mat)) != 1 {
		x.bad(k, y.s, "storage", y.at, fmt.Sprintf("%s takes %s for the size of the grammar", who, shortT(ss)))
	}
	x.count("sections read")
	// lookups
	f := x.meth("GetPartOfSpeechSize")
	for _, z := range e.resume(y.s, "size", f, []*T{g}) {
		x.count("lookups")
		if k.equal(z.s, z.res[0], k.lenOf(z.s, list)) != 1 {
			x.bad(k, z.s, "possize", z.at, fmt.Sprintf("%s returns %s, not the number of parts of speech", x.w.fname(f), shortT(z.res[0])))
		}
	}
	f = x.meth("GetPartOfSpeechString")
	id := k.sym("pos", f.Params[1].Type())
	for _, z := range e.resume(y.s, "pos", f, []*T{g, id}) {
		x.count("lookups")
		v := z.res[0]
		if v.op != "load" || v.args[0].op != "idx" || v.args[0].args[0] != list || k.equal(z.s, unconv(v.args[0].args[1], 2), id) != 1 {
			x.bad(k, z.s, "pos", z.at, fmt.Sprintf("%s returns %s, not the part of speech with the id", x.w.fname(f), shortT(v)))
		}
	}
	f = x.meth("GetConnectCost")
	a, b := k.sym("left", f.Params[1].Type()), k.sym("right", f.Params[2].Type())
	want := k.add(C, k.add(k.scaled(x.toInt(y.s, a), 2), k.scaled(k.mul(L, x.toInt(y.s, b), types.Typ[types.Int]), 2)))
	for _, z := range e.resume(y.s, "cost", f, []*T{g, a, b}) {
		x.count("lookups")
		if !k.isNum(z.s, z.res[0], x.buf, want, "le2") {
			x.bad(k, z.s, "cost", z.at, fmt.Sprintf("%s takes %s, not the cost at left + (left size)*right", x.w.fname(f), shortT(z.res[0])))
		}
	}
	// written again
	f = x.meth("WritePOSTableTo")
	who = x.w.fname(f)
	out, flag := k.sym("output", f.Params[1].Type()), k.sym("utf16", f.Params[2].Type())
	s2 := y.s.clone(k)
	s2.data.(*emState).g[out] = k.num(0)
	n := 0
	for _, z := range e.resume(s2, "wpos", f, []*T{g, out, flag}) {
		if k.nonNil(z.s, z.res[0]) != -1 {
			continue
		}
		n++
		x.count("sections written again")
		if m := e.match(z.s, e.arrives(z.s.data.(*emState).ev)[out], x.posPats(e, list, func(s *astate, it emItem) bool {
			return it.kind == x.encodingOf(e, s, flag)
		}, false), z.at); m != nil {
			x.miss(e, who, m)
		}
		x.unflushed(e, z, who)
	}
	if n == 0 {
		x.bad(k, y.s, "none:"+who, y.at, who+" never reports success")
	}
	f = x.meth("WriteConnMatrixTo")
	who = x.w.fname(f)
	out = k.sym("output", f.Params[1].Type())
	n = 0
	for _, z := range e.resume(y.s, "wmat", f, []*T{g, out}) {
		if k.nonNil(z.s, z.res[1]) != -1 {
			continue
		}
		n++
		x.count("sections written again")
		d := z.s.data.(*emState)
		items := e.arrives(d.ev)[out]
		ps := []pat{
			{what: "the left size", kind: "le2", ok: func(s *astate, it emItem) bool { return k.lowSame(s, it.val, left, 2) }},
			{what: "the right size", kind: "le2", ok: func(s *astate, it emItem) bool { return k.lowSame(s, it.val, right, 2) }},
		}
		if len(items) > 2 || k.rangeOf(z.s, mat).hi > 0 {
			ps = append(ps, pat{what: "the costs", kind: "bytes", ok: func(s *astate, it emItem) bool {
				b, o := k.baseOff(it.val)
				return b == x.buf && k.equal(s, o, C) == 1 && k.equal(s, k.lenOf(s, it.val), mat) == 1
			}})
		}
		if m := e.match(z.s, items, ps, z.at); m != nil {
			x.miss(e, who, m)
			continue
		}
		x.unflushed(e, z, who)
		if k.equal(z.s, z.res[0], k.sub(d.g[out], items[0].pos)) != 1 && !(len(items) == 2 && k.equal(z.s, z.res[0], k.num(4)) == 1) {
			x.bad(k, z.s, "n:"+who, z.at, fmt.Sprintf("%s returns %s, not the number of bytes it wrote", who, shortT(z.res[0])))
		}
	}
	if n == 0 {
		x.bad(k, y.s, "none:"+who, y.at, who+" never reports success")
	}
}

func (x *gramCheck) toInt(s *astate, t *T) *T {
	if c := x.e.k.convert(s, t, t.typ, types.Typ[types.Int]); c != nil && !isBasic(t.typ, types.Int) {
		return c
	}
	return t
}

// posPats: the parts of speech of a list, as they are written.
func (l *layout) posPats(e *emitter, list *T, enc func(s *astate, it emItem) bool, fixed bool) []pat {
	k := e.k
	return []pat{
		{what: "the number of parts of speech", kind: "le2", ok: func(s *astate, it emItem) bool {
			return k.lowSame(s, it.val, k.lenOf(s, list), 2)
		}},
		{what: "the parts of speech", kind: "loop", list: func(s *astate, lp *emLoop) bool {
			return lp.l.list == list && k.gone(s, &lp.l, list)
		}, body: func(s *astate, outer *emLoop) []pat {
			return []pat{{what: "the strings of a part of speech", kind: "loop", list: func(s *astate, lp *emLoop) bool {
				return lp.l.list != nil && lp.l.list == k.elemAt(s, list, k.index(outer.l)) && k.gone(s, &lp.l, lp.l.list)
			}, body: func(s *astate, lp *emLoop) []pat {
				return []pat{{what: "a string", kind: "string|str8|str16", ok: func(s *astate, it emItem) bool {
					v := it.val
					return enc(s, it) && v.op == "load" && v.args[0].op == "idx" && v.args[0].args[0] == lp.l.list && k.equal(s, v.args[0].args[1], k.index(lp.l)) == 1
				}}}
			}}}
		}},
	}
}

// parsed: t is the number in column i of a line, and which line.
func parsed(t *T) (cols *T, i int64, ok bool) {
	t = unconv(t, 2)
	if t.op != "res" || !strings.HasPrefix(t.s, "strconv.ParseInt") && !strings.HasPrefix(t.s, "strconv.Atoi") || t.c0 != 0 || len(t.args) == 0 {
		return
	}
	a := t.args[0]
	if a.op != "load" || a.args[0].op != "idx" {
		return
	}
	i, ok = a.args[0].args[1].intVal()
	return a.args[0].args[0], i, ok
}

// builderGrammar: WriteGrammar and WriteGrammarUser.
func (l *layout) builderGrammar(name string) {
	w := l.w
	dt := w.typ("dictionary", "DictionaryBuilder")
	f := w.must(w.method("dictionary", "DictionaryBuilder", name), "DictionaryBuilder."+name)
	who := w.fname(f)
	l.r.oblige(who + " writes the grammar as it is read")
	fPos := oneField(dt, "the position", func(t types.Type) bool { return isBasic(t, types.Int64) })
	fBuf := oneField(dt, "the buffer", func(t types.Type) bool { n := namedOf(t); return n != nil && n.Obj().Name() == "Buffer" })
	tabT := w.typ("dictionary", "PosTable")
	fTab := oneField(tabT, "the table", func(t types.Type) bool { return sliceOfT(t) != nil })
	st := dt.Underlying().(*types.Struct)
	e := newEmitter(w, l.wr)
	var recv, out, table, buf *T
	l.follow(e, nil)
	e.put = func(s *astate, base, off *T, kind string, v *T, at ssa.Instruction) {
		d := s.data.(*emState)
		d.ev = append(d.ev, emEv{kind: "put " + kind, to: base, val: v, pos: off, at: at})
	}
	var start *T
	ok := e.run(f, func(k *ai) { k.unroll = true }, func(s *astate) {
		k := e.k
		recv = k.val(s, s.top(), f.Params[0])
		tp := k.val(s, s.top(), w.mustParam(f, func(t types.Type) bool { return namedOf(t) == tabT }))
		table = k.load(s, k.fld(tp, tabT, fTab), tabT.Underlying().(*types.Struct).Field(fTab).Type())
		out = k.val(s, s.top(), w.mustParam(f, isWriterType))
		d := s.data.(*emState)
		start = k.load(s, k.fld(recv, dt, fPos), st.Field(fPos).Type())
		buf = k.load(s, k.fld(recv, dt, fBuf), st.Field(fBuf).Type())
		d.g[out] = start
		d.g[buf] = k.num(0)
	}, nil)
	if !ok {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	k := e.k
	n := 0
	for _, y := range e.exits {
		if k.nonNil(y.s, y.res[0]) != -1 {
			continue
		}
		n++
		d := y.s.data.(*emState)
		all := e.arrives(d.ev)
		l.unflushed(e, y, who)
		enc := map[string]bool{}
		builderEnc := func(s *astate, it emItem) bool {
			p := ""
			if it.sel != nil {
				p = k.leafPath(s, it.sel, func(t *T) bool { return t == recv })
			}
			enc[p] = true
			return it.kind == "string" && p != "" && p != "@" && len(enc) == 1
		}
		ps := l.posPats(e, table, builderEnc, true)
		var left, right *T
		var head *T
		size := func(i int64, what string) pat {
			return pat{what: what, kind: "le2", ok: func(s *astate, it emItem) bool {
				if c, isC := it.val.intVal(); isC && c == 0 {
					if i == 0 {
						left = k.num(0)
					} else {
						right = k.num(0)
					}
					return true
				}
				cols, j, ok := parsed(it.val)
				if !ok || i != j || head != nil && cols != head {
					return false
				}
				head = cols
				if i == 0 {
					left = unconv(it.val, 2)
				} else {
					right = unconv(it.val, 2)
				}
				return true
			}}
		}
		ps = append(ps, size(0, "the left size"), size(1, "the right size"))
		items := all[out]
		var matrix *T
		if len(items) > 4 {
			ps = append(ps, pat{what: "the costs", kind: "bytes", ok: func(s *astate, it emItem) bool {
				matrix, _ = k.baseOff(it.val)
				return matrix == it.val && left != nil && right != nil && k.equal(s, k.lenOf(s, it.val), k.mul(k.mul(left, right, types.Typ[types.Int64]), k.num(2), types.Typ[types.Int64])) == 1
			}})
		}
		if m := e.match(y.s, items, ps, y.at); m != nil {
			l.miss(e, who, m)
			continue
		}
		l.count("sections written")
		if matrix == nil {
			if !(k.equal(y.s, left, k.num(0)) == 1 || k.equal(y.s, right, k.num(0)) == 1) {
				l.bad(k, y.s, "matrix:"+who, y.at, who+" writes no costs although the sizes it wrote may not be 0")
			}
		} else if m := l.cells(e, y, all[matrix], left); m != nil {
			l.miss(e, who, m)
		}
		for t, its := range all {
			if t != out && t != matrix && len(its) > 0 && its[0].kind != "put le2" {
				l.miss(e, who, &emMiss{y.at, fmt.Sprintf("leaves %s in %s and does not write it out", its[0], shortT(t)), y.s})
			}
		}
		if p := k.load(y.s, k.fld(recv, dt, fPos), st.Field(fPos).Type()); k.equal(y.s, p, d.g[out]) != 1 {
			l.bad(k, y.s, "pos:"+who, y.at, fmt.Sprintf("%s leaves %s as the position, not the number of bytes written so far", who, shortT(p)))
		}
		if nb := k.load(y.s, k.fld(recv, dt, fBuf), st.Field(fBuf).Type()); nb != buf || k.equal(y.s, d.g[buf], k.num(0)) != 1 {
			l.bad(k, y.s, "buf:"+who, y.at, who+" leaves something in the buffer")
		}
	}
	if n == 0 {
		l.bad(nil, nil, "none:"+who, w.pos(f.Pos()), who+" never reports success")
	}
}

// cells: every cost is put where it is looked up.
func (l *layout) cells(e *emitter, y emExit, items []emItem, left *T) *emMiss {
	k := e.k
	puts := 0
	for _, it := range items {
		if it.kind != "loop" {
			return &emMiss{y.at, fmt.Sprintf("writes %s into the costs", it), y.s}
		}
		for j, b := range it.bodies {
			s := it.states[j].s
			for _, p := range b {
				if p.kind != "put le2" {
					return &emMiss{it.states[j].at, fmt.Sprintf("writes %s into the costs", p), s}
				}
				puts++
				l.count("cells")
				cols, c, ok := parsed(p.val)
				var a, r *T
				walkT(p.pos, func(t *T) bool {
					if cs, i, ok := parsed(t); ok && t.op == "res" && cs == cols {
						switch i {
						case 0:
							a = t
						case 1:
							r = t
						}
					}
					return true
				})
				pos := e.w.posOf(p.at)
				if !ok || c != 2 || a == nil || r == nil {
					return &emMiss{pos, fmt.Sprintf("puts %s at %s of the costs", shortT(p.val), shortT(p.pos)), s}
				}
				i64 := types.Typ[types.Int64]
				if k.equal(s, p.pos, k.mul(k.add(a, k.mul(left, r, i64)), k.num(2), i64)) != 1 {
					return &emMiss{pos, fmt.Sprintf("puts the cost of a pair at %s, not at left + (left size)*right", shortT(p.pos)), s}
				}
			}
		}
	}
	if puts == 0 {
		return &emMiss{y.at, "puts no costs into the matrix", y.s}
	}
	return nil
}

// firstZero: ln is where bytes.IndexByte finds the first zero byte among size
// bytes of buf, or size if it finds none.
func (l *layout) firstZero(k *ai, s *astate, buf, from, ln *T, size int64) bool {
	found := false
	look := func(t *T) bool {
		if !isRes(t, "bytes.IndexByte") {
			return false
		}
		b, o := k.baseOff(t.args[0])
		return b == buf && k.equal(s, o, from) == 1 && k.equal(s, k.lenOf(s, t.args[0]), k.num(size)) == 1 && k.equal(s, t.args[1], k.num(0)) == 1
	}
	if look(ln) {
		return k.rangeOf(s, ln).lo >= 0
	}
	if k.equal(s, ln, k.num(size)) != 1 {
		return false
	}
	for t := range s.bnd {
		if look(t) && k.rangeOf(s, t).hi < 0 {
			found = true
		}
	}
	return found
}

// newBuilder: what a new builder starts with.
func (l *layout) newBuilder(sl *slots) {
	w := l.w
	dt := w.typ("dictionary", "DictionaryBuilder")
	f := w.must(w.pkgFunc("dictionary", "NewDictionaryBuilder"), "NewDictionaryBuilder")
	who := w.fname(f)
	l.r.oblige(who + " starts at the position, and with the encoding, it is given")
	fPos := oneField(dt, "the position", func(t types.Type) bool { return isBasic(t, types.Int64) })
	fBuf := oneField(dt, "the buffer", func(t types.Type) bool { n := namedOf(t); return n != nil && n.Obj().Name() == "Buffer" })
	st := dt.Underlying().(*types.Struct)
	e := newEmitter(w, l.wr)
	var pos, flag *T
	ok := e.run(f, nil, func(s *astate) {
		k := e.k
		pos = k.val(s, s.top(), w.mustParam(f, func(t types.Type) bool { return isBasic(t, types.Int64) }))
		flag = k.val(s, s.top(), w.mustParam(f, isBoolType))
	}, nil)
	if !ok {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	k := e.k
	encF := -1
	for p := range sl.enc {
		encF = structField(dt, strings.TrimPrefix(p, "@."))
	}
	for _, y := range e.exits {
		if p := k.load(y.s, k.fld(y.res[0], dt, fPos), st.Field(fPos).Type()); k.equal(y.s, p, pos) != 1 {
			l.bad(k, y.s, "new:pos", y.at, fmt.Sprintf("%s starts at %s, not at the position it is given", who, shortT(p)))
		}
		b := k.load(y.s, k.fld(y.res[0], dt, fBuf), st.Field(fBuf).Type())
		d := y.s.data.(*emState)
		if g := d.g[b]; g == nil && !isRes(b, "bytes.NewBuffer") && b.op != "alloc" || g != nil && k.equal(y.s, g, k.num(0)) != 1 {
			l.bad(k, y.s, "new:buf", y.at, who+" does not start with an empty buffer")
		}
		if encF >= 0 {
			fn := k.load(y.s, k.fld(y.res[0], dt, encF), st.Field(encF).Type())
			want := l.encodingOf(e, y.s, flag)
			got := ""
			for g, kd := range l.wr {
				if fn == k.fn(g) {
					got = kd
				}
			}
			if got != want {
				l.bad(k, y.s, "new:enc", y.at, fmt.Sprintf("%s chooses %s to write %s", who, shortT(fn), kindText(want)))
			}
		}
	}
	// nobody else changes them
	ix := w.index()
	reach := map[*ssa.Function]bool{}
	for _, n := range []string{"WriteLexicon", "WriteGrammar", "WriteGrammarUser"} {
		for g := range w.reachable([]*ssa.Function{w.method("dictionary", "DictionaryBuilder", n)}) {
			reach[g] = true
		}
	}
	for _, fi := range []int{fPos, fBuf, encF} {
		if fi < 0 {
			continue
		}
		for _, stt := range ix.fst[fieldClass(dt, fi)] {
			g := stt.Parent()
			l.count("stores to the builder's fields")
			if g == f || fi == fPos && reach[g] {
				continue
			}
			l.bad(nil, nil, "st:"+w.fname(g), w.posOf(stt), fmt.Sprintf("%s changes %s of a builder", w.fname(g), st.Field(fi).Name()))
		}
	}
}

// header: the header is read as it is written.
func (l *layout) header() {
	w := l.w
	ht := w.typ("dictionary", "DictionaryHeader")
	f := w.must(w.method("dictionary", "DictionaryHeader", "ToBytes"), "DictionaryHeader.ToBytes")
	who := w.fname(f)
	l.r.oblige("the header is read as it is written")
	const descSize, headSize = 256, 16 + 256
	e := newEmitter(w, l.wr)
	l.follow(e, nil)
	var recv *T
	if !e.run(f, nil, func(s *astate) { recv = e.k.val(s, s.top(), f.Params[0]) }, nil) {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	k := e.k
	n := 0
	for _, y := range e.exits {
		if k.nonNil(y.s, y.res[1]) != -1 {
			continue
		}
		n++
		d := y.s.data.(*emState)
		b := y.res[0]
		if !isRes(b, "bytes.Buffer).Bytes") {
			l.bad(k, y.s, "hdr", y.at, fmt.Sprintf("%s returns %s, not the bytes it wrote", who, shortT(b)))
			continue
		}
		out := strip(b.args[0])
		desc := k.getField(y.s, recv, ht, "Description")
		ps := []pat{
			{what: "the version", kind: "le8", ok: func(s *astate, it emItem) bool { return unconv(it.val, 8) == k.getField(s, recv, ht, "Version") }},
			{what: "the creation time", kind: "le8", ok: func(s *astate, it emItem) bool { return unconv(it.val, 8) == k.getField(s, recv, ht, "CreateTime") }},
			{what: "the description", kind: "bytes|str", ok: func(s *astate, it emItem) bool {
				v := it.val
				for v.op == "conv" || v.op == "cast" {
					v = v.args[0]
				}
				return v == desc
			}},
		}
		items := e.arrives(d.ev)[out]
		if len(items) == 4 {
			ps = append(ps, pat{what: "zeros up to the end of the header", kind: "bytes", ok: func(s *astate, it emItem) bool { return it.val.op == "mkslice" }})
		}
		if m := e.match(y.s, items, ps, y.at); m != nil {
			l.miss(e, who, m)
			continue
		}
		l.count("sections written")
		if k.equal(y.s, d.g[out], k.num(headSize)) != 1 {
			l.bad(k, y.s, "hdrsize", y.at, fmt.Sprintf("%s returns %s bytes, not %d", who, shortT(d.g[out]), headSize))
		}
	}
	if n == 0 {
		l.bad(nil, nil, "none:"+who, w.pos(f.Pos()), who+" never reports success")
	}
	// reading
	f = w.must(w.pkgFunc("dictionary", "ParseDictionaryHeader"), "ParseDictionaryHeader")
	who = w.fname(f)
	e = newEmitter(w, nil)
	l.follow(e, nil)
	var buf, off *T
	e.onHead = nil
	if !e.run(f, nil, func(s *astate) {
		buf = e.k.val(s, s.top(), w.mustParam(f, isBytesT))
		off = e.k.val(s, s.top(), w.mustParam(f, isIntT))
		e.k.bound(s, off, ival{lo: 0, hi: 1 << 40})
	}, nil) {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	k = e.k
	n = 0
	for _, y := range e.exits {
		room := k.sub(k.lenOf(y.s, buf), off)
		h := y.res[0]
		if k.nonNil(y.s, h) != 1 {
			if k.rangeOf(y.s, room).hi >= headSize {
				l.bad(k, y.s, "hdr:nil", y.at, who+" may find no header although there are enough bytes")
			}
			continue
		}
		n++
		l.count("sections read")
		for _, q := range []struct {
			name string
			at   int64
		}{{"Version", 0}, {"CreateTime", 8}} {
			if v := k.getField(y.s, h, ht, q.name); !k.isNum(y.s, v, buf, k.add(off, k.num(q.at)), "le8") {
				l.bad(k, y.s, "hdr:"+q.name, y.at, fmt.Sprintf("%s takes %s for %s", who, shortT(v), q.name))
			}
		}
		v := k.getField(y.s, h, ht, "Description")
		for v.op == "conv" || v.op == "cast" {
			v = v.args[0]
		}
		base, from := k.baseOff(v)
		ln := k.lenOf(y.s, v)
		ok := base == buf && k.equal(y.s, from, k.add(off, k.num(16))) == 1
		end := k.add(from, ln)
		if ok {
			// it ends before a zero byte or at the end of the header, and no zero byte is in it
			u8 := types.Typ[types.Uint8]
			atEnd := k.equal(y.s, ln, k.num(descSize)) == 1 || k.rangeOf(y.s, ln).lo >= descSize
			zero := k.equal(y.s, k.load(y.s, k.idx(buf, end, u8), u8), k.num(0)) == 1
			ok = atEnd || zero || l.firstZero(k, y.s, buf, from, ln, descSize)
			good := false
			for _, lp := range e.loops {
				for _, in := range lp.l.h.Instrs {
					ph, isP := in.(*ssa.Phi)
					if !isP {
						break
					}
					for _, b := range lp.bodies {
						c := b.s.top().envOf(ph)
						if c == nil || !hasTerm(ln, c) {
							continue
						}
						d, isC := k.sub(e.edge(b.s, lp.l.h, ph), c).intVal()
						cur := k.add(from, ln) // where the counter is
						good = isC && d == 1 && k.equal(b.s, k.load(b.s, k.idx(buf, cur, u8), u8), k.num(0)) == -1
					}
				}
			}
			ok = ok && (good || l.firstZero(k, y.s, buf, from, ln, descSize))
		}
		if !ok {
			l.bad(k, y.s, "hdr:desc", y.at, fmt.Sprintf("%s takes %s for the description, not what is in front of the first zero byte", who, shortT(v)))
		}
	}
	if n == 0 {
		l.bad(nil, nil, "none:"+who, w.pos(f.Pos()), who+" never finds a header")
	}
}
