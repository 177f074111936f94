package main

// C08: the reading side, and the converter, which writes what was read.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// numAt: the largest part of t that is the number of the given kind at
// buf[off:].
func (k *ai) numAt(s *astate, t, buf, off *T, kind string) *T {
	var r *T
	walkT(t, func(y *T) bool {
		if r == nil && y.typ != nil && isInteger(y.typ) && (y.op == "conv" || y.op == "cast" || y.op == "rd" || y.op == "load") && k.isNum(s, y, buf, off, kind) {
			r = y
		}
		return r == nil
	})
	return r
}

// isNum: t is the number of that kind at buf[off:].
func (k *ai) isNum(s *astate, t, buf, off *T, kind string) bool {
	if r := unconv(t, int(kind[2]-'0')); r.op == "rd" {
		return r.s == kind && r.args[0] == buf && k.equal(s, r.args[1], off) == 1
	}
	b, o, kd, _, ok := k.bytesRead(s, t)
	return ok && b == buf && kd == kind && k.equal(s, o, off) == 1
}

func (k *ai) scaled(x *T, n int64) *T { return k.mul(x, k.num(n), types.Typ[types.Int]) }

func structField(t *types.Named, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (k *ai) getField(s *astate, p *T, t *types.Named, name string) *T {
	i := structField(t, name)
	if i < 0 {
		return k.other("?")
	}
	return k.load(s, k.fld(p, t, i), t.Underlying().(*types.Struct).Field(i).Type())
}

// paramOf: f's parameter of that type.
func paramOf(f *ssa.Function, is func(types.Type) bool) *ssa.Parameter {
	for _, p := range f.Params {
		if is(p.Type()) {
			return p
		}
	}
	return nil
}

func isBoolType(t types.Type) bool { return isBasic(t, types.Bool) }
func isIntT(t types.Type) bool     { return isBasic(t, types.Int) }

// trieCalls: what is known of a trie that was given its units as bytes.
func (l *layout) trieCalls(e *emitter) func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
	return func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != l.w.rel("dartsclone") {
			return nil, false, true
		}
		d := s.data.(*emState)
		b := d.note["trie"]
		k := e.k
		switch callee.Name() {
		case "SetBuffer":
			if len(args) == 2 {
				d.note["trie"] = args[1]
				return []*T{}, true, false
			}
		case "TotalSize":
			if b != nil {
				return []*T{k.lenOf(s, b)}, true, false
			}
		case "ByteArray":
			if b != nil {
				return []*T{b}, true, false
			}
		case "Length":
			if b != nil {
				n := k.lenOf(s, b)
				var q *T
				walkT(n, func(y *T) bool {
					if q == nil && y.typ != nil && isInteger(y.typ) && k.equal(s, n, k.scaled(y, 4)) == 1 {
						q = y
					}
					return q == nil
				})
				if q != nil {
					return []*T{q}, true, false
				}
			}
		}
		return k.opaque(s, s.top(), c, callee, args), true, false
	}
}

// trie: the sizes of a trie given as bytes.
func (l *layout) trie() {
	w := l.w
	set := w.must(w.method("dartsclone", "DoubleArray", "SetBuffer"), "DoubleArray.SetBuffer")
	l.r.oblige("a trie given as bytes has those bytes, their number, and a quarter as many units")
	e := newEmitter(w, nil)
	var recv, b *T
	var m map[string]*T
	ok := e.run(set, nil, func(s *astate) {
		recv, b = e.k.val(s, s.top(), set.Params[0]), e.k.val(s, s.top(), set.Params[1])
		e.call = func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			// the bytes taken for 4-byte numbers
			if callee != nil && len(args) == 1 && isBytesT(args[0].typ) && callee.Signature.Results().Len() == 1 {
				if el := sliceOfT(callee.Signature.Results().At(0).Type()); el != nil && isBasic(el, types.Uint32) {
					t := e.k.opaque(s, s.top(), c, callee, args)
					m[callee.Name()] = t[0]
					s.data.(*emState).note["units"] = t[0]
					return t, true, false
				}
			}
			return nil, false, true
		}
		m = map[string]*T{}
	}, nil)
	if !ok {
		return
	}
	k := e.k
	for _, x := range e.exits {
		units := x.s.data.(*emState).note["units"]
		if units == nil || !hasTerm(units, b) {
			l.bad(k, x.s, "trie:units", x.at, w.fname(set)+" does not take the units from the bytes it is given")
			continue
		}
		for _, q := range []struct {
			name, what string
			want       *T
		}{{"ByteArray", "the bytes", b}, {"TotalSize", "the number of bytes", k.lenOf(x.s, b)}, {"Length", "the number of units", k.lenOf(x.s, units)}} {
			f := w.must(w.method("dartsclone", "DoubleArray", q.name), "DoubleArray."+q.name)
			for _, y := range e.resume(x.s, "trie"+q.name, f, []*T{recv}) {
				l.r.count("trie sizes", 1)
				if len(y.res) == 1 && y.res[0] != q.want && k.equal(y.s, y.res[0], q.want) != 1 {
					l.bad(k, y.s, "trie:"+q.name, y.at, fmt.Sprintf("%s returns %s, not %s the trie was given", w.fname(f), shortT(y.res[0]), q.what))
				}
			}
		}
	}
}

// chainItem: a value at off; the returned term is where it ends.
func (k *ai) chain(s *astate, v *T, kind string, buf, off *T) (end *T, ok bool) {
	switch kind {
	case "le2", "le4":
		return k.add(off, k.num(int64(kind[2]-'0'))), k.isNum(s, v, buf, off, kind)
	}
	for v.op == "conv" || v.op == "cast" {
		v = v.args[0]
	}
	if v.op != "rval" || v.s != kind || v.args[0] != buf || k.equal(s, v.args[1], off) != 1 {
		return off, false
	}
	return k.mk(&T{op: "rend", s: kind, typ: types.Typ[types.Int], args: v.args}), true
}

// isEmpty: the string is known to be empty (1) or not to be (-1).
func (k *ai) isEmpty(s *astate, v *T) int {
	if r := k.equal(s, v, k.str("")); r != 0 {
		return r
	}
	return k.equal(s, k.lenOf(s, v), k.num(0))
}

// encodingOf: the kind of strings when the flag says UTF-16 or not.
func (l *layout) encodingOf(e *emitter, s *astate, flag *T) string {
	switch e.k.truth(s, flag) {
	case 1:
		return "str16"
	case -1:
		return "str8"
	}
	return "a string in an unknown encoding"
}

// held: what is found while the counting of bytes is not settled yet is thrown
// away and found again.
func (l *layout) settled(run func(hold func()) bool) bool {
	l.holding = true
	ok := run(func() { l.held, l.counts = nil, map[string]int{} })
	l.holding = false
	for _, f := range l.held {
		l.r.add(f)
	}
	for _, c := range keysOfInt(l.counts) {
		l.r.count(c, l.counts[c])
	}
	l.held, l.counts = nil, nil
	return ok
}

func keysOfInt(m map[string]int) []string {
	x := map[string]bool{}
	for a := range m {
		x[a] = true
	}
	return keysOf(x)
}

func (l *layout) count(what string) {
	if l.holding {
		l.counts[what]++
		return
	}
	l.r.count(what, 1)
}

// lexicon: a lexicon as it is read, and as it is written again.
func (l *layout) lexicon() {
	w := l.w
	ctor := w.must(w.pkgFunc("dictionary", "NewDoubleArrayLexicon"), "NewDoubleArrayLexicon")
	infoT := w.typ("dictionary", "WordInfo")
	x := &lexCheck{layout: l, ctor: ctor, infoT: infoT, e: newEmitter(w, l.wr)}
	e := x.e
	l.follow(e, func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if res, ok, inl := l.trieCalls(e)(s, c, callee, args); ok || !inl {
			return res, ok, inl
		}
		if x.opaqueInfo && callee != nil && w.inModule(callee) && callee.Signature.Results().Len() == 1 && namedOf(callee.Signature.Results().At(0).Type()) == infoT && len(args) > 0 {
			t := e.k.mk(&T{op: "res", s: "the word of", typ: callee.Signature.Results().At(0).Type(), args: []*T{args[len(args)-1]}, in: c})
			return []*T{t}, true, false
		}
		return nil, false, true
	})
	l.r.oblige("the lexicon is read, and written again, as it is laid out")
	ok := l.settled(func(hold func()) bool {
		return e.run(ctor, nil, func(s *astate) {
			k := e.k
			x.opaqueInfo = false
			x.buf = k.val(s, s.top(), w.mustParam(ctor, isBytesT))
			x.off = k.val(s, s.top(), w.mustParam(ctor, isIntT))
			x.flag = k.val(s, s.top(), w.mustParam(ctor, isBoolType))
		}, func() {
			hold()
			for _, y := range e.exits {
				x.exit(y)
			}
		})
	})
	if !ok {
		l.bad(nil, nil, "steps", w.pos(ctor.Pos()), w.fname(ctor)+" and the lexicon's methods have more paths than are followed")
	}
}

func (w *World) mustParam(f *ssa.Function, is func(types.Type) bool) *ssa.Parameter {
	p := paramOf(f, is)
	if p == nil {
		panic(fmt.Sprintf("%s has no parameter of the expected type", w.fname(f)))
	}
	return p
}

type lexCheck struct {
	*layout
	e              *emitter
	ctor           *ssa.Function
	infoT          *types.Named
	buf, off, flag *T
	opaqueInfo     bool

	n, m, words *T // units, bytes of the word-id table, words
	t1, t2, t3  *T // where the word-id table, the parameters and the records' offsets are
	recv        *T
}

func (x *lexCheck) meth(name string) *ssa.Function {
	return x.w.must(x.w.method("dictionary", "DoubleArrayLexicon", name), "DoubleArrayLexicon."+name)
}

func (x *lexCheck) exit(y emExit) {
	k, e := x.e.k, x.e
	who := x.w.fname(x.ctor)
	enc := x.encodingOf(e, y.s, x.flag)
	x.recv = y.res[0]
	num := k.num
	bad := func(s *astate, key, at, msg string) { x.bad(k, s, key, at, msg) }

	// the trie
	tb := y.s.data.(*emState).note["trie"]
	if tb == nil {
		bad(y.s, "trie", y.at, who+" gives the trie no units")
		return
	}
	base, o := k.baseOff(tb)
	ln := k.lenOf(y.s, tb)
	x.n = k.numAt(y.s, ln, x.buf, x.off, "le4")
	if base != x.buf || k.equal(y.s, o, k.add(x.off, num(4))) != 1 || x.n == nil || k.equal(y.s, ln, k.scaled(x.n, 4)) != 1 {
		bad(y.s, "trie", y.at, fmt.Sprintf("%s takes %s for the trie's units, not 4 bytes for each of the number in front of them", who, shortT(tb)))
		return
	}
	x.count("sections read")
	x.t1 = k.add(k.add(x.off, num(4)), k.scaled(x.n, 4))

	// the number of words, behind the word-id table
	size := x.meth("Size")
	x.words = nil
	for _, z := range e.resume(y.s, "size", size, []*T{x.recv}) {
		b, po, kind, _, ok := k.bytesRead(z.s, z.res[0])
		var m *T
		if ok {
			m = k.numAt(z.s, po, x.buf, x.t1, "le4")
		}
		if !ok || b != x.buf || kind != "le4" || m == nil || k.equal(z.s, po, k.add(k.add(x.t1, num(4)), m)) != 1 {
			bad(z.s, "size", z.at, fmt.Sprintf("%s takes %s for the number of words, not the number behind the word-id table", x.w.fname(size), shortT(z.res[0])))
			return
		}
		x.m, x.words = m, z.res[0]
		x.t2 = po
	}
	if x.words == nil {
		bad(y.s, "size", y.at, x.w.fname(size)+" does not return")
		return
	}
	wi := x.words
	if wi.typ != nil && !isBasic(wi.typ, types.Int) {
		if c := k.convert(y.s, wi, wi.typ, types.Typ[types.Int]); c != nil {
			wi = c
		}
	}
	x.t3 = k.add(k.add(x.t2, num(4)), k.scaled(wi, 6))
	x.count("sections read")

	// the parameters
	for i, name := range []string{"GetLeftId", "GetRightId", "GetCost"} {
		f := x.meth(name)
		wid := k.sym("word", f.Params[1].Type())
		want := k.add(k.add(x.t2, num(4+2*int64(i))), k.scaled(x.toInt(y.s, wid), 6))
		for _, z := range e.resume(y.s, name, f, []*T{x.recv, wid}) {
			if !k.isNum(z.s, z.res[0], x.buf, want, "le2") {
				bad(z.s, name, z.at, fmt.Sprintf("%s takes %s, not number %d of the word's 3 parameters", x.w.fname(f), shortT(z.res[0]), i+1))
			}
			x.count("lookups by word id")
		}
	}
	x.lookup(y)
	x.record(y, enc)
	x.convert(y)
}

func (x *lexCheck) toInt(s *astate, t *T) *T {
	if t.typ == nil || isBasic(t.typ, types.Int) {
		return t
	}
	if c := x.e.k.convert(s, t, t.typ, types.Typ[types.Int]); c != nil {
		return c
	}
	return t
}

// lookup: the word ids of what the trie found.
func (x *lexCheck) lookup(y emExit) {
	k, e := x.e.k, x.e
	look := x.meth("Lookup")
	itT := x.w.typ("dictionary", "DoubleArrayLexiconIterator")
	get := x.w.must(x.w.method("dictionary", "DoubleArrayLexiconIterator", "Get"), "DoubleArrayLexiconIterator.Get")
	var args []*T
	for i, p := range look.Params {
		if i == 0 {
			args = append(args, x.recv)
		} else {
			args = append(args, k.sym("q"+p.Name(), p.Type()))
		}
	}
	n := 0
	for _, z := range e.resume(y.s, "lookup", look, args) {
		if namedOf(z.res[0].typ) != itT {
			continue
		}
		for _, g := range e.resume(z.s, "get", get, []*T{z.res[0]}) {
			v := g.res[0]
			if v.op == "const" {
				continue // nothing
			}
			n++
			if v.op != "load" || v.args[0].op != "idx" {
				x.bad(k, g.s, "ids", g.at, fmt.Sprintf("%s takes %s for a word id", x.w.fname(get), shortT(v)))
				continue
			}
			list, i := v.args[0].args[0], v.args[0].args[1]
			ok := list.op == "rval" && list.s == "ints" && list.args[0] == x.buf
			if ok {
				at := k.sub(list.args[1], k.add(x.t1, k.num(4)))
				ok = at.op == "res" && strings.Contains(at.s, "Iterator).Get") && at.c0 == 0
			}
			if !ok {
				x.bad(k, g.s, "ids", g.at, fmt.Sprintf("%s takes the word ids from %s, not from where the trie's value points to in the word-id table", x.w.fname(get), shortT(list)))
			} else if n, isC := i.intVal(); !isC || n != 0 {
				x.bad(k, g.s, "ids0", g.at, fmt.Sprintf("%s does not begin with the first word id of the list", x.w.fname(get)))
			}
			x.count("lookups by trie value")
		}
	}
	if n == 0 {
		x.bad(k, y.s, "ids", y.at, x.w.fname(get)+" finds no word id")
	}
}

// record: a word's record.
func (x *lexCheck) record(y emExit, enc string) {
	k, e := x.e.k, x.e
	f := x.meth("GetWordInfo")
	wid := k.sym("word", f.Params[1].Type())
	who := x.w.fname(f)
	where := func(s *astate, id *T) *T { // where the record of id starts
		return k.add(x.t3, k.scaled(x.toInt(s, id), 4))
	}
	n := 0
	for _, z := range e.resume(y.s, "info", f, []*T{x.recv, wid}) {
		n++
		get := func(name string) *T { return k.getField(z.s, z.res[0], x.infoT, name) }
		surface := get("Surface")
		bad := func(key, msg string) { x.bad(k, z.s, "r:"+key, z.at, who+" "+msg) }
		if surface.op != "rval" || surface.s != enc || surface.args[0] != x.buf || !k.isNum(z.s, surface.args[1], x.buf, where(z.s, wid), "le4") {
			bad("surface", fmt.Sprintf("takes %s for the surface, not the string (%s) at the word's offset", shortT(surface), kindText(enc)))
			continue
		}
		at := surface.args[1]
		ends := func(kind string) *T {
			return k.mk(&T{op: "rend", s: kind, typ: types.Typ[types.Int], args: []*T{x.buf, at}})
		}
		at = ends(enc)
		for _, fl := range []struct{ name, kind, what string }{
			{"HeadwordLength", "slen", "the length of the trie key"},
			{"PosId", "le2", "the part-of-speech id"},
			{"NormalizedForm", enc, "the normalized form"},
			{"DictionaryFormWordId", "le4", "the dictionary-form word id"},
			{"ReadingForm", enc, "the reading form"},
			{"AUnitSplit", "ints", "the A units"},
			{"BUnitSplit", "ints", "the B units"},
			{"WordStructure", "ints", "the word structure"},
		} {
			v := get(fl.name)
			x.count("fields of word records read")
			if fl.kind == enc {
				stored := k.mk(&T{op: "rval", s: enc, typ: surface.typ, args: []*T{x.buf, at}})
				empty := k.isEmpty(z.s, stored)
				switch {
				case v == surface && empty == 1, v == stored && empty == -1:
				case v == stored || v == surface:
					bad(fl.name, fmt.Sprintf("does not take the surface for %s exactly if an empty string is stored", fl.what))
				default:
					bad(fl.name, fmt.Sprintf("takes %s for %s", shortT(v), fl.what))
				}
				at = ends(enc)
				continue
			}
			end, ok := k.chain(z.s, v, fl.kind, x.buf, at)
			if !ok {
				bad(fl.name, fmt.Sprintf("takes %s for %s", shortT(v), fl.what))
				end, _ = k.chain(z.s, k.mk(&T{op: "rval", s: fl.kind, args: []*T{x.buf, at}}), fl.kind, x.buf, at)
			}
			at = end
		}
		// the dictionary form is the surface of another word
		d := get("DictionaryFormWordId")
		df := get("DictionaryForm")
		other := k.rangeOf(z.s, d).lo >= 0 && k.equal(z.s, d, wid) == -1
		own := k.rangeOf(z.s, d).hi < 0 || k.equal(z.s, d, wid) == 1
		switch {
		case df == surface && !own:
			bad("DictionaryForm", "takes the surface for the dictionary form although another word may be named")
		case df == surface:
		case df.op == "rval" && df.s == enc && df.args[0] == x.buf && k.isNum(z.s, df.args[1], x.buf, where(z.s, d), "le4"):
			if !other && !(k.rangeOf(z.s, d).lo >= 0) {
				bad("DictionaryForm", "looks up a dictionary form that may not be there")
			}
		default:
			bad("DictionaryForm", fmt.Sprintf("takes %s for the dictionary form", shortT(df)))
		}
	}
	if n == 0 {
		x.bad(k, y.s, "r:none", y.at, who+" does not return")
	}
}

// region: t is length bytes of the file from from on.
func (x *lexCheck) region(s *astate, t, from, length *T) bool {
	k := x.e.k
	b, o := k.baseOff(t)
	return b == x.buf && k.equal(s, o, from) == 1 && k.equal(s, k.lenOf(s, t), length) == 1
}

// convert: what the converter writes of a lexicon.
func (x *lexCheck) convert(y emExit) {
	k, e := x.e.k, x.e
	num := k.num
	wInt := x.toInt(y.s, x.words)
	mInt := x.toInt(y.s, x.m)
	parts := []struct {
		name, what   string
		n            *T
		from, length *T
	}{
		{"WriteTrieTo", "the trie's units", x.n, k.add(x.off, num(4)), k.scaled(x.n, 4)},
		{"WriteWordIdTableTo", "the word-id table", x.m, k.add(x.t1, num(4)), mInt},
		{"WriteWordParamsTo", "the words' parameters", x.words, k.add(x.t2, num(4)), k.scaled(wInt, 6)},
	}
	for _, p := range parts {
		f := x.meth(p.name)
		who := x.w.fname(f)
		out := k.sym("output", f.Params[1].Type())
		okN := 0
		for _, z := range e.resume(y.s, p.name, f, []*T{x.recv, out}) {
			if len(z.res) != 2 || k.nonNil(z.s, z.res[1]) != -1 {
				continue
			}
			okN++
			x.count("sections written again")
			d := z.s.data.(*emState)
			items := e.arrives(d.ev)[out]
			if m := e.match(z.s, items, []pat{
				{what: "the number in front of " + p.what, kind: "le4", ok: func(s *astate, it emItem) bool {
					return k.lowSame(s, it.val, p.n, 4)
				}},
				{what: p.what, kind: "bytes", ok: func(s *astate, it emItem) bool {
					return x.region(s, it.val, p.from, p.length)
				}},
			}, z.at); m != nil {
				x.miss(e, who, m)
			}
			x.unflushed(e, z, who)
			if len(items) > 0 && k.equal(z.s, z.res[0], k.sub(d.g[out], items[0].pos)) != 1 {
				x.bad(k, z.s, "n:"+who, z.at, fmt.Sprintf("%s returns %s, not the number of bytes it wrote", who, shortT(z.res[0])))
			}
		}
		if okN == 0 {
			x.bad(k, y.s, "none:"+who, y.at, who+" never reports success")
		}
	}
	x.infos(y)
}

// infos: the records, written again.
func (x *lexCheck) infos(y emExit) {
	k, e := x.e.k, x.e
	f := x.meth("WriteWordInfos")
	who := x.w.fname(f)
	var args []*T
	var out, flag *T
	var nums []*T
	for i, p := range f.Params {
		v := x.recv
		if i > 0 {
			v = k.sym("arg"+fmt.Sprint(i), p.Type())
			switch {
			case isWriterType(p.Type()):
				out = v
			case isBoolType(p.Type()):
				flag = v
			case isInteger(p.Type()):
				nums = append(nums, v)
			}
		}
		args = append(args, v)
	}
	if out == nil || flag == nil || len(nums) != 2 {
		x.bad(k, y.s, "infos", x.w.pos(f.Pos()), who+" does not have the parameters that are expected")
		return
	}
	s := y.s.clone(k)
	start := k.add(nums[0], nums[1]) // the records come behind their offsets
	s.data.(*emState).g[out] = start
	x.opaqueInfo = true
	exits := e.resume(s, "infos", f, args)
	x.opaqueInfo = false
	n := 0
	for _, z := range exits {
		if len(z.res) != 3 || k.nonNil(z.s, z.res[2]) != -1 {
			continue
		}
		n++
		d := z.s.data.(*emState)
		all := e.arrives(d.ev)
		offsets := strip(z.res[1])
		for t, its := range all {
			if t != out && t != offsets && len(its) > 0 {
				x.miss(e, who, &emMiss{z.at, fmt.Sprintf("leaves %s in %s and does not write it out", its[0], shortT(t)), z.s})
			}
		}
		x.unflushed(e, z, who)
		if k.rangeOf(z.s, x.words).hi <= 0 && len(all[out]) == 0 && len(all[offsets]) == 0 {
			continue // no words
		}
		// the loop over all words
		counted := func(s *astate, lp *emLoop) bool { return x.wordLoop(s, lp) != nil }
		sl := newSlots()
		var late []func() *emMiss
		var recs emItem
		if m := e.match(z.s, all[out], []pat{{what: "the words' records", kind: "loop", counted: true, list: func(s *astate, lp *emLoop) bool {
			ph := x.wordLoop(s, lp)
			return ph != nil && k.rangeOf(s, k.sub(x.words, s.top().envOf(ph))).hi <= 0
		}, body: func(s *astate, lp *emLoop) []pat {
			return x.recordPats(e, sl, s, lp, recordSpec{root: func(k *ai, s *astate, lp *emLoop) func(*T) bool {
				ph := x.wordLoop(s, lp)
				return func(t *T) bool {
					return t.op == "res" && t.s == "the word of" && ph != nil && t.args[0] == s.top().envOf(ph)
				}
			}, enc: func(s *astate, it emItem) bool { return it.kind == x.encodingOf(e, s, flag) }}, &late)
		}}}, z.at); m != nil {
			x.miss(e, who, m)
			continue
		}
		for _, fn := range late {
			if m := fn(); m != nil {
				x.miss(e, who, m)
			}
		}
		recs = all[out][0]
		if m := e.match(z.s, all[offsets], []pat{{what: "the offsets of the records", kind: "loop", counted: true, list: counted, body: func(s *astate, lp *emLoop) []pat {
			return []pat{{what: "the offset of the word's record", kind: "le4", ok: func(s *astate, it emItem) bool {
				for j, b := range recs.states {
					if b.s == s && lp == recs.lp && len(recs.bodies[j]) > 0 {
						return k.lowSame(s, it.val, recs.bodies[j][0].pos, 4)
					}
				}
				return false
			}}}
		}}}, z.at); m != nil {
			x.miss(e, who, m)
			continue
		}
		x.checkPublic(sl, who, z.at, true)
		x.count("sections written again")
		if k.equal(z.s, z.res[0], k.sub(d.g[out], start)) != 1 {
			x.bad(k, z.s, "n:"+who, z.at, fmt.Sprintf("%s returns %s, not the number of bytes it wrote", who, shortT(z.res[0])))
		}
	}
	if n == 0 {
		x.bad(k, y.s, "none:"+who, y.at, who+" never reports success")
	}
}

func (f *aframe) envOf(v ssa.Value) *T { return f.env[v] }

// wordLoop: the loop's counter, if it goes through the words' ids one by one
// from 0 on.
func (x *lexCheck) wordLoop(s *astate, lp *emLoop) *ssa.Phi {
	h := lp.l.h
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(ph.Type()) {
			continue
		}
		good := true
		for i, p := range h.Preds {
			e := ph.Edges[i]
			if h.Dominates(p) { // from the round before
				b, c := linear(e)
				good = good && b == ssa.Value(ph) && c == 1
			} else {
				c, isC := constInt(e)
				good = good && isC && c == 0
			}
		}
		if good {
			return ph
		}
	}
	return nil
}
