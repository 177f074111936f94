package main

// C08: dictionary writers and reader agree on the file layout.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "abstract interpretation recording what is written and read, in order, with loops and byte counts by induction; compared with the layout of the format; bit-level comparison of numbers and length prefixes", checkLayout)
}

type layout struct {
	w  *World
	r  *Report
	wr map[*ssa.Function]string // functions that write one value
	rd map[*ssa.Function]string // functions that read one value
	// why a function that looks like one does not do it
	why  []string
	rule string

	holding bool
	held    []Finding
	counts  map[string]int
}

func (l *layout) bad(k *ai, s *astate, key, at, msg string) {
	f := Finding{Key: key, Rule: l.rule, Pos: at, Msg: msg}
	if s != nil && k != nil {
		f.Path = k.trail(s)
	}
	if l.holding {
		l.held = append(l.held, f)
		return
	}
	l.r.add(f)
}

func checkLayout(w *World, r *Report) {
	r.Explanation = "Every function that writes a part of a dictionary is interpreted on all paths and the numbers, strings, lists, blocks and jumps it sends to its outputs are recorded in order, loops included, together with the number of bytes written so far (by induction over the loops). The functions that read a dictionary are interpreted the same way; where each value is read from is a term. Both sides are compared with the layout of the format, value by value."
	l := &layout{w: w, r: r, rule: "file layout"}
	l.classify()
	sl := l.builderLexicon()
	l.trie()
	l.lexicon()
	l.grammar()
	l.builderGrammar("WriteGrammar")
	l.builderGrammar("WriteGrammarUser")
	l.newBuilder(sl)
	l.header()
	l.partsOfSpeech()
	l.openFile()
	l.converter()
	l.builders("dicbuilder", false)
	l.builders("userdicbuilder", true)
}

// ---- single values ------------------------------------------------------------

func isStrT(t types.Type) bool { return isBasic(t, types.String) }
func isInt32s(t types.Type) bool {
	e := sliceOfT(t)
	return e != nil && isBasic(e, types.Int32)
}
func isBytesT(t types.Type) bool {
	e := sliceOfT(t)
	return e != nil && isBasic(e, types.Uint8)
}

// unconv strips conversions that keep the low n bytes.
func unconv(t *T, n int) *T {
	for t.op == "conv" && len(t.args) == 1 && t.args[0].typ != nil && isInteger(t.args[0].typ) && intSize(t.typ) >= n && intSize(t.args[0].typ) >= n {
		t = t.args[0]
	}
	return t
}

// lowSame: the low n bytes of x and y are the same.
func (k *ai) lowSame(s *astate, x, y *T, n int) bool {
	if unconv(x, n) == unconv(y, n) || k.equal(s, x, y) == 1 {
		return true
	}
	a, b := k.bits(s, x), k.bits(s, y)
	for i := 0; i < 8*n; i++ {
		if a[i].kind == bitUnknown || a[i] != b[i] {
			return false
		}
	}
	return true
}

// isElem: x is the current element of the list the loop goes through, in its
// low n bytes.
func isElem(k *ai, s *astate, x *T, lp *emLoop, n int) bool {
	x = unconv(x, n)
	if x.op != "load" || x.args[0].op != "idx" || lp.l.list == nil {
		return false
	}
	a := x.args[0]
	return a.args[0] == lp.l.list && k.equal(s, a.args[1], k.index(lp.l)) == 1
}

func (l *layout) classify() {
	l.wr = map[*ssa.Function]string{}
	l.rd = map[*ssa.Function]string{}
	var ws, rs []*ssa.Function
	for _, f := range l.w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != l.w.rel("dictionary") || f.Signature.Recv() != nil || f.Parent() != nil || len(f.Params) != 2 || len(f.Blocks) == 0 {
			continue
		}
		p0, p1 := f.Params[0].Type(), f.Params[1].Type()
		res := f.Signature.Results()
		if isWriterType(p0) && res.Len() == 1 && isErrorType(res.At(0).Type()) && (isInteger(p1) || isStrT(p1) || isInt32s(p1)) {
			ws = append(ws, f)
		}
		if isBytesT(p0) && isBasic(p1, types.Int) && res.Len() == 2 && isBasic(res.At(0).Type(), types.Int) {
			rs = append(rs, f)
		}
	}
	for pass := 0; pass < 3; pass++ {
		l.why = nil
		for _, f := range ws {
			if l.wr[f] == "" {
				l.writerKind(f)
			}
		}
		for _, f := range rs {
			if l.rd[f] == "" {
				l.readerKind(f)
			}
		}
	}
	for f, kd := range l.wr {
		l.r.oblige(fmt.Sprintf("%s writes %s", l.w.fname(f), kindText(kd)))
		l.r.count("functions that write one value", 1)
	}
	for f, kd := range l.rd {
		l.r.oblige(fmt.Sprintf("%s reads %s", l.w.fname(f), kindText(kd)))
		l.r.count("functions that read one value", 1)
	}
}

func kindText(k string) string {
	switch k {
	case "slen":
		return "a length"
	case "str8":
		return "a UTF-8 string"
	case "str16":
		return "a UTF-16 string"
	case "string":
		return "a string in the chosen encoding"
	case "ints":
		return "a list of word ids"
	}
	return k
}

// writerKind: what f writes.
func (l *layout) writerKind(f *ssa.Function) {
	e := newEmitter(l.w, l.wr)
	var b, v *T
	t := f.Params[1].Type()
	e.call = l.calls(e)
	ok := e.run(f, nil, func(s *astate) {
		b, v = e.k.val(s, s.top(), f.Params[0]), e.k.val(s, s.top(), f.Params[1])
		if isInteger(t) {
			e.k.bound(s, v, ival{lo: 0, hi: 32767})
		}
	}, nil)
	if !ok {
		l.why = append(l.why, l.w.fname(f)+" has more paths than are followed")
		return
	}
	k := e.k
	kind, n := "", 0
	for _, x := range e.exits {
		if k.nonNil(x.s, x.res[0]) != -1 {
			continue // reports an error
		}
		n++
		items := e.arrives(x.s.data.(*emState).ev)[e.canon(b)]
		kd := ""
		var m *emMiss
		switch {
		case isInteger(t):
			kd, m = "slen", l.slenItems(e, x.s, items, v, x.at)
		case isStrT(t):
			enc := func(it emItem) *T { // the list of code units a loop goes through
				if it.lp != nil {
					return it.lp.l.list
				}
				return it.val
			}
			u16 := func(x *T) bool {
				return x != nil && x.op == "res" && strings.HasPrefix(x.s, "unicode/utf16.Encode") && len(x.args) == 1 && hasTerm(x.args[0], v)
			}
			if len(items) == 2 && items[1].kind == "str" {
				kd = "str8"
				m = e.match(x.s, items, []pat{
					{what: "the length of the string", kind: "slen", ok: func(s *astate, it emItem) bool { return k.equal(s, it.val, k.lenOf(s, v)) == 1 }},
					{what: "the string", kind: "str", ok: func(s *astate, it emItem) bool { return it.val == v }},
				}, x.at)
			} else if len(items) == 2 {
				kd = "str16"
				us := enc(items[1])
				if !u16(us) {
					m = &emMiss{x.at, "does not write the UTF-16 code units of the string", x.s}
					break
				}
				loop := pat{what: "the code units", kind: "loop", list: func(s *astate, lp *emLoop) bool { return k.gone(s, &lp.l, us) },
					body: func(s *astate, lp *emLoop) []pat {
						return []pat{{what: "a code unit", kind: "le2", ok: func(s *astate, it emItem) bool { return isElem(k, s, it.val, lp, 2) }}}
					}}
				if items[1].kind == "all-le2" {
					loop = pat{what: "the code units", kind: "all-le2"}
				}
				m = e.match(x.s, items, []pat{
					{what: "the number of code units", kind: "slen", ok: func(s *astate, it emItem) bool { return k.equal(s, it.val, k.lenOf(s, us)) == 1 }},
					loop,
				}, x.at)
			} else {
				m = &emMiss{x.at, "does not write a length and then the string", x.s}
			}
		default:
			kd = "ints"
			loop := pat{what: "the elements", kind: "loop", list: func(s *astate, lp *emLoop) bool { return lp.l.list == v && k.gone(s, &lp.l, v) },
				body: func(s *astate, lp *emLoop) []pat {
					return []pat{{what: "an element", kind: "le4", ok: func(s *astate, it emItem) bool { return isElem(k, s, it.val, lp, 4) }}}
				}}
			if len(items) == 2 && items[1].kind == "all-le4" {
				loop = pat{what: "the elements", kind: "all-le4", ok: func(s *astate, it emItem) bool { return it.val == v }}
			}
			m = e.match(x.s, items, []pat{
				{what: "the number of elements", kind: "le1", ok: func(s *astate, it emItem) bool { return k.lowSame(s, it.val, k.lenOf(s, v), 1) }},
				loop,
			}, x.at)
		}
		if m != nil {
			l.why = append(l.why, fmt.Sprintf("%s (%s) %s", l.w.fname(f), m.at, m.msg))
			return
		}
		if kind != "" && kind != kd {
			return
		}
		kind = kd
	}
	if n > 0 && kind != "" {
		l.wr[f] = kind
	}
}

func hasTerm(t, x *T) bool {
	found := false
	walkT(t, func(y *T) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

// slenItems: the one or two bytes of a length.
func (l *layout) slenItems(e *emitter, s *astate, items []emItem, v *T, at string) *emMiss {
	k := e.k
	vb := k.bits(s, v)
	for _, it := range items {
		if it.kind != "le1" {
			return &emMiss{at, fmt.Sprintf("writes %s as part of a length", it), s}
		}
	}
	switch len(items) {
	case 1:
		b := k.bits(s, items[0].val)
		if k.rangeOf(s, v).hi > 127 {
			return &emMiss{at, "writes a length that may be more than 127 in one byte", s}
		}
		for i := 0; i < 8; i++ {
			if b[i] != vb[i] && !(b[i].kind == bitFrom && vb[i].kind == bitFrom && b[i].n == vb[i].n && k.equal(s, b[i].src, vb[i].src) == 1) {
				return &emMiss{at, fmt.Sprintf("writes %s as the length %s", shortT(items[0].val), shortT(v)), s}
			}
		}
		return nil
	case 2:
		b0, b1 := k.bits(s, items[0].val), k.bits(s, items[1].val)
		ok := b0[7].kind == bitOne
		for i := 0; i < 7; i++ {
			ok = ok && b0[i] == vb[8+i] && b0[i].kind != bitUnknown
		}
		for i := 0; i < 8; i++ {
			ok = ok && b1[i] == vb[i] && b1[i].kind != bitUnknown
		}
		if !ok {
			return &emMiss{at, fmt.Sprintf("writes %s and %s as the length %s", shortT(items[0].val), shortT(items[1].val), shortT(v)), s}
		}
		return nil
	}
	return &emMiss{at, fmt.Sprintf("writes %d values as a length", len(items)), s}
}

// calls: values read by classified functions are terms of their own.
func (l *layout) calls(e *emitter) func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
	return func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		com := c.Common()
		if _, isB := com.Value.(*ssa.Builtin); isB {
			return nil, false, true
		}
		kind := ""
		var sel *T
		if callee != nil {
			kind = l.rd[callee]
		} else if !com.IsInvoke() {
			kinds := map[string]bool{}
			for _, g := range l.w.callees(c) {
				kinds[l.rd[g]] = true
			}
			ks := keysOf(kinds)
			switch {
			case len(ks) == 1:
				kind = ks[0]
			case len(ks) == 2 && ks[0] == "str16" && ks[1] == "str8":
				kind = "string"
				sel = e.k.val(s, s.top(), com.Value)
			}
		}
		if kind == "" || len(args) != 2 {
			return nil, false, true
		}
		res := e.k.readTerms(kind, args[0], args[1], sel, com.Signature())
		if v := res[1]; e.in != nil && v.args[0] == e.in {
			d := s.data.(*emState)
			d.ev = append(d.ev, emEv{kind: "read " + kind, to: e.in, val: v, at: c, pos: d.g[e.in]})
			d.g[e.in] = e.k.mk(&T{op: "rend", s: kind, typ: types.Typ[types.Int], args: v.args})
		}
		return res, true, false
	}
}

// readTerms: the end offset and the value of a read.
func (k *ai) readTerms(kind string, buf, off, sel *T, sig *types.Signature) []*T {
	base, o := k.baseOff(buf)
	as := []*T{base, k.add(o, off)}
	if sel != nil {
		as = append(as, sel)
	}
	// the end is relative to the slice handed over
	end := k.mk(&T{op: "rend", s: kind, typ: types.Typ[types.Int], args: as})
	val := k.mk(&T{op: "rval", s: kind, typ: sig.Results().At(1).Type(), args: as})
	return []*T{k.sub(end, o), val}
}

// byteAtIs: t is the byte at base[off].
func (k *ai) isByte(s *astate, t, buf, off *T) bool {
	base, o := k.baseOff(buf)
	b, bo, kind, _, ok := k.bytesRead(s, t)
	return ok && kind == "le1" && b == base && k.equal(s, bo, k.add(o, off)) == 1
}

// readerKind: what f reads.
func (l *layout) readerKind(f *ssa.Function) {
	e := newEmitter(l.w, nil)
	e.call = l.calls(e)
	rt := f.Signature.Results().At(1).Type()
	var buf, off *T
	type fill struct {
		key  string
		list *T
		val  *T
		ok   bool
	}
	var fills []fill
	e.elem = func(types.Type) bool { return true }
	ok := e.run(f, nil, func(s *astate) {
		buf, off = e.k.val(s, s.top(), f.Params[0]), e.k.val(s, s.top(), f.Params[1])
	}, nil)
	if !ok {
		return
	}
	k := e.k
	miss := func(at, msg string) {
		l.why = append(l.why, fmt.Sprintf("%s (%s) %s", l.w.fname(f), at, msg))
	}
	_ = fills
	// a list filled by a loop with the n-byte numbers from o on, c of them
	filled := func(x emExit, list, o, c *T, n int64) string {
		if list.op != "mkslice" {
			return fmt.Sprintf("returns %s, not a new list", shortT(list))
		}
		if k.equal(x.s, k.lenOf(x.s, list), c) != 1 {
			return "returns a list that is not as long as the length it read"
		}
		for _, key := range loopKeys(e.loops) {
			lp := e.loops[key]
			if !lp.isList || lp.l.list != list {
				continue
			}
			if !k.gone(x.s, &lp.l, list) && k.rangeOf(x.s, k.sub(c, k.index(lp.l))).hi > 0 {
				return "may stop before the end of the list"
			}
			for _, b := range lp.bodies {
				v := k.elemAt(b.s, list, k.index(lp.l))
				base, ro, kind, _, ok := k.bytesRead(b.s, v)
				want := k.add(o, k.mul(k.index(lp.l), k.num(n), types.Typ[types.Int]))
				if !ok || base != buf || kind != fmt.Sprintf("le%d", n) || k.equal(b.s, ro, want) != 1 {
					return fmt.Sprintf("takes %s for an element", shortT(v))
				}
				if !b.next {
					return "may leave out an element"
				}
			}
			if len(lp.bodies) == 0 {
				return "reads no element"
			}
			return ""
		}
		return "does not fill the list element by element"
	}
	kind := ""
	for _, x := range e.exits {
		end, val := x.res[0], x.res[1]
		kd := ""
		lenOff := k.mk(&T{op: "rend", s: "slen", typ: types.Typ[types.Int], args: []*T{buf, off}})
		var lenVal *T
		walkT(end, func(y *T) bool {
			if y.op == "rval" && y.s == "slen" && y.args[0] == buf && y.args[1] == off {
				lenVal = y
			}
			return true
		})
		switch {
		case isInteger(rt):
			kd = "slen"
			if _, _, nk, _, okN := k.bytesRead(x.s, val); okN && nk != "le1" {
				return // an ordinary number
			}
			d, isC := k.sub(end, off).intVal()
			if !isC || d != 1 && d != 2 {
				if isC {
					return // an ordinary number
				}
				miss(x.at, "does not know where a length ends")
				return
			}
			u8 := elemType(buf.typ)
			b0 := k.load(x.s, k.idx(buf, off, u8), u8)
			b1 := k.load(x.s, k.idx(buf, k.add(off, k.num(1)), u8), u8)
			env, _, okE := k.xknow(x.s, nil, nil)
			if !okE {
				continue
			}
			top := env.val(b0)[7]
			if !top.isConst() || top.one != (d == 2) {
				miss(x.at, fmt.Sprintf("takes a length for one of %d bytes although the first bit of the first does not say so", d))
				return
			}
			v := k.bits(x.s, val)
			w0, w1 := k.bits(x.s, b0), k.bits(x.s, b1)
			good := true
			for i := 0; i < 16; i++ {
				want := vbit{kind: bitZero}
				switch {
				case d == 1 && i < 8:
					want = w0[i]
				case d == 2 && i < 8:
					want = w1[i]
				case d == 2 && i < 15:
					want = w0[i-8]
				}
				if d == 1 && i == 7 && v[i].kind == bitZero {
					continue
				}
				if v[i] != want || v[i].kind == bitUnknown {
					good = false
				}
			}
			if !good {
				miss(x.at, fmt.Sprintf("takes %s for the length", shortT(val)))
				return
			}
		case isStrT(rt):
			if lenVal == nil {
				miss(x.at, "does not read a length first")
				return
			}
			sz := k.sub(end, lenOff)
			if k.equal(x.s, sz, lenVal) == 1 {
				kd = "str8"
				src := val
				if src.op == "conv" || src.op == "cast" {
					src = src.args[0]
				}
				base, so := k.baseOff(src)
				if base != buf || k.equal(x.s, so, lenOff) != 1 || k.equal(x.s, k.lenOf(x.s, src), lenVal) != 1 {
					miss(x.at, fmt.Sprintf("takes %s for the string", shortT(val)))
					return
				}
			} else if k.equal(x.s, sz, k.mul(lenVal, k.num(2), types.Typ[types.Int])) == 1 {
				kd = "str16"
				src := val
				for src.op == "conv" || src.op == "cast" {
					src = src.args[0]
				}
				if src.op != "res" || !strings.HasPrefix(src.s, "unicode/utf16.Decode") {
					miss(x.at, fmt.Sprintf("takes %s for the string", shortT(val)))
					return
				}
				if m := filled(x, src.args[0], lenOff, lenVal, 2); m != "" {
					miss(x.at, m)
					return
				}
			} else {
				miss(x.at, fmt.Sprintf("lets the string end at %s", shortT(end)))
				return
			}
		case isInt32s(rt):
			kd = "ints"
			d := k.sub(end, k.add(off, k.num(1)))
			var c *T
			walkT(d, func(y *T) bool {
				if c == nil && y.typ != nil && isInteger(y.typ) && k.isByte(x.s, y, buf, off) {
					c = y
				}
				return true
			})
			if c == nil || k.equal(x.s, d, k.mul(c, k.num(4), types.Typ[types.Int])) != 1 {
				miss(x.at, fmt.Sprintf("lets the list end at %s", shortT(end)))
				return
			}
			if m := filled(x, val, k.add(off, k.num(1)), c, 4); m != "" {
				miss(x.at, m)
				return
			}
		default:
			return
		}
		if kind != "" && kind != kd {
			return
		}
		kind = kd
	}
	if kind != "" {
		l.rd[f] = kind
	}
}

func loopKeys(m map[string]*emLoop) []string {
	x := map[string]bool{}
	for a := range m {
		x[a] = true
	}
	return keysOf(x)
}
