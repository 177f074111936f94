package main

// C10: word ids and part-of-speech ids keep pointing at their own dictionary.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "abstract interpretation with bit-level value provenance: dictionary and entry bits at every lookup, tag and part-of-speech shift, on every path", checkWordIds)
}

type c10 struct {
	w *World
	r *Report

	set, iter, lex, lexIter, gram, winfo, node *types.Named
}

func (c *c10) recv(f *ssa.Function) *types.Named {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

// fieldsOf: the fields of struct type n whose type satisfies ok.
func fieldsOf(n *types.Named, ok func(types.Type) bool) (out []int) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			out = append(out, i)
		}
	}
	return out
}

func oneField(n *types.Named, what string, ok func(types.Type) bool) int {
	fs := fieldsOf(n, ok)
	if len(fs) != 1 {
		panic(fmt.Sprintf("%s: expected one field (%s), found %d", n, what, len(fs)))
	}
	return fs[0]
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func sliceOfT(t types.Type) types.Type {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

func checkWordIds(w *World, r *Report) {
	r.Explanation = "Every method of the lexicon set and of its iterator is interpreted on all paths: which bits of a word id select the dictionary and which the entry, which bits a word id handed out is made of, and what a part-of-speech id becomes, are read off the terms bit by bit. The builder's references, the part-of-speech numbers of a user dictionary and the order in which a dictionary's lexicon and parts of speech are added are checked the same way."
	c := &c10{w: w, r: r, set: w.typ("dictionary", "LexiconSet"), iter: w.typ("dictionary", "LexiconSetIterator"), lex: w.typ("dictionary", "DoubleArrayLexicon"), lexIter: w.typ("dictionary", "DoubleArrayLexiconIterator"), gram: w.typ("dictionary", "Grammar"), winfo: w.typ("dictionary", "WordInfo"), node: w.typ("", "LatticeNode")}
	c.lookups()
	c.addPair()
	c.references()
	c.userPos()
	c.posList()
	c.loading()
	c.nodes()
	c.builders()
	r.floor("lookups by word id", 4)
	r.floor("words found, tagged", 2)
	r.floor("part-of-speech ids returned", 2)
	r.floor("split references returned", 3)
	r.floor("references built", 4)
	r.floor("user part-of-speech ids built", 1)
	r.floor("dictionaries added", 1)
	r.floor("nodes made from word ids", 2)
}

func (c *c10) bad(k *ai, s *astate, key, at, msg string) {
	f := Finding{Key: key, Rule: "word ids", Pos: at, Msg: msg}
	if s != nil {
		f.Path = k.trail(s)
	}
	c.r.add(f)
}

// narrow strips conversions to types of at least 16 bits: the sum modulo 2^16.
func (k *ai) narrow(t *T) *T {
	p := k.poly(t)
	out := k.num(p.c0)
	for a, n := range p.m {
		if a.op == "conv" && len(a.args) == 1 && a.typ != nil && isInteger(a.typ) && intSize(a.typ) >= 2 {
			a = k.narrow(a.args[0])
		}
		if (a.op == "+" || a.op == "-") && len(a.args) == 2 && a.typ != nil && isInteger(a.typ) && intSize(a.typ) >= 2 {
			if a.op == "+" {
				a = k.add(k.narrow(a.args[0]), k.narrow(a.args[1]))
			} else {
				a = k.sub(k.narrow(a.args[0]), k.narrow(a.args[1]))
			}
		}
		for ; n > 0; n-- {
			out = k.add(out, a)
			if n > 8 {
				return t
			}
		}
		for ; n < 0; n++ {
			out = k.sub(out, a)
			if n < -8 {
				return t
			}
		}
	}
	return out
}

// member: t is an element of a list of dictionaries.
func (c *c10) member(t *T) (list, i *T, ok bool) {
	if t.op != "load" || t.args[0].op != "idx" {
		return
	}
	list, i = t.args[0].args[0], t.args[0].args[1]
	if list.op != "load" {
		return
	}
	a := list.args[0]
	for _, n := range []*types.Named{c.set, c.iter} {
		f := oneField(n, "the lexicons", func(t types.Type) bool { e := sliceOfT(t); return e != nil && namedOf(e) == c.lex })
		if a.op == "fld" && a.s == fieldClass(n, f) {
			return list, i, true
		}
	}
	return
}

// tagged: v is the entry number w with the number i of its dictionary.
func (c *c10) tagged(k *ai, s *astate, v, w, i *T) bool {
	x := s.clone(k)
	// a dictionary's own entry numbers have 28 bits, dictionary numbers 4
	if !k.bound(x, w, ival{lo: 0, hi: 1<<28 - 1}) || !k.bound(x, i, ival{lo: 0, hi: 15}) {
		return true
	}
	vb, wb, ib := k.bits(x, v), k.bits(x, w), k.bits(x, i)
	if n := k.rangeOf(x, i); n.lo == n.hi {
		ib = constBits(n.lo)
	}
	for j := 0; j < 32; j++ {
		want := wb[j]
		if j >= 28 {
			want = ib[j-28]
		}
		if vb[j] != want || want.kind == bitUnknown {
			return false
		}
	}
	return true
}

// part: v is bits lo..hi of p, and nothing else.
func (c *c10) part(k *ai, s *astate, v, p *T, lo, hi int) bool {
	vb, pb := k.bits(s, v), k.bits(nil, p)
	for j := range vb {
		if j <= hi-lo {
			if vb[j] != pb[lo+j] || pb[lo+j].kind != bitFrom {
				return false
			}
		} else if vb[j].kind != bitZero {
			return false
		}
	}
	return true
}

// tag: is it known that the dictionary bits of e are zero (-1), or not (1)?
func (c *c10) tag(k *ai, s *astate, e *T) int {
	eb := k.bits(nil, e)
	test := func(t *T, r ival) int {
		tb := k.bits(nil, t)
		// the top bits only, at any position, or the whole
		top, low := false, false
		for j := 0; j < 64; j++ {
			b := tb[j]
			if b.kind == bitZero {
				continue
			}
			if b.kind != bitFrom || b.src != eb[0].src {
				return 0
			}
			if int(b.n) >= 28 {
				top = true
			} else {
				if int(b.n) != j {
					return 0
				}
				low = true
			}
		}
		all := true
		for n := 28; n < 32; n++ {
			found := false
			for j := range tb {
				if tb[j] == (vbit{bitFrom, eb[0].src, int8(n)}) {
					found = true
				}
			}
			all = all && found
		}
		zero := false
		for _, q := range r.neq {
			zero = zero || q == 0
		}
		switch {
		case top && !low && (r.lo > 0 || r.hi < 0 || zero):
			return 1
		case top && !low && all && r.lo == 0 && r.hi == 0:
			return -1
		case top && low && r.lo >= 1<<28:
			return 1
		case top && low && all && r.lo >= 0 && r.hi < 1<<28:
			return -1
		}
		return 0
	}
	for t, r := range s.bnd {
		if t.op == "lin" || !isInteger(t.typ) {
			continue
		}
		if n := test(t, k.rangeOf(s, t)); n != 0 {
			return n
		}
		_ = r
	}
	return 0
}

// ---- lookups ---------------------------------------------------------------

type lookState struct {
	iters map[*T]*T // iterator over one dictionary -> the dictionary's number
	lists map[*T]*T // and the list it was taken from
	found map[*T]*T // word found -> the dictionary's number
	cur   *T        // number of the dictionary the set's iterator goes through
	wi    *T
	wiI   *T
	pos0  *T
	split map[int]*T // lists of the word info as read
	done  map[int]bool
	loops []listLoop
	elem  []*T
	wrote []bool
	list  []int
	n     int
}

func (d *lookState) clone() *lookState {
	x := *d
	cp := func(m map[*T]*T) map[*T]*T {
		n := map[*T]*T{}
		for a, b := range m {
			n[a] = b
		}
		return n
	}
	x.iters, x.lists, x.found = cp(d.iters), cp(d.lists), cp(d.found)
	x.split, x.done = map[int]*T{}, map[int]bool{}
	for a, b := range d.split {
		x.split[a] = b
	}
	for a, b := range d.done {
		x.done[a] = b
	}
	x.loops = append([]listLoop{}, d.loops...)
	x.elem = append([]*T{}, d.elem...)
	x.wrote = append([]bool{}, d.wrote...)
	x.list = append([]int{}, d.list...)
	return &x
}

func mapKey(m map[*T]*T) string {
	n := 0
	for a, b := range m {
		n ^= a.id * 31
		if b != nil {
			n ^= b.id
		}
	}
	return fmt.Sprint(len(m), ":", n)
}

func fieldNamed(n *types.Named, name string) int {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(fmt.Sprintf("%s has no field %s", n, name))
}

func (c *c10) lookups() {
	w, r := c.w, c.r
	fDalit := oneField(c.iter, "the iterator of one lexicon", func(t types.Type) bool { return namedOf(t) == c.lexIter })
	fPos := fieldNamed(c.winfo, "PosId")
	wst := c.winfo.Underlying().(*types.Struct)
	fSplits := fieldsOf(c.winfo, func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int32) })
	isLex := func(t types.Type) bool { e := sliceOfT(t); return e != nil && namedOf(e) == c.lex }
	fLexIt := oneField(c.iter, "the lexicons", isLex)
	fOff := oneField(c.set, "the part-of-speech offsets", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int32) })
	ist, sst := c.iter.Underlying().(*types.Struct), c.set.Underlying().(*types.Struct)
	// which field of the iterator is the number of its dictionary: the one
	// that has it whenever an iterator is made
	nums := map[int]bool{}
	for _, i := range fieldsOf(c.iter, func(t types.Type) bool { return isInteger(t) }) {
		nums[i] = true
	}
	var made, rest []*ssa.Function
	for _, f := range w.allFns {
		n := c.recv(f)
		if n == nil || !isExportedAPI(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if n == c.set || n == c.iter {
			res := f.Signature.Results()
			if res.Len() == 1 && namedOf(res.At(0).Type()) == c.iter {
				made = append(made, f)
			} else {
				rest = append(rest, f)
			}
		}
	}
	fNum := -1
	for _, f := range append(made, rest...) {
		f := f
		who := w.fname(f)
		if fNum < 0 && c.recv(f) == c.iter {
			for i := range nums {
				if fNum < 0 || i < fNum {
					fNum = i
				}
			}
			if len(nums) != 1 {
				r.add(Finding{Key: "iterator-number", Rule: "word ids", Pos: w.pos(f.Pos()), Msg: fmt.Sprintf("an iterator over the dictionaries must record the number of the dictionary it starts with; %d of its fields always hold it", len(nums))})
				return
			}
		}
		r.oblige("dictionary and entry numbers in " + who)
		var word, pos *ssa.Parameter
		for _, p := range f.Params[1:] {
			if isBasic(p.Type(), types.Int32) {
				word = p
			}
			if isBasic(p.Type(), types.Int16) {
				pos = p
			}
		}
		isIter := c.recv(f) == c.iter
		k := newAI(w, aclient{})
		k.unroll = true
		k.keepFact = func(s *astate, t *T) bool { return true }
		k.cl.clone = func(d any) any { return d.(*lookState).clone() }
		k.cl.key = func(d any) string {
			x := d.(*lookState)
			return fmt.Sprint(mapKey(x.iters), mapKey(x.found), x.cur, x.wi, x.done, len(x.loops), x.wrote, x.n)
		}
		num := func(s *astate) *T {
			return k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), c.iter, fNum), ist.Field(fNum).Type())
		}
		offs := func(s *astate, i *T) *T {
			e := types.Typ[types.Int32]
			return k.cl.load(k, s, k.idx(k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), c.set, fOff), sst.Field(fOff).Type()), i, e), nil)
		}
		// the offsets are the set's own
		k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
			if a.op == "idx" && a.args[0].op == "load" && a.args[0].args[0].op == "fld" && a.args[0].args[0].s == fieldClass(c.set, fOff) {
				return k.mk(&T{op: "load", s: "offsets", typ: types.Typ[types.Int32], args: []*T{a}})
			}
			return nil
		}
		// the part-of-speech id x of the set, as an id of dictionary i (or
		// the other way round)
		shift := func(s *astate, x, i *T, toSet bool) (*T, bool) {
			if k.rangeOf(s, i).hi <= 0 {
				return x, true
			}
			o1, oi := offs(s, k.num(1)), offs(s, i)
			below := k.rangeOf(s, k.sub(x, o1))
			switch {
			case below.hi < 0:
				return x, true
			case below.lo >= 0 && k.rangeOf(s, i).lo >= 1:
				if toSet {
					return k.add(k.sub(x, o1), oi), true
				}
				return k.add(k.sub(x, oi), o1), true
			}
			return nil, false
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*lookState)
			switch c.recv(callee) {
			case c.lexIter:
				res := k.opaque(s, s.top(), ci, callee, args)
				sig := callee.Signature
				if sig.Params().Len() == 0 && sig.Results().Len() >= 1 && isBasic(sig.Results().At(0).Type(), types.Int32) {
					i := d.iters[args[0]]
					if i == nil && isIter && args[0] == k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), c.iter, fDalit), ist.Field(fDalit).Type()) {
						i = d.cur
					}
					if i == nil {
						c.bad(k, s, "source:"+who, w.posOf(ci), who+" takes a word from an iterator whose dictionary is not known")
					} else {
						d.found[res[0]] = i
					}
				}
				return res, true, false
			case c.lex:
				list, i, ok := c.member(args[0])
				if !ok {
					c.bad(k, s, "member:"+who, w.posOf(ci), fmt.Sprintf("%s asks a lexicon that is not one of the loaded ones: %s", who, args[0]))
					return k.opaque(s, s.top(), ci, callee, args), true, false
				}
				sig := callee.Signature
				if sig.Params().Len() == 1 && isBasic(sig.Params().At(0).Type(), types.Int32) {
					if word == nil {
						c.bad(k, s, "noword:"+who, w.posOf(ci), who+" looks up a word but was given no word id")
					} else {
						p := k.val(s, s.stack[0], word)
						r.count("lookups by word id", 1)
						d.n++
						if !c.part(k, s, i, p, 28, 31) {
							c.bad(k, s, "dictionary:"+who, w.posOf(ci), fmt.Sprintf("%s must ask the dictionary numbered by the top four bits of the word id, but asks %s", who, k.bits(s, i).show(32)))
						}
						if !c.part(k, s, args[1], p, 0, 27) {
							c.bad(k, s, "entry:"+who, w.posOf(ci), fmt.Sprintf("%s must ask for the entry numbered by the lower 28 bits of the word id, but asks for %s", who, k.bits(s, args[1]).show(32)))
						}
					}
				}
				for j := 1; j < len(args) && pos != nil; j++ {
					if !isBasic(callee.Params[j].Type(), types.Int16) {
						continue
					}
					r.count("part-of-speech ids looked up", 1)
					want, ok := shift(s, k.val(s, s.stack[0], pos), i, false)
					if !ok || k.narrow(want) != k.narrow(args[j]) {
						c.bad(k, s, "posarg:"+who, w.posOf(ci), fmt.Sprintf("%s asks dictionary %s for part of speech %s, which is not the id the dictionary itself was given", who, i, args[j]))
					}
				}
				res := k.opaque(s, s.top(), ci, callee, args)
				if len(res) == 0 {
					return res, true, false
				}
				switch t := sig.Results().At(0).Type(); {
				case namedOf(t) == c.lexIter:
					if res[0].op != "res" {
						break
					}
					d.iters[res[0]], d.lists[res[0]] = i, list
				case namedOf(t) == c.winfo:
					d.wi, d.wiI = res[0], i
					d.pos0 = k.load(s, k.fld(res[0], c.winfo, fPos), wst.Field(fPos).Type())
					d.split, d.done = map[int]*T{}, map[int]bool{}
					for _, j := range fSplits {
						d.split[j] = k.load(s, k.fld(res[0], c.winfo, j), wst.Field(j).Type())
					}
				case word == nil && isBasic(t, types.Int32) && sig.Params().Len() > 0:
					d.found[res[0]] = i
				default:
					if word != nil {
						d.found[res[0]] = i
					}
				}
				return res, true, false
			}
			return nil, false, true
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			d := s.data.(*lookState)
			if a.op == "fld" && a.s == fieldClass(c.iter, fDalit) && isIter && a.args[0] == k.val(s, s.stack[0], f.Params[0]) {
				if d.cur = d.iters[v]; d.cur == nil {
					c.bad(k, s, "unknown-iterator:"+who, w.posOf(in), who+" goes on with an iterator that does not come from one of the loaded dictionaries")
				} else if d.lists[v] != k.load(s, k.fld(a.args[0], c.iter, fLexIt), ist.Field(fLexIt).Type()) {
					c.bad(k, s, "other-list:"+who, w.posOf(in), who+" goes on with a dictionary that is not in the iterator's own list")
				}
			}
			if a.op != "idx" || d.wi == nil || !isBasic(elemType(a.args[0].typ), types.Int32) {
				return
			}
			// a reference within the word info is changed
			for j := len(d.loops) - 1; j >= 0; j-- {
				if d.elem[j] == nil || a.args[0] != d.split[d.list[j]] || a.args[1] != k.index(d.loops[j]) {
					continue
				}
				d.wrote[j] = true
				r.count("split references rewritten", 1)
				if t := c.tag(k, s, d.elem[j]); t <= 0 && v != d.elem[j] {
					c.bad(k, s, "retag-system:"+who, w.posOf(in), who+" changes a reference although it may be one into the system dictionary")
				} else if t > 0 && !c.tagged(k, s, v, k.low28(d.elem[j]), d.wiI) {
					c.bad(k, s, "retag:"+who, w.posOf(in), fmt.Sprintf("%s must give a reference the number of the dictionary it was read from and keep its entry number, but makes it %s", who, k.bits(s, v).show(32)))
				}
				return
			}
			c.bad(k, s, "stray-write:"+who, w.posOf(in), fmt.Sprintf("%s writes a reference (%s) that is not the one the loop is at", who, a))
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*lookState)
			if isIter {
				d.cur = num(s)
			}
			if d.wi == nil {
				return
			}
			l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && isBasic(t, types.Int32) })
			if !ok || l.list == nil {
				return
			}
			for j := range d.loops {
				if d.loops[j].h == h {
					d.loops, d.list = append(append([]listLoop{}, d.loops[:j]...), d.loops[j+1:]...), append(append([]int{}, d.list[:j]...), d.list[j+1:]...)
					d.elem, d.wrote = append(append([]*T{}, d.elem[:j]...), d.elem[j+1:]...), append(append([]bool{}, d.wrote[:j]...), d.wrote[j+1:]...)
					break
				}
			}
			for _, j := range fSplits {
				if d.split[j] == l.list {
					d.loops, d.list = append(d.loops, l), append(d.list, j)
					d.elem, d.wrote = append(d.elem, k.elemAt(s, l.list, k.index(l))), append(d.wrote, false)
				}
			}
		}
		leave := func(k *ai, s *astate) {
			d := s.data.(*lookState)
			for j, l := range d.loops {
				l := l
				if k.gone(s, &l, d.split[d.list[j]]) {
					d.done[d.list[j]] = true
				}
			}
		}
		k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
			switch in.(type) {
			case *ssa.Return, ssa.CallInstruction:
				if s.data.(*lookState).wi != nil {
					leave(k, s)
				}
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*lookState)
			if isIter && k.equal(s, d.cur, num(s)) != 1 {
				c.bad(k, s, "turn:"+who, w.pos(h.Parent().Pos()), fmt.Sprintf("%s goes through dictionary %s while the iterator says %s", who, d.cur, num(s)))
			}
			for j, l := range d.loops {
				if l.h != h {
					continue
				}
				r.count("rounds over split references", 1)
				if !k.stepsByOne(s, l) {
					c.bad(k, s, "step:"+who, w.pos(h.Parent().Pos()), who+" does not go through all references of a word")
				}
				if !d.wrote[j] && c.tag(k, s, d.elem[j]) >= 0 {
					c.bad(k, s, "untagged:"+who, w.pos(h.Parent().Pos()), who+" may leave a reference into a user dictionary without that dictionary's number")
				}
			}
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			d := s.data.(*lookState)
			if isIter && k.equal(s, d.cur, num(s)) != 1 {
				c.bad(k, s, "turn:"+who, w.posOf(at), fmt.Sprintf("%s leaves the iterator in dictionary %s while it says %s", who, d.cur, num(s)))
			}
			if len(res) == 0 {
				return
			}
			rt := f.Signature.Results().At(0).Type()
			switch {
			case namedOf(rt) == c.iter:
				it := k.load(s, k.fld(res[0], c.iter, fDalit), ist.Field(fDalit).Type())
				i := d.iters[it]
				if i == nil {
					c.bad(k, s, "start:"+who, w.posOf(at), who+" hands out an iterator that does not start in one of the loaded dictionaries")
					return
				}
				if d.lists[it] != k.load(s, k.fld(res[0], c.iter, fLexIt), ist.Field(fLexIt).Type()) {
					c.bad(k, s, "start-list:"+who, w.posOf(at), who+" hands out an iterator over other dictionaries than the one it starts with is from")
				}
				r.count("iterators made", 1)
				for j := range nums {
					if k.equal(s, k.load(s, k.fld(res[0], c.iter, j), ist.Field(j).Type()), i) != 1 {
						delete(nums, j)
					}
				}
			case word != nil && namedOf(rt) == c.winfo:
				if d.wi == nil || res[0] != d.wi {
					c.bad(k, s, "result:"+who, w.posOf(at), who+" does not return the word information it looked up")
					return
				}
				now := k.load(s, k.fld(d.wi, c.winfo, fPos), wst.Field(fPos).Type())
				r.count("part-of-speech ids returned", 1)
				if want, ok := shift(s, d.pos0, d.wiI, true); !ok {
					c.bad(k, s, "shift:"+who, w.posOf(at), fmt.Sprintf("%s returns the part of speech %s without having found out whether it is one of the dictionary's own", who, now))
				} else if k.narrow(want) != k.narrow(now) {
					c.bad(k, s, "shift:"+who, w.posOf(at), fmt.Sprintf("%s must return the part of speech %s, but returns %s", who, k.narrow(want), k.narrow(now)))
				}
				for _, j := range fSplits {
					r.count("split references returned", 1)
					if d.done[j] || k.rangeOf(s, d.wiI).hi <= 0 || k.gone(s, nil, d.split[j]) {
						continue
					}
					c.bad(k, s, "split:"+wst.Field(j).Name()+":"+who, w.posOf(at), fmt.Sprintf("%s may return %s with references that do not carry the number of their dictionary", who, wst.Field(j).Name()))
				}
			case word != nil:
				if d.n == 0 {
					// the dictionary number itself
					p := k.val(s, s.stack[0], word)
					r.count("dictionary numbers", 1)
					if !c.part(k, s, res[0], p, 28, 31) {
						c.bad(k, s, "number:"+who, w.posOf(at), fmt.Sprintf("%s must return the top four bits of the word id, but returns %s", who, k.bits(s, res[0]).show(32)))
					}
				} else if d.found[res[0]] == nil {
					c.bad(k, s, "result:"+who, w.posOf(at), who+" does not return what it looked up")
				}
			case isBasic(rt, types.Int32) && len(d.found) > 0:
				v := res[0]
				if n, ok := v.intVal(); ok && n < 0 {
					return
				}
				r.count("words found, tagged", 1)
				for x, i := range d.found {
					if v == x && k.rangeOf(s, x).hi < 0 || c.tagged(k, s, v, x, i) || v == x && k.rangeOf(s, i).lo == 0 && k.rangeOf(s, i).hi == 0 {
						return
					}
				}
				c.bad(k, s, "tag:"+who, w.posOf(at), fmt.Sprintf("%s must return the entry number with the number of the dictionary it was found in on top, but returns %s", who, k.bits(s, v).show(32)))
			}
		}
		k.run(f, func(s *astate) {
			d := &lookState{iters: map[*T]*T{}, lists: map[*T]*T{}, found: map[*T]*T{}, done: map[int]bool{}}
			s.data = d
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
			if isIter {
				d.cur = num(s)
			}
		})
		if k.gaveUp {
			r.add(Finding{Key: "gaveup:" + who, Rule: "word ids", Pos: w.pos(f.Pos()), Msg: who + " could not be analysed completely"})
		}
		r.count("functions of the lexicon set", 1)
	}
	r.floor("iterators made", 1)
	r.floor("rounds over split references", 1)
}

// low28: the lower bits of a reference.
func (k *ai) low28(e *T) *T {
	return k.op("&", types.Typ[types.Uint32], e, k.num(1<<28-1))
}

// ---- the set's lists ----------------------------------------------------------

// addPair: the lexicons and the part-of-speech offsets of a set grow together.
func (c *c10) addPair() {
	w, r := c.w, c.r
	isLex := func(t types.Type) bool { e := sliceOfT(t); return e != nil && namedOf(e) == c.lex }
	fLex := oneField(c.set, "the lexicons", isLex)
	fOff := oneField(c.set, "the part-of-speech offsets", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int32) })
	st := c.set.Underlying().(*types.Struct)
	fs := map[*ssa.Function]bool{}
	for _, f := range []int{fLex, fOff} {
		for _, in := range w.index().fst[fieldClass(c.set, f)] {
			fs[in.Parent()] = true
		}
	}
	for _, f := range sortedFns(w, asSet(w.entries(fs))) {
		f := f
		who := w.fname(f)
		r.oblige("lexicons and part-of-speech offsets set by " + who)
		k := newAI(w, aclient{})
		k.keepFact = func(s *astate, t *T) bool { return true }
		var p, off *ssa.Parameter
		for _, q := range f.Params {
			if namedOf(q.Type()) == c.lex {
				p = q
			} else if isInteger(q.Type()) {
				off = q
			}
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			r.count("ways to set up or extend a set", 1)
			if c.recv(f) != c.set {
				for _, v := range res {
					if namedOf(v.typ) != c.set {
						continue
					}
					l := k.load(s, k.fld(v, c.set, fLex), st.Field(fLex).Type())
					o := k.load(s, k.fld(v, c.set, fOff), st.Field(fOff).Type())
					if k.equal(s, k.lenOf(s, l), k.lenOf(s, o)) != 1 {
						c.bad(k, s, "lengths:"+who, w.posOf(at), fmt.Sprintf("%s makes a set of %s lexicons with %s part-of-speech offsets", who, k.lenOf(s, l), k.lenOf(s, o)))
					}
					e := types.Typ[types.Int32]
					if n, ok := k.lenOf(s, o).intVal(); !ok || n > 0 {
						if z := k.load(s, k.idx(o, k.num(0), e), e); z != k.num(0) {
							if n, ok := z.intVal(); !ok || n != 0 {
								c.bad(k, s, "first:"+who, w.posOf(at), fmt.Sprintf("%s must give the system dictionary the part-of-speech offset 0, not %s", who, z))
							}
						}
					}
				}
				return
			}
			recv := k.val(s, s.stack[0], f.Params[0])
			for _, x := range []struct {
				f int
				p *ssa.Parameter
			}{{fLex, p}, {fOff, off}} {
				now := k.load(s, k.fld(recv, c.set, x.f), st.Field(x.f).Type())
				name := st.Field(x.f).Name()
				ok := x.p != nil && now.op == "append1" && len(now.args) == 2 && now.args[0].op == "load" && now.args[0].args[0] == k.fld(recv, c.set, x.f) && k.equal(s, now.args[1], k.val(s, s.stack[0], x.p)) == 1
				if !ok {
					c.bad(k, s, "append:"+name+":"+who, w.posOf(at), fmt.Sprintf("%s must add what it is given to the end of %s, but leaves %s", who, name, now))
				}
			}
		}
		k.run(f, func(s *astate) {
			for _, q := range f.Params {
				k.val(s, s.top(), q)
			}
		})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	r.floor("ways to set up or extend a set", 2)
}

func asSet(fs []*ssa.Function) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return m
}

// ---- references the builder makes ----------------------------------------------

type refState struct {
	nums map[*T]*T // number parsed -> its text
	ids  map[*T]bool
	lst  *T
}

func (d *refState) clone() *refState {
	x := &refState{nums: map[*T]*T{}, ids: map[*T]bool{}}
	for a, b := range d.nums {
		x.nums[a] = b
	}
	for a, b := range d.ids {
		x.ids[a] = b
	}
	return x
}

func (c *c10) references() {
	w, r := c.w, c.r
	b := w.typ("dictionary", "DictionaryBuilder")
	bst := b.Underlying().(*types.Struct)
	fSys := oneField(b, "the system lexicon", func(t types.Type) bool { return namedOf(t) == c.lex })
	fEnt := oneField(b, "the entries", func(t types.Type) bool {
		e := sliceOfT(t)
		return e != nil && namedOf(e) != nil
	})
	isRefs := func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int32) }
	only := map[*ssa.Function]bool{}
	var entries []*ssa.Function
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.rel("dictionary") || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		if c.recv(f) == b {
			only[f] = true
		}
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if isRefs(res.At(i).Type()) && c.recv(f) == b {
				entries = append(entries, f)
			}
		}
		// helpers that work on one text or one number
		if c.recv(f) == nil && f.Parent() == nil && len(w.reachable([]*ssa.Function{f})) <= 4 {
			only[f] = true
		}
	}
	for _, f := range entries {
		f := f
		who := w.fname(f)
		r.oblige("references made by " + who)
		k := newAI(w, aclient{})
		k.only = only
		k.keepFact = func(s *astate, t *T) bool { return true }
		k.cl.clone = func(d any) any { return d.(*refState).clone() }
		k.cl.key = func(d any) string { return mapKey(d.(*refState).nums) }
		sys := func(s *astate) *T {
			return k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), b, fSys), bst.Field(fSys).Type())
		}
		// own: the reference x must be to an entry of the dictionary built
		check := func(s *astate, v *T, at string) {
			d := s.data.(*refState)
			r.count("references built", 1)
			vb := k.bits(s, v)
			// where the lower bits come from
			x := s.clone(k)
			var src *T
			for t := range d.nums {
				k.bound(x, t, ival{lo: 0, hi: 1<<28 - 1})
			}
			for t := range d.ids {
				k.bound(x, t, ival{lo: 0, hi: 1<<28 - 1})
			}
			for _, t := range k.indices(s, fEnt, b) {
				k.bound(x, t, ival{lo: 0, hi: 1<<28 - 1})
				d.ids[t] = true
				d.nums[t] = nil
			}
			vb = k.bits(x, v)
			for t := range d.ids {
				if tb := k.bits(x, t); tb[0].kind == bitFrom && vb[0] == tb[0] {
					same := true
					for j := 0; j < 28; j++ {
						same = same && vb[j] == tb[j]
					}
					if same {
						src = t
					}
				}
			}
			if src == nil {
				c.bad(k, s, "number:"+who, at, fmt.Sprintf("%s makes a reference that does not carry the number of an entry: %s", who, vb.show(32)))
				return
			}
			own, what := false, ""
			text, isNum := d.nums[src]
			isOwn := isNum && text == nil
			switch {
			case isOwn:
				own, what = true, "an entry of the dictionary being built"
			case isNum:
				if marked := k.cutU(s, text); marked > 0 {
					own, what = true, "a number marked as the user dictionary's own"
				} else if marked < 0 {
					own, what = false, "a plain number"
				} else {
					c.bad(k, s, "mark:"+who, at, fmt.Sprintf("%s makes a reference from %s without looking at its mark", who, text))
					return
				}
			default:
				own, what = false, "an entry found in the system dictionary"
			}
			want := constBits(0)
			n := k.nonNil(s, sys(s))
			if own {
				if n == 0 {
					c.bad(k, s, "which:"+who, at, fmt.Sprintf("%s makes a reference from %s without knowing whether it builds a user dictionary", who, what))
					return
				}
				if n > 0 {
					want = constBits(1)
				}
			}
			for j := 28; j < 32; j++ {
				if vb[j] != want[j-28] {
					c.bad(k, s, "tag:"+who+":"+what, at, fmt.Sprintf("%s makes the reference %s from %s; its dictionary number must be %s", who, vb.show(32), what, want.show(1)))
					return
				}
			}
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*refState)
			if callee != nil {
				switch callee.String() {
				case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
					res := k.opaque(s, s.top(), ci, callee, args)
					d.nums[res[0]], d.ids[res[0]] = args[0], true
					return res, true, false
				}
				if c.recv(callee) == c.lex && callee.Signature.Params().Len() > 0 && callee.Signature.Results().Len() > 0 && isBasic(callee.Signature.Results().At(0).Type(), types.Int32) {
					res := k.opaque(s, s.top(), ci, callee, args)
					d.ids[res[0]] = true
					if args[0] != sys(s) {
						c.bad(k, s, "lexicon:"+who, w.posOf(ci), who+" looks up a reference in another lexicon than the system's")
					}
					return res, true, false
				}
			}
			return nil, false, true
		}
		isElem := func(t *T) bool { return t != nil && t.typ != nil && isRefs(t.typ) }
		k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
			// what append was given
			cl, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" || !isRefs(cl.Type()) {
				return
			}
			y := k.val(s, s.top(), cl.Call.Args[1])
			n, ok := k.lenOf(s, y).intVal()
			if !ok {
				c.bad(k, s, "append:"+who, w.posOf(in), who+" adds references that cannot be followed")
				return
			}
			for i := int64(0); i < n; i++ {
				check(s, k.elemAt(s, y, k.num(i)), w.posOf(in))
			}
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			if a.op != "idx" || !isElem(a.args[0]) {
				return
			}
			// not the argument array of an append
			if _, ok := in.(*ssa.Store); ok {
				if ia, ok := in.(*ssa.Store).Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.Alloc); ok {
						return
					}
				}
			}
			check(s, v, w.posOf(in))
		}
		k.run(f, func(s *astate) {
			s.data = &refState{nums: map[*T]*T{}, ids: map[*T]bool{}}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
}

// indices: the indices of elements of the builder's entries that are mentioned
// by what the path knows.
func (k *ai) indices(s *astate, f int, n *types.Named) (out []*T) {
	seen := map[*T]bool{}
	look := func(t *T) {
		walkT(t, func(t *T) bool {
			if t.op == "idx" && t.args[0].op == "load" && t.args[0].args[0].op == "fld" && t.args[0].args[0].s == fieldClass(n, f) && !seen[t.args[1]] {
				seen[t.args[1]] = true
				out = append(out, t.args[1])
			}
			return true
		})
	}
	for t := range s.facts {
		look(t)
	}
	for t := range s.bnd {
		look(t)
	}
	for _, fr := range s.stack {
		for _, t := range fr.env {
			look(t)
		}
	}
	return out
}

// cutU: text is what follows the mark "U" of a text known to start with it
// (1), or a whole text (-1).
func (k *ai) cutU(s *astate, text *T) int {
	cut := text.op == "slice"
	if text.op == "res" && (text.in != nil) {
		if ci, ok := text.in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && ci.Common().StaticCallee().String() == "strings.TrimPrefix" {
			cut = true
		}
	}
	if !cut {
		return -1
	}
	whole := text.args[0]
	if text.op == "slice" {
		if n, ok := text.args[1].intVal(); !ok || n != 1 || text.args[2].op != "nil" && text.args[2] != k.lenOf(s, whole) {
			return 0
		}
	}
	for t, v := range s.facts {
		if !v || t.op != "res" || len(t.args) != 2 || t.args[0] != whole {
			continue
		}
		if u, ok := t.args[1].strVal(); ok && u == "U" {
			return 1
		}
	}
	for t := range s.bnd {
		if t.op == "index" && t.args[0] == whole && t.args[1] == k.num(0) && k.rangeOf(s, t).lo == 'U' && k.rangeOf(s, t).hi == 'U' {
			return 1
		}
	}
	return 0
}

// ---- parts of speech -----------------------------------------------------------

// userPos: the parts of speech of a user dictionary are numbered on from the
// system's.
func (c *c10) userPos() {
	w, r := c.w, c.r
	store := w.typ("dictionary", "PosIdStore").Underlying().(*types.Interface)
	for _, f := range w.allFns {
		f := f
		n := c.recv(f)
		if n == nil || f.Synthetic != "" || len(f.Blocks) == 0 || f.Pkg == nil || f.Pkg.Pkg.Path() != w.rel("dictionary") {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(n), store) {
			continue
		}
		base := -1
		for i := 0; i < st.NumFields(); i++ {
			if it, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && types.Identical(it, store) {
				base = i
			}
		}
		sig := f.Signature
		if base < 0 || sig.Results().Len() == 0 || !isBasic(sig.Results().At(0).Type(), types.Int16) || !isExportedAPI(f) {
			continue
		}
		who := w.fname(f)
		r.oblige("part-of-speech ids given out by " + who)
		type pst struct{ theirs, size, own map[*T]bool }
		k := newAI(w, aclient{})
		k.keepFact = func(s *astate, t *T) bool { return true }
		cp := func(m map[*T]bool) map[*T]bool {
			n := map[*T]bool{}
			for t := range m {
				n[t] = true
			}
			return n
		}
		k.cl.clone = func(d any) any { x := d.(*pst); return &pst{cp(x.theirs), cp(x.size), cp(x.own)} }
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*pst)
			if ci.Common().IsInvoke() {
				recv := k.val(s, s.top(), ci.Common().Value)
				rest := k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), n, base), st.Field(base).Type())
				res := k.opaque(s, s.top(), ci, callee, args)
				if recv == rest && len(res) == 1 {
					if isBasic(ci.Common().Signature().Results().At(0).Type(), types.Int16) {
						d.theirs[res[0]] = true
					} else {
						d.size[res[0]] = true
					}
				}
				return res, true, false
			}
			// its own table
			if callee != nil && w.inModule(callee) && c.recv(callee) != nil && c.recv(callee) != n && len(args) > 0 && within(args[0], k.val(s, s.stack[0], f.Params[0])) {
				res := k.opaque(s, s.top(), ci, callee, args)
				if len(res) == 1 && isBasic(callee.Signature.Results().At(0).Type(), types.Int16) {
					d.own[res[0]] = true
				}
				return res, true, false
			}
			return nil, false, true
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			d := s.data.(*pst)
			v := k.narrow(res[0])
			if k.rangeOf(s, v).hi < 0 {
				return
			}
			r.count("part-of-speech ids given out", 1)
			if d.theirs[v] {
				return
			}
			for o := range d.own {
				for z := range d.size {
					if k.narrow(k.add(o, z)) == v {
						// only if the system does not have it
						for t := range d.theirs {
							if k.rangeOf(s, t).hi < 0 {
								r.count("user part-of-speech ids built", 1)
								return
							}
						}
					}
				}
			}
			c.bad(k, s, "userpos:"+who, w.posOf(at), fmt.Sprintf("%s must give a part of speech the system's id, or the number of the system's parts of speech plus its own, but gives %s", who, v))
		}
		k.run(f, func(s *astate) {
			s.data = &pst{map[*T]bool{}, map[*T]bool{}, map[*T]bool{}}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
}

// posList: the parts of speech of a grammar are an append-only list, counted
// and read by index.
func (c *c10) posList() {
	w, r := c.w, c.r
	gst := c.gram.Underlying().(*types.Struct)
	fList := oneField(c.gram, "the parts of speech", func(t types.Type) bool { e := sliceOfT(t); return e != nil && sliceOfT(e) != nil })
	type pst struct {
		l   listLoop
		in  bool
		was *T // the list before the loop
		cur *T // the list at the start of the round
	}
	for _, f := range w.allFns {
		f := f
		if c.recv(f) != c.gram || !isExportedAPI(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		sig := f.Signature
		var kind string
		switch {
		case sig.Params().Len() == 1 && namedOf(sig.Params().At(0).Type()) == c.gram:
			kind = "add"
		case sig.Params().Len() == 0 && sig.Results().Len() == 1 && isBasic(sig.Results().At(0).Type(), types.Int) && f.Name() == "GetPartOfSpeechSize":
			kind = "size"
		case sig.Params().Len() == 1 && isBasic(sig.Params().At(0).Type(), types.Int16) && sig.Results().Len() == 1 && sliceOfT(sig.Results().At(0).Type()) != nil:
			kind = "get"
		default:
			continue
		}
		who := w.fname(f)
		r.oblige("list of parts of speech in " + who)
		r.count("functions on the list of parts of speech", 1)
		k := newAI(w, aclient{})
		k.keepFact = func(s *astate, t *T) bool { return true }
		k.cl.clone = func(d any) any { x := *d.(*pst); return &x }
		list := func(s *astate, p *ssa.Parameter) *T {
			return k.load(s, k.fld(k.val(s, s.stack[0], p), c.gram, fList), gst.Field(fList).Type())
		}
		var was, from *T
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && sliceOfT(t) != nil }); ok && l.list == from {
				s.data = &pst{l: l, in: true, was: was, cur: list(s, f.Params[0])}
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*pst)
			if !d.in || d.l.h != h {
				return
			}
			now := list(s, f.Params[0])
			e := k.elemAt(s, from, k.index(d.l))
			if now.op != "append1" || len(now.args) != 2 || now.args[0] != d.cur || now.args[1] != e && !(now.args[1].op == "load" && now.args[1].args[0] == k.idx(from, k.index(d.l), e.typ)) || !k.stepsByOne(s, d.l) {
				c.bad(k, s, "posround:"+who, w.pos(f.Pos()), who+" must add each part of speech it is given once, in order")
			}
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			d := s.data.(*pst)
			now := list(s, f.Params[0])
			switch kind {
			case "add":
				if d.in && k.gone(s, &d.l, from) || k.gone(s, nil, from) && now == was || now.op == "appendn" && now.args[0] == was && now.args[1] == from {
					return
				}
				c.bad(k, s, "posadd:"+who, w.posOf(at), fmt.Sprintf("%s must add all parts of speech it is given, in order, after its own, but leaves %s", who, now))
			case "size":
				if res[0] != k.lenOf(s, now) {
					c.bad(k, s, "possize:"+who, w.posOf(at), fmt.Sprintf("%s must return the number of parts of speech, but returns %s", who, res[0]))
				}
			case "get":
				e := sig.Results().At(0).Type()
				if res[0] != k.load(s, k.idx(now, k.val(s, s.stack[0], f.Params[1]), e), e) {
					c.bad(k, s, "posget:"+who, w.posOf(at), fmt.Sprintf("%s must return the part of speech with the id it is given, but returns %s", who, res[0]))
				}
			}
		}
		k.run(f, func(s *astate) {
			s.data = &pst{}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
			was = list(s, f.Params[0])
			if kind == "add" {
				from = list(s, f.Params[1])
			}
		})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	r.floor("functions on the list of parts of speech", 3)
}

// ---- loading -------------------------------------------------------------------

type loadState struct {
	size  map[*T]*T // number of parts of speech -> the grammar
	when  map[*T]int
	lex   *T // added
	posOf *T // grammar whose parts of speech the offset counts
	added int
	ext   int
}

// loading: a user dictionary's lexicon is added with the number of parts of
// speech there are before its own, which are added once.
func (c *c10) loading() {
	w, r := c.w, c.r
	var add, ext *ssa.Function
	for _, f := range w.allFns {
		if len(f.Params) < 2 || f.Synthetic != "" {
			continue
		}
		if c.recv(f) == c.set && namedOf(f.Params[1].Type()) == c.lex {
			add = f
		}
		if c.recv(f) == c.gram && namedOf(f.Params[1].Type()) == c.gram {
			ext = f
		}
	}
	w.must(add, "a method adding a lexicon to the set")
	w.must(ext, "a method adding parts of speech to a grammar")
	dict := w.typ("dictionary", "BinaryDictionary")
	dst := dict.Underlying().(*types.Struct)
	fLex, fGram := oneField(dict, "the lexicon", func(t types.Type) bool { return namedOf(t) == c.lex }), oneField(dict, "the grammar", func(t types.Type) bool { return namedOf(t) == c.gram })
	jd := w.typ("", "JapaneseDictionary")
	fJG := oneField(jd, "the grammar", func(t types.Type) bool { return namedOf(t) == c.gram })
	reach := transitively(w, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (ci.Common().StaticCallee() == add || ci.Common().StaticCallee() == ext)
	})
	fs := map[*ssa.Function]bool{}
	for _, ci := range w.index().args[add] {
		fs[ci.Parent()] = true
	}
	for _, f := range sortedFns(w, asSet(w.entries(fs))) {
		f := f
		who := w.fname(f)
		r.oblige("a user dictionary's parts of speech in " + who)
		k := newAI(w, aclient{})
		k.keepFact = func(s *astate, t *T) bool { return true }
		k.cl.clone = func(d any) any {
			x := *d.(*loadState)
			x.size, x.when = map[*T]*T{}, map[*T]int{}
			for a, b := range d.(*loadState).size {
				x.size[a] = b
			}
			for a, b := range d.(*loadState).when {
				x.when[a] = b
			}
			return &x
		}
		k.cl.key = func(d any) string {
			x := d.(*loadState)
			return fmt.Sprint(mapKey(x.size), x.lex, x.added, x.ext)
		}
		dictOf := func(t *T, fld int) *T {
			if t.op == "load" && t.args[0].op == "fld" && t.args[0].s == fieldClass(dict, fld) {
				return t.args[0].args[0]
			}
			return nil
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*loadState)
			switch {
			case callee == add:
				r.count("dictionaries added", 1)
				d.added++
				d.lex = dictOf(args[1], fLex)
				n := k.narrow(args[2])
				g := d.size[n]
				switch {
				case d.lex == nil:
					c.bad(k, s, "whose:"+who, w.posOf(ci), fmt.Sprintf("%s adds a lexicon that is not that of the dictionary it read", who))
				case g == nil:
					c.bad(k, s, "offset:"+who, w.posOf(ci), fmt.Sprintf("%s must add a lexicon with the number of parts of speech loaded before it, not with %s", who, n))
				case d.when[n] != 0 || d.ext > 1:
					c.bad(k, s, "early:"+who, w.posOf(ci), fmt.Sprintf("%s counts a dictionary's own parts of speech among those loaded before it", who))
				}
				d.posOf = g
				return k.opaque(s, s.top(), ci, callee, args), true, false
			case callee == ext:
				d.ext++
				if g := dictOf(args[1], fGram); g == nil || d.lex != nil && g != d.lex {
					c.bad(k, s, "extwhose:"+who, w.posOf(ci), fmt.Sprintf("%s adds the parts of speech of another dictionary than the one it added", who))
				}
				if args[0] != k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), jd, fJG), jd.Underlying().(*types.Struct).Field(fJG).Type()) {
					c.bad(k, s, "extto:"+who, w.posOf(ci), who+" adds parts of speech to another grammar than the loaded one")
				}
				return k.opaque(s, s.top(), ci, callee, args), true, false
			case c.recv(callee) == c.gram && callee.Name() == "GetPartOfSpeechSize":
				res := k.opaque(s, s.top(), ci, callee, args)
				d.size[res[0]], d.when[res[0]] = args[0], d.ext
				if args[0] != k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), jd, fJG), jd.Underlying().(*types.Struct).Field(fJG).Type()) {
					delete(d.size, res[0])
				}
				return res, true, false
			}
			if callee != nil && reach[callee] {
				return nil, false, true
			}
			return nil, false, false
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			d := s.data.(*loadState)
			if how != aReturn || d.added == 0 {
				return
			}
			if d.added != 1 || d.ext > 1 {
				c.bad(k, s, "times:"+who, w.posOf(at), fmt.Sprintf("%s adds %d lexicons and %d lists of parts of speech", who, d.added, d.ext))
			}
			if d.ext == 0 && d.lex != nil && k.nonNil(s, k.load(s, k.fld(d.lex, dict, fGram), dst.Field(fGram).Type())) != -1 {
				c.bad(k, s, "noext:"+who, w.posOf(at), who+" may add a dictionary without its parts of speech")
			}
		}
		k.run(f, func(s *astate) {
			s.data = &loadState{size: map[*T]*T{}, when: map[*T]int{}}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
}

// ---- nodes ---------------------------------------------------------------------

// nodes: a node keeps the word id it was made with, and looks itself up by it.
func (c *c10) nodes() {
	w, r := c.w, c.r
	nst := c.node.Underlying().(*types.Struct)
	fWord := fieldNamed(c.node, "wordId")
	fLex := oneField(c.node, "the lexicon set", func(t types.Type) bool { return namedOf(t) == c.set })
	cls := fieldClass(c.node, fWord)
	mk := w.must(w.pkgFunc("", "NewLatticeNode"), "NewLatticeNode")
	var wp *ssa.Parameter
	for _, p := range mk.Params {
		if isBasic(p.Type(), types.Int32) {
			wp = p
		}
	}
	if wp == nil {
		panic("NewLatticeNode takes no word id")
	}
	// the field is only set where a node is made
	for _, st := range w.index().fst[cls] {
		f := st.Parent()
		if _, fresh := addrBase(st.Addr).(*ssa.Alloc); !fresh {
			r.add(Finding{Key: "setid:" + w.fname(f), Rule: "word ids", Pos: w.posOf(st), Msg: w.fname(f) + " changes the word id of a node"})
		}
	}
	{
		who := w.fname(mk)
		r.oblige("word id of the nodes made by " + who)
		k := newAI(w, aclient{})
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			if v := k.load(s, k.fld(res[0], c.node, fWord), nst.Field(fWord).Type()); v != k.val(s, s.stack[0], wp) {
				c.bad(k, s, "madewith:"+who, w.posOf(at), fmt.Sprintf("%s must keep the word id it is given, but keeps %s", who, v))
			}
		}
		k.run(mk, func(s *astate) {
			for _, p := range mk.Params {
				k.val(s, s.top(), p)
			}
		})
	}
	for _, f := range w.allFns {
		f := f
		if c.recv(f) != c.node || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && c.recv(ci.Common().StaticCallee()) == c.set {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		who := w.fname(f)
		r.oblige("word id used by " + who)
		k := newAI(w, aclient{})
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if c.recv(callee) != c.set {
				return nil, false, false
			}
			recv := k.val(s, s.stack[0], f.Params[0])
			for i, p := range callee.Params {
				if i > 0 && isBasic(p.Type(), types.Int32) {
					r.count("lookups of a node's word", 1)
					if args[i] != k.load(s, k.fld(recv, c.node, fWord), nst.Field(fWord).Type()) {
						c.bad(k, s, "nodeword:"+who, w.posOf(ci), fmt.Sprintf("%s looks up %s instead of the node's word id", who, args[i]))
					}
					if args[0] != k.load(s, k.fld(recv, c.node, fLex), nst.Field(fLex).Type()) {
						c.bad(k, s, "nodeset:"+who, w.posOf(ci), fmt.Sprintf("%s looks the word up in another lexicon set than the node's", who))
					}
				}
			}
			return nil, false, false
		}
		k.run(f, func(s *astate) { k.val(s, s.top(), f.Params[0]) })
	}
	r.floor("lookups of a node's word", 2)
	// where word ids of nodes come from
	for _, ci := range w.index().args[mk] {
		a := argFor(ci, wp)
		who := w.fname(ci.Parent())
		r.oblige("word id of the node made at " + w.posOf(ci))
		r.count("nodes made from word ids", 1)
		c.idSource(a, map[ssa.Value]bool{}, func(v ssa.Value, why string) {
			r.add(Finding{Key: "source:" + who, Rule: "word ids", Pos: w.posOf(ci), Msg: fmt.Sprintf("the word id of a node made by %s must be one found in the lexicon set or one of a word's references, but it can be %s", who, why)})
		})
	}
}

// idSource: v is a word id handed out by the set's iterator, or an element of
// a word's references; bad is told about anything else.
func (c *c10) idSource(v ssa.Value, seen map[ssa.Value]bool, bad func(ssa.Value, string)) {
	if seen[v] {
		return
	}
	seen[v] = true
	w := c.w
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.idSource(e, seen, bad)
		}
		return
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok && x.Index == 0 && c.recv(cl.Call.StaticCallee()) == c.iter {
			return
		}
		if cl, ok := x.Tuple.(*ssa.Call); ok && cl.Call.StaticCallee() != nil && w.inModule(cl.Call.StaticCallee()) && c.recv(cl.Call.StaticCallee()) != c.set {
			for _, b := range cl.Call.StaticCallee().Blocks {
				if rt, ok := lastInstr(b).(*ssa.Return); ok {
					c.idSource(rt.Results[x.Index], seen, bad)
				}
			}
			return
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && w.inModule(g) && c.recv(g) != c.set && c.recv(g) != c.lex {
			for _, b := range g.Blocks {
				if rt, ok := lastInstr(b).(*ssa.Return); ok {
					c.idSource(rt.Results[0], seen, bad)
				}
			}
			return
		}
	case *ssa.Parameter:
		cs := w.index().args[x.Parent()]
		if len(cs) > 0 && !isExportedAPI(x.Parent()) {
			for _, ci := range cs {
				c.idSource(argFor(ci, x), seen, bad)
			}
			return
		}
	case *ssa.UnOp:
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			c.refSource(ia.X, seen, bad)
			return
		}
	}
	bad(v, v.String())
}

// refSource: v is a word's list of references.
func (c *c10) refSource(v ssa.Value, seen map[ssa.Value]bool, bad func(ssa.Value, string)) {
	if seen[v] {
		return
	}
	seen[v] = true
	w := c.w
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			c.refSource(e, seen, bad)
		}
		return
	case *ssa.Const:
		if x.Value == nil {
			return
		}
	case *ssa.Slice:
		c.refSource(x.X, seen, bad)
		return
	case *ssa.Parameter:
		cs := w.index().args[x.Parent()]
		if len(cs) > 0 && !isExportedAPI(x.Parent()) {
			for _, ci := range cs {
				c.refSource(argFor(ci, x), seen, bad)
			}
			return
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && w.inModule(g) {
			for _, b := range g.Blocks {
				if rt, ok := lastInstr(b).(*ssa.Return); ok {
					c.refSource(rt.Results[0], seen, bad)
				}
			}
			return
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			for _, j := range fieldsOf(c.winfo, func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int32) }) {
				if fieldClass(a.X.Type(), a.Field) == fieldClass(c.winfo, j) {
					return
				}
			}
		case *ssa.Alloc:
			for _, in := range refs(a) {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
					c.refSource(st.Val, seen, bad)
				}
			}
			return
		}
	}
	bad(v, v.String())
}

// ---- the commands ----------------------------------------------------------------

// builders: a user dictionary is built against the parts of speech and the
// words of one and the same system dictionary, a system dictionary against none.
func (c *c10) builders() {
	w, r := c.w, c.r
	nb := w.must(w.pkgFunc("dictionary", "NewDictionaryBuilder"), "NewDictionaryBuilder")
	nu := w.must(w.pkgFunc("dictionary", "NewPosTableUser"), "NewPosTableUser")
	ns := w.must(w.pkgFunc("dictionary", "NewPosTable"), "NewPosTable")
	dict := w.typ("dictionary", "BinaryDictionary")
	fLex, fGram := oneField(dict, "the lexicon", func(t types.Type) bool { return namedOf(t) == c.lex }), oneField(dict, "the grammar", func(t types.Type) bool { return namedOf(t) == c.gram })
	fs := map[*ssa.Function]bool{}
	for _, g := range []*ssa.Function{nb, nu, ns} {
		for _, ci := range w.index().args[g] {
			if p := ci.Parent(); p.Pkg != nil && p.Pkg.Pkg.Name() == "main" {
				fs[p] = true
			}
		}
	}
	reach := transitively(w, func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && (ci.Common().StaticCallee() == nb || ci.Common().StaticCallee() == nu || ci.Common().StaticCallee() == ns)
	})
	type bst struct {
		lex, gram *T
		plain     bool
	}
	for _, f := range sortedFns(w, asSet(w.entries(fs))) {
		f := f
		who := w.fname(f)
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
			continue
		}
		r.oblige("what " + who + " builds against")
		k := newAI(w, aclient{})
		k.cl.clone = func(d any) any { x := *d.(*bst); return &x }
		k.cl.key = func(d any) string { return fmt.Sprint(*d.(*bst)) }
		of := func(t *T, fld int) *T {
			for t.op == "iface" {
				t = t.args[0]
			}
			if t.op == "load" && t.args[0].op == "fld" && t.args[0].s == fieldClass(dict, fld) {
				return t.args[0].args[0]
			}
			return t
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*bst)
			switch callee {
			case nb:
				r.count("builders made by commands", 1)
				for i, p := range nb.Params {
					if namedOf(p.Type()) == c.lex {
						d.lex = of(args[i], fLex)
					}
				}
			case nu:
				d.gram = of(args[0], fGram)
			case ns:
				d.plain = true
			default:
				if callee != nil && reach[callee] {
					return nil, false, true
				}
				return nil, false, false
			}
			if d.lex != nil && (d.gram != nil || d.plain) {
				switch {
				case d.plain && d.lex.op != "nil":
					c.bad(k, s, "against:"+who, w.posOf(ci), who+" builds a dictionary that refers to another one's words without numbering its parts of speech after that one's")
				case d.gram != nil && d.lex != d.gram:
					c.bad(k, s, "against:"+who, w.posOf(ci), who+" builds a dictionary with the words of one dictionary and the parts of speech of another")
				}
				r.count("pairs of builder and parts of speech", 1)
			}
			return k.opaque(s, s.top(), ci, callee, args), true, false
		}
		k.run(f, func(s *astate) { s.data = &bst{} })
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	r.floor("pairs of builder and parts of speech", 2)
}
