package main

// What the elements of a list are, after stores, copies and appends: a log of
// the changes along a path, walked back from the element asked for. Loops are
// summarised by what one round does at a counter that goes by a constant.
// Positions are compared by elimination in linear inequalities (the domain of
// polyhedra); what cannot be decided is unknown.

import (
	"fmt"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type aevent struct {
	kind string // store copy append loop havoc
	root *T     // the list changed (copy: what its destination is a part of)
	at   *T     // store, copy: first place changed, counted in root
	n    *T     // copy: length of the destination
	val  *T     // store: what; copy: the source list
	in   ssa.Instruction
	base *T // append
	loop *arrLoop
}

// An arrLoop is one entry of a loop, with all its rounds.
type arrLoop struct {
	h     *ssa.BasicBlock
	id    int
	at    int // the place of its event in the log
	init  map[*T]*T
	bld   map[*T]*T // builder contents at the head -> builder
	order []*T      // the values that may change
	backs []arrBack
}

type arrBack struct {
	s    *astate
	next map[*T]*T
}

type arrState struct {
	log  []*aevent
	phi  map[*T]*arrLoop
	bld  map[*T]*T
	user any
}

func (d *arrState) clone() *arrState {
	n := &arrState{log: d.log[:len(d.log):len(d.log)], phi: map[*T]*arrLoop{}, bld: map[*T]*T{}, user: d.user}
	for a, b := range d.phi {
		n.phi[a] = b
	}
	for a, b := range d.bld {
		n.bld[a] = b
	}
	return n
}

type arrTrack struct {
	k     *ai
	loops int
	elem  func(t types.Type) bool // the lists whose elements are followed
	// userClone clones the client's own part
	userClone func(any) any
	userKey   func(any) string
	call      func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool)
	store     func(s *astate, a, v *T, in ssa.Instruction)
	built     map[*arrLoop]map[*T]*accRec
	pairs     map[*arrLoop][]*T // what stays the same from round to round (each 0)
	pairing   map[*arrLoop]bool
	byId      map[int]*arrLoop
}

func (x *arrTrack) data(s *astate) *arrState { return s.data.(*arrState) }

func newArrTrack(k *ai, elem func(types.Type) bool) *arrTrack {
	x := &arrTrack{k: k, elem: elem, built: map[*arrLoop]map[*T]*accRec{}, pairs: map[*arrLoop][]*T{}, pairing: map[*arrLoop]bool{}, byId: map[int]*arrLoop{}}
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	k.cl.clone = func(d any) any {
		n := d.(*arrState).clone()
		if x.userClone != nil {
			n.user = x.userClone(n.user)
		}
		return n
	}
	k.cl.key = func(d any) string {
		y := d.(*arrState)
		b := 0
		for _, e := range y.log {
			b = b*31 + len(e.kind)
			if e.loop != nil {
				b = b*31 + e.loop.id
			}
			for _, t := range []*T{e.root, e.at, e.val, e.base} {
				if t != nil {
					b = b*31 + t.id
				}
			}
		}
		bs := 0
		for p, v := range y.bld {
			bs += p.id*7919 + v.id*104729
		}
		u := ""
		if x.userKey != nil {
			u = x.userKey(y.user)
		}
		return fmt.Sprint(len(y.log), b, bs, u)
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) { x.head(s, h) }
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) { x.back(s, h) }
	k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
		if a.op != "idx" || !x.tracks(a.args[0]) {
			return nil
		}
		return x.elemNow(s, a.args[0], a.args[1])
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		if a.op == "idx" && x.tracks(a.args[0]) {
			x.add(s, &aevent{kind: "store", root: a.args[0], at: a.args[1], val: v, in: in})
		}
		if x.store != nil {
			x.store(s, a, v, in)
		}
	}
	k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
		if al, ok := in.(*ssa.Alloc); ok && isTextBuilder(al.Type()) {
			f := s.top()
			x.data(s).bld[k.mk(&T{op: "alloc", s: f.at(al), typ: al.Type(), v: al, fid: f.fid})] = k.str("")
		}
	}
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				if args[0].typ != nil && x.elemOK(args[0].typ) {
					root, lo := splitSlice(k, args[0])
					x.add(s, &aevent{kind: "copy", root: root, at: lo, n: k.lenOf(s, args[0]), val: args[1], in: c})
					// what copy gives is the smaller of the lengths
					cx := x.ctx(s)
					n, m := k.lenOf(s, args[0]), k.lenOf(s, args[1])
					res := n
					if cx.ge0(k.sub(n, m)) {
						res = m
					} else if !cx.ge0(k.sub(m, n)) {
						return nil, false, true
					}
					et := elemType(args[0].typ)
					k.kill(s, s.top(), k.idx(args[0], k.sym("any@"+s.top().here(), types.Typ[types.Int]), et), "[]"+tname(et))
					return []*T{res}, true, false
				}
			case "append":
				if x.elemOK(c.Value().Type()) {
					x.add(s, &aevent{kind: "append", base: args[0], val: args[1], in: c})
				}
			}
			return nil, false, true
		}
		if x.call != nil {
			if res, handled, inline := x.call(s, c, callee, args); handled || !inline {
				return res, handled, inline
			}
		}
		if res, ok := x.text(s, c, callee, args); ok {
			return res, true, false
		}
		if callee != nil && !k.w.inModule(callee) {
			if pure, reads := foreignPure(callee); !pure && !reads {
				for _, a := range args {
					if a.typ != nil && x.elemOK(a.typ) {
						root, _ := splitSlice(k, a)
						x.add(s, &aevent{kind: "havoc", root: root})
					}
				}
			}
		}
		return nil, false, true
	}
	return x
}

func (x *arrTrack) elemOK(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && x.elem(sl.Elem())
}

func (x *arrTrack) tracks(root *T) bool { return root.typ != nil && x.elemOK(root.typ) }

func (x *arrTrack) add(s *astate, e *aevent) {
	d := x.data(s)
	d.log = append(d.log[:len(d.log):len(d.log)], e)
}

func splitSlice(k *ai, t *T) (root, lo *T) {
	lo = k.num(0)
	for t.op == "slice" {
		if l := t.args[1]; l.op != "nil" {
			lo = k.add(lo, l)
		}
		t = t.args[0]
	}
	return t, lo
}

// elemNow stands for an element as it is at this point of the path.
func (x *arrTrack) elemNow(s *astate, root, i *T) *T {
	e := elemType(root.typ)
	n := len(x.data(s).log)
	return x.k.mk(&T{op: "at", s: fmt.Sprint(n), typ: e, args: []*T{root, i}, c0: int64(n)})
}

// orig: the element the list had when it was first seen.
func (x *arrTrack) orig(root, i *T) *T {
	return x.k.mk(&T{op: "orig", typ: elemType(root.typ), args: []*T{root, i}})
}

// ---- strings put together ----------------------------------------------------

func (x *arrTrack) text(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
	k := x.k
	if callee == nil || callee.Pkg == nil {
		return nil, false
	}
	d := x.data(s)
	switch callee.Pkg.Pkg.Path() {
	case "strings", "bytes":
	default:
		return nil, false
	}
	if callee.Signature.Recv() == nil {
		if callee.Name() == "Join" && callee.Pkg.Pkg.Path() == "strings" {
			if sep, ok := args[1].strVal(); ok && sep == "" {
				n := len(d.log)
				return []*T{k.mk(&T{op: "joined", s: fmt.Sprint(n), typ: types.Typ[types.String], args: []*T{args[0]}, c0: int64(n)})}, true
			}
		}
		return nil, false
	}
	if !isTextBuilder(callee.Signature.Recv().Type()) {
		return nil, false
	}
	b := args[0]
	cur := d.bld[b]
	if cur == nil {
		if !isAllocT(root(b)) {
			return nil, false
		}
		cur = k.str("")
	}
	put := func(p *T) {
		d.bld[b] = k.op("cat", types.Typ[types.String], cur, p)
	}
	sig := callee.Signature
	var res []*T
	fresh := func() []*T {
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if isErrorType(t) {
				res = append(res, k.null())
			} else {
				res = append(res, k.mk(&T{op: "sym", s: fmt.Sprintf("%s %d", s.top().here(), i), typ: t}))
			}
		}
		return res
	}
	switch callee.Name() {
	case "Write", "WriteString":
		put(args[1])
		return fresh(), true
	case "Grow":
		return nil, true
	case "Reset":
		d.bld[b] = k.str("")
		return nil, true
	case "String", "Bytes":
		return []*T{k.mk(&T{op: "cast", s: "built@" + s.top().here(), typ: sig.Results().At(0).Type(), args: []*T{cur}})}, true
	case "Len":
		return nil, false
	}
	put(k.mk(&T{op: "sym", s: "written@" + s.top().here(), typ: types.Typ[types.String]}))
	return fresh(), true
}

func isTextBuilder(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
}

// ---- loops --------------------------------------------------------------------

func (x *arrTrack) head(s *astate, h *ssa.BasicBlock) {
	d := x.data(s)
	fr := s.top()
	x.loops++
	l := &arrLoop{h: h, id: x.loops, at: len(d.log), init: map[*T]*T{}, bld: map[*T]*T{}}
	x.byId[l.id] = l
	for _, p := range phisOf(h) {
		t := fr.env[p]
		if t.op == "sym" && t.hdr == h {
			l.init[t] = x.k.edgeVal(s, p)
			l.order = append(l.order, t)
			d.phi[t] = l
		}
	}
	var bs []*T
	for b := range d.bld {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, b := range bs {
		t := x.k.mk(&T{op: "sym", s: fmt.Sprintf("built by then %d.%d", l.id, b.id), typ: types.Typ[types.String], hdr: h})
		l.init[t], l.bld[t] = d.bld[b], b
		l.order = append(l.order, t)
		d.bld[b] = t
		d.phi[t] = l
	}
	x.add(s, &aevent{kind: "loop", loop: l})
}

func (x *arrTrack) back(s *astate, h *ssa.BasicBlock) {
	d := x.data(s)
	var l *arrLoop
	for _, e := range d.log {
		if e.kind == "loop" && e.loop.h == h {
			l = e.loop
		}
	}
	if l == nil {
		return
	}
	fr := s.top()
	b := arrBack{s: s.clone(x.k), next: map[*T]*T{}}
	for _, p := range phisOf(h) {
		if t := fr.env[p]; l.init[t] != nil {
			b.next[t] = x.k.edgeVal(s, p)
		}
	}
	for t, bl := range l.bld {
		b.next[t] = d.bld[bl]
	}
	l.backs = append(l.backs, b)
}

// step: by how much the counter goes on, each round (0: not by a constant).
func (x *arrTrack) step(l *arrLoop, t *T) int64 {
	if !isIntT(t.typ) || len(l.backs) == 0 {
		return 0
	}
	st := int64(0)
	for i, b := range l.backs {
		n, ok := x.k.sub(b.next[t], t).intVal()
		if !ok || i > 0 && n != st {
			return 0
		}
		st = n
	}
	return st
}

// counter: the first value of the loop that goes by one.
func (x *arrTrack) counter(l *arrLoop) (*T, int64) {
	for _, t := range l.order {
		if st := x.step(l, t); st == 1 || st == -1 {
			return t, st
		}
	}
	return nil, 0
}

// rounds: how many rounds have been completed at the head.
func (x *arrTrack) rounds(l *arrLoop) *T {
	c, st := x.counter(l)
	if c == nil {
		return nil
	}
	return x.k.mul(x.k.num(st), x.k.sub(c, l.init[c]), types.Typ[types.Int])
}

// inRound: t, a term of one round, as it is in round r (counted from 0).
func (x *arrTrack) inRound(l *arrLoop, t, r *T) *T {
	k := x.k
	m := map[*T]*T{}
	for _, c := range l.order {
		if st := x.step(l, c); st != 0 {
			m[c] = k.add(l.init[c], k.mul(k.num(st), r, types.Typ[types.Int]))
		}
	}
	return k.subst(t, m)
}

// subst rebuilds t with some atoms replaced.
func (k *ai) subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var rec func(t *T) *T
	rec = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		r := t
		if t.op == "lin" {
			p := poly{map[*T]int64{}, t.c0}
			for i, a := range t.args {
				p = p.add(k.poly(rec(a)), t.coef[i])
			}
			r = k.ofPoly(p, t.typ)
		} else if len(t.args) > 0 {
			ch := false
			as := make([]*T, len(t.args))
			for i, a := range t.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			if ch {
				c := *t
				c.args = as
				r = k.mk(&c)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// An accRec is a list made by adding one element each round.
type accRec struct {
	init  *T
	elem  *T      // what a round adds
	s     *astate // in the state of that round
	l     *arrLoop
	whole bool // or appended lists (strings, bytes): elem is the list
}

// acc: what t, a value of a loop, collects (nil: not known to be that).
func (x *arrTrack) acc(d *arrState, t *T) *accRec {
	l := d.phi[t]
	if l == nil || len(l.backs) == 0 {
		return nil
	}
	if r, ok := x.built[l][t]; ok {
		return r
	}
	if x.built[l] == nil {
		x.built[l] = map[*T]*accRec{}
	}
	var r *accRec
	for i, b := range l.backs {
		n := b.next[t]
		var q *accRec
		switch {
		case n == nil:
		case n.op == "append1" && n.args[0] == t && len(n.args) == 2:
			q = &accRec{elem: n.args[1]}
		case n.op == "appendn" && n.args[0] == t, n.op == "cat" && n.args[0] == t:
			q = &accRec{elem: n.args[1], whole: true}
		case n.op == "concat" && n.args[0] == t:
			q = &accRec{elem: n.args[1], whole: true}
		}
		if q == nil || i > 0 && (q.elem != r.elem || q.whole != r.whole) {
			r = nil
			break
		}
		if i == 0 {
			r = q
			r.s = b.s
		}
	}
	if r != nil {
		r.init, r.l = l.init[t], l
	}
	x.built[l][t] = r
	return r
}

// ---- comparing positions -------------------------------------------------------

// An acx decides in a state, with further assumptions (each >= 0).
type acx struct {
	x     *arrTrack
	s     *astate
	more  []*T
	basis []ineq
	dep   int
}

type ineq struct {
	m  map[*T]int64
	c0 int64
}

func (x *arrTrack) ctx(s *astate, more ...*T) *acx {
	c := &acx{x: x, s: s, more: more}
	k := x.k
	add := func(p poly) { c.basis = append(c.basis, ineq{p.m, p.c0}) }
	for key, b := range s.bnd {
		p := k.poly(key)
		if b.lo != math.MinInt64 {
			add(p.add(poly{map[*T]int64{}, b.lo}, -1))
		}
		if b.hi != math.MaxInt64 {
			n := poly{map[*T]int64{}, b.hi}
			add(n.add(p, -1))
		}
	}
	for _, t := range more {
		add(k.poly(t))
	}
	// what the loops passed through have kept in step
	d := x.data(s)
	done := map[*arrLoop]bool{}
	for _, e := range d.log {
		l := e.loop
		if l == nil || done[l] {
			continue
		}
		done[l] = true
		for _, z := range x.inStep(l) {
			add(k.poly(z))
			add(k.poly(k.sub(k.num(0), z)))
		}
		n := x.rounds(l)
		if n == nil {
			continue
		}
		add(k.poly(n))
		eq := func(a, b *T) {
			add(k.poly(a).add(k.poly(b), -1))
			add(k.poly(b).add(k.poly(a), -1))
		}
		x.guards(c, l)
		for _, t := range l.order {
			if st := x.step(l, t); st != 0 {
				eq(t, k.add(l.init[t], k.mul(k.num(st), n, types.Typ[types.Int])))
			} else if r := x.acc(d, t); r != nil && !r.whole {
				eq(k.lenOf(s, t), k.add(k.lenOf(s, r.init), n))
			}
		}
	}
	return c
}

// inStep: sums and differences of two values of a loop (of a list: its length)
// that no round changes, less what they are at the start.
func (x *arrTrack) inStep(l *arrLoop) []*T {
	if r, ok := x.pairs[l]; ok {
		return r
	}
	if x.pairing[l] || len(l.backs) == 0 {
		return nil
	}
	x.pairing[l] = true
	defer func() { x.pairing[l] = false }()
	k := x.k
	size := func(s *astate, t *T) *T {
		if isIntT(t.typ) {
			return t
		}
		if _, ok := t.typ.Underlying().(*types.Slice); ok || isStringT(t.typ) {
			return k.lenOf(s, t)
		}
		return nil
	}
	var ctxs []*acx
	for _, b := range l.backs {
		ctxs = append(ctxs, x.ctx(b.s))
	}
	var zs []*T
	for i, t := range l.order {
		for _, u := range l.order[:i] {
			s0 := l.backs[0].s
			a, b := size(s0, t), size(s0, u)
			if a == nil || b == nil || x.step(l, t) != 0 && x.step(l, u) != 0 {
				continue
			}
			for _, sign := range []int64{1, -1} {
				sum := func(a, b *T) *T { return k.add(a, k.mul(k.num(sign), b, types.Typ[types.Int])) }
				ok := true
				for j, bk := range l.backs {
					na, nb := size(bk.s, bk.next[t]), size(bk.s, bk.next[u])
					ok = ok && na != nil && nb != nil && ctxs[j].eq(sum(na, nb), sum(a, b))
				}
				if ok {
					zs = append(zs, k.sub(sum(a, b), sum(size(s0, l.init[t]), size(s0, l.init[u]))))
				}
			}
		}
	}
	x.pairs[l] = zs
	return zs
}

// guards: what every round found to be positive, and goes down by one with
// it, is not negative at the loop's head (if it was not at the start).
func (x *arrTrack) guards(c *acx, l *arrLoop) {
	for _, cn := range l.order {
		if st := x.step(l, cn); st == 1 || st == -1 {
			x.guardsOf(c, l, cn, st)
		}
	}
}

func (x *arrTrack) guardsOf(c *acx, l *arrLoop, cn *T, st int64) {
	k := x.k
	fixed := func(a *T) bool {
		ok := true
		walkT(a, func(u *T) bool {
			switch {
			case u.op == "sym":
				if u.hdr != nil && (u.hdr == l.h || k.loop(l.h)[u.hdr]) {
					ok = false
				}
				if in, isIn := u.v.(ssa.Instruction); isIn && in.Block() != nil && k.loop(l.h)[in.Block()] {
					ok = false
				}
			case u.op == "prim":
			case u.op == "load" && u.s != "", u.op == "at" && int(u.c0) > l.at, u.op == "res":
				ok = false
			}
			return ok
		})
		return ok
	}
	seen := map[*T]bool{}
	b0 := l.backs[0].s
	for key := range b0.bnd {
		p := k.poly(key)
		n := p.m[cn]
		if n != 1 && n != -1 || seen[key] {
			continue
		}
		seen[key] = true
		ok := true
		for a := range p.m {
			ok = ok && (a == cn || fixed(a))
		}
		if !ok {
			continue
		}
		// sign*key goes down by one each round, and was at least low in it
		low := int64(math.MaxInt64)
		for _, b := range l.backs {
			r, in := b.s.bnd[key]
			switch {
			case in && n*st < 0 && r.lo > -(1<<40):
				low = min(low, r.lo)
			case in && n*st > 0 && r.hi < 1<<40:
				low = min(low, -r.hi)
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		q := poly{map[*T]int64{}, 1 - low}.add(p, -n*st)
		if c.ge0(k.subst(k.ofPoly(q, types.Typ[types.Int]), map[*T]*T{cn: l.init[cn]})) {
			c.basis = append(c.basis, ineq{q.m, q.c0})
		}
	}
}

// vacuous: there is no such case.
func (c *acx) vacuous() bool { return infeasible(c.basis) }

// ge0: t >= 0 follows.
func (c *acx) ge0(t *T) bool {
	k := c.x.k
	if k.rangeOf(c.s, t).lo >= 0 {
		return true
	}
	// show that t <= -1 is impossible
	p := k.poly(t)
	neg := ineq{map[*T]int64{}, -p.c0 - 1}
	for a, n := range p.m {
		neg.m[a] = -n
	}
	if len(neg.m) == 0 {
		return neg.c0 < 0
	}
	// what is connected to it
	want := map[*T]bool{}
	lens := map[*T]bool{}
	for a := range neg.m {
		want[a] = true
	}
	sys := []ineq{neg}
	used := make([]bool, len(c.basis))
	for ch := true; ch; {
		ch = false
		for i, q := range c.basis {
			if used[i] {
				continue
			}
			hit := false
			for a := range q.m {
				hit = hit || want[a]
			}
			if hit {
				used[i] = true
				ch = true
				sys = append(sys, q)
				for a := range q.m {
					want[a] = true
				}
			}
		}
	}
	for a := range want {
		if (a.op == "len" || a.op == "cap") && !lens[a] {
			lens[a] = true
			sys = append(sys, ineq{map[*T]int64{a: 1}, 0})
		}
	}
	return infeasible(sys)
}

func (c *acx) eq(a, b *T) bool {
	k := c.x.k
	if a == b || k.equal(c.s, a, b) == 1 {
		return true
	}
	d := k.sub(a, b)
	if n, ok := d.intVal(); ok {
		return n == 0
	}
	return c.ge0(d) && c.ge0(k.sub(b, a))
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// infeasible: no integers satisfy all of them (each >= 0); elimination.
func infeasible(sys []ineq) bool {
	key := func(q ineq) string {
		var ids []int
		for a := range q.m {
			ids = append(ids, a.id)
		}
		sort.Ints(ids)
		s := ""
		for _, i := range ids {
			for a, n := range q.m {
				if a.id == i {
					s += fmt.Sprintf("%d*%d,", i, n)
				}
			}
		}
		return s
	}
	tight := func(qs []ineq) ([]ineq, bool) {
		best := map[string]ineq{}
		var order []string
		for _, q := range qs {
			g := int64(0)
			for a, n := range q.m {
				if n == 0 {
					delete(q.m, a)
					continue
				}
				if n < 0 {
					n = -n
				}
				g = gcd64(n, g)
			}
			if len(q.m) == 0 {
				if q.c0 < 0 {
					return nil, true
				}
				continue
			}
			if g > 1 {
				m := map[*T]int64{}
				for a, n := range q.m {
					m[a] = n / g
				}
				c := q.c0 / g
				if q.c0%g != 0 && q.c0 < 0 {
					c--
				}
				q = ineq{m, c}
			}
			ky := key(q)
			if o, ok := best[ky]; ok {
				if q.c0 < o.c0 {
					best[ky] = q
				}
				continue
			}
			best[ky] = q
			order = append(order, ky)
		}
		var out []ineq
		for _, ky := range order {
			out = append(out, best[ky])
		}
		return out, false
	}
	cp := make([]ineq, len(sys))
	for i, q := range sys {
		m := map[*T]int64{}
		for a, n := range q.m {
			m[a] = n
		}
		cp[i] = ineq{m, q.c0}
	}
	sys, bad := tight(cp)
	for round := 0; round < 40; round++ {
		if bad {
			return true
		}
		pos, neg := map[*T]int{}, map[*T]int{}
		var vars []*T
		for _, q := range sys {
			for a, n := range q.m {
				if pos[a]+neg[a] == 0 {
					vars = append(vars, a)
				}
				if n > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		if len(vars) == 0 {
			return false
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
		v := vars[0]
		for _, a := range vars {
			if pos[a]*neg[a] < pos[v]*neg[v] {
				v = a
			}
		}
		var rest, ps, ns []ineq
		for _, q := range sys {
			switch n := q.m[v]; {
			case n > 0:
				ps = append(ps, q)
			case n < 0:
				ns = append(ns, q)
			default:
				rest = append(rest, q)
			}
		}
		if len(ps)*len(ns)+len(rest) > 3000 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.m[v], -n.m[v]
				m := map[*T]int64{}
				for t, c := range p.m {
					m[t] += satMul(c, b)
				}
				for t, c := range n.m {
					m[t] += satMul(c, a)
				}
				over := false
				for t, c := range m {
					if c == 0 {
						delete(m, t)
					}
					over = over || c > 1<<30 || c < -(1<<30)
				}
				c0 := satAdd(satMul(p.c0, b), satMul(n.c0, a))
				if over || c0 > 1<<60 || c0 < -(1<<60) {
					continue
				}
				rest = append(rest, ineq{m, c0})
			}
		}
		sys, bad = tight(rest)
	}
	return false
}

// ---- elements ---------------------------------------------------------------------

// chain: the lists t may share its array with, through appends.
func chain(k *ai, t *T) []*T {
	var c []*T
	for {
		r, _ := splitSlice(k, t)
		c = append(c, r)
		if r.op != "append1" && r.op != "appendn" {
			return c
		}
		t = r.args[0]
	}
}

// elem: element q of list l, after the first n events of the path.
func (c *acx) elem(l, q *T, n int) *T {
	k, x := c.x.k, c.x
	d := x.data(c.s)
	c.dep++
	defer func() { c.dep-- }()
	if c.dep > 30 {
		return nil
	}
	root, lo := splitSlice(k, l)
	i := k.add(lo, q)
	app := root.op == "append1" || root.op == "appendn"
	// only lists that share the array matter
	shares := func(o *T) bool {
		for _, a := range chain(k, root) {
			for _, b := range chain(k, o) {
				if a == b {
					return true
				}
			}
		}
		return false
	}
	for t := n - 1; t >= 0; t-- {
		e := d.log[t]
		switch e.kind {
		case "store", "copy":
			if !shares(e.root) {
				continue
			}
			lenE := k.num(1)
			if e.kind == "copy" {
				lenE = e.n
			}
			before := c.ge0(k.sub(e.at, k.add(i, k.num(1))))
			behind := !before && c.ge0(k.sub(i, k.add(e.at, lenE)))
			if before || behind {
				continue
			}
			if e.root != root {
				return nil
			}
			inside := c.ge0(k.sub(i, e.at)) && c.ge0(k.sub(k.add(e.at, k.sub(lenE, k.num(1))), i))
			if e.kind == "store" {
				if !inside {
					return nil
				}
				return c.normAt(e.val)
			}
			off := k.sub(i, e.at)
			m := k.lenOf(c.s, e.val)
			if c.ge0(k.sub(off, m)) {
				continue // more than the source has
			}
			if !inside || !c.ge0(k.sub(k.sub(m, k.num(1)), off)) {
				return nil
			}
			return c.elem(e.val, off, t)
		case "havoc":
			if shares(e.root) {
				return nil
			}
		case "append":
			if app && root.in == e.in && root.args[0] == e.base {
				// made here
				b := root.args[0]
				nb := k.lenOf(c.s, b)
				if c.ge0(k.sub(k.sub(nb, k.num(1)), i)) {
					if b.op == "nil" {
						return nil
					}
					return c.elem(b, i, t)
				}
				if !c.ge0(k.sub(i, nb)) {
					return nil
				}
				if root.op == "append1" {
					if j, ok := k.sub(i, nb).intVal(); ok && j >= 0 && int(j) < len(root.args)-1 {
						return c.normAt(root.args[1+j])
					}
					if len(root.args) == 2 {
						return c.normAt(root.args[1])
					}
					return nil
				}
				return c.elem(root.args[1], k.sub(i, nb), t)
			}
			if e.base.op == "nil" || !shares(e.base) {
				continue
			}
			_, blo := splitSlice(k, e.base)
			if !c.ge0(k.sub(k.sub(k.add(blo, k.lenOf(c.s, e.base)), k.num(1)), i)) &&
				!c.ge0(k.sub(i, k.add(k.add(blo, k.lenOf(c.s, e.base)), k.lenOf(c.s, e.val)))) {
				return nil
			}
		case "loop":
			v, ok := c.byRounds(e.loop, root, i, shares)
			if !ok {
				v, ok = c.segment(e.loop, root, i, shares)
			}
			if !ok {
				return nil
			}
			if v != nil {
				return v
			}
		}
	}
	if app {
		return nil
	}
	if root.op == "mkslice" {
		return k.zeroOf(elemType(root.typ))
	}
	if r := x.acc(d, root); r != nil {
		if r.whole {
			return nil
		}
		n0 := k.lenOf(c.s, r.init)
		if c.ge0(k.sub(k.sub(n0, k.num(1)), i)) {
			return c.elem(r.init, i, r.l.at)
		}
		if !c.ge0(k.sub(i, n0)) {
			return nil
		}
		v := c.x.ctx(r.s).normAt(r.elem)
		if v == nil {
			return nil
		}
		return x.inRound(r.l, v, k.sub(i, n0))
	}
	if l := d.phi[root]; l != nil {
		return c.grown(l, root, i)
	}
	return x.orig(root, i)
}

// byRounds: what the rounds of l so far have put at place i of root.
func (c *acx) byRounds(l *arrLoop, root, i *T, shares func(*T) bool) (v *T, ok bool) {
	k, x := c.x.k, c.x
	for _, b := range l.backs {
		log := x.data(b.s).log
		var st *aevent
		for _, e := range log[l.at+1:] {
			switch e.kind {
			case "append":
				if e.base.op == "nil" || !shares(e.base) || e.base == root && l.init[root] != nil {
					continue // what a loop appends to its own list: see acc
				}
				return nil, false
			case "loop":
				for _, bb := range e.loop.backs {
					for _, f := range x.data(bb.s).log[e.loop.at+1:] {
						if f.root != nil && shares(f.root) || f.kind == "append" && f.base.op != "nil" && e.loop.init[f.base] == nil && shares(f.base) {
							return nil, false
						}
					}
				}
				continue
			}
			if !shares(e.root) {
				continue
			}
			if e.kind != "store" || e.root != root || st != nil {
				return nil, false
			}
			st = e
		}
		if st == nil {
			if len(l.backs) > 1 {
				for _, o := range l.backs {
					for _, e := range x.data(o.s).log[l.at+1:] {
						if e.root != nil && shares(e.root) {
							return nil, false
						}
					}
				}
			}
			continue
		}
		if v != nil || len(l.backs) > 1 {
			// several ways through a round: they must do the same
			for _, o := range l.backs {
				same := false
				for _, e := range x.data(o.s).log[l.at+1:] {
					same = same || e.kind == "store" && e.root == root && e.at == st.at && e.val == st.val
				}
				if !same {
					return nil, false
				}
			}
		}
		n := x.rounds(l)
		if n == nil {
			return nil, false
		}
		// places first, first+step, ... by the round
		first := x.inRound(l, st.at, k.num(0))
		by, isC := k.sub(x.inRound(l, st.at, k.num(1)), first).intVal()
		if !isC || by != 1 && by != -1 {
			return nil, false
		}
		r := k.mul(k.num(by), k.sub(i, first), types.Typ[types.Int])
		if c.ge0(k.sub(k.num(-1), r)) || c.ge0(k.sub(r, n)) {
			return nil, true // not a place of the rounds so far
		}
		if !c.ge0(r) || !c.ge0(k.sub(k.sub(n, k.num(1)), r)) {
			return nil, false
		}
		val := x.ctx(b.s).normAt(st.val)
		if val == nil {
			return nil, false
		}
		return x.inRound(l, val, r), true
	}
	return nil, true
}

// segment: root is filled by l piece by piece, each round's inner loop going on
// where the last one's ended. What it gives (op seg) is what round's values are
// put there, how many of them, and where they start.
func (c *acx) segment(l *arrLoop, root, i *T, shares func(*T) bool) (v *T, ok bool) {
	k, x := c.x.k, c.x
	var seg *T
	for _, b := range l.backs {
		var inner *arrLoop
		for _, e := range x.data(b.s).log[l.at+1:] {
			switch {
			case e.kind == "append" && e.base.op != "nil" && shares(e.base), e.root != nil && shares(e.root):
				return nil, false
			case e.kind == "loop":
				for _, ib := range e.loop.backs {
					for _, f := range x.data(ib.s).log[e.loop.at+1:] {
						if f.kind == "append" && f.base.op != "nil" && shares(f.base) || f.root != nil && shares(f.root) {
							if inner != nil && inner != e.loop {
								return nil, false
							}
							inner = e.loop
						}
					}
				}
			}
		}
		if inner == nil {
			return nil, false
		}
		var st *aevent
		for n, ib := range inner.backs {
			m := 0
			for _, f := range x.data(ib.s).log[inner.at+1:] {
				if f.kind == "loop" {
					for _, jb := range f.loop.backs {
						for _, g := range x.data(jb.s).log[f.loop.at+1:] {
							if g.root != nil && shares(g.root) {
								return nil, false
							}
						}
					}
				}
				if f.kind == "append" && f.base.op != "nil" && shares(f.base) {
					return nil, false
				}
				if f.root == nil || !shares(f.root) {
					continue
				}
				if f.kind != "store" || f.root != root || n > 0 && (f.at != st.at || f.val != st.val) {
					return nil, false
				}
				st = f
				m++
			}
			if m != 1 {
				return nil, false
			}
		}
		m := x.rounds(inner)
		val := x.ctx(inner.backs[0].s).normAt(st.val)
		if m == nil || val == nil {
			return nil, false
		}
		first := x.inRound(inner, st.at, k.num(0))
		by, isC := k.sub(x.inRound(inner, st.at, k.num(1)), first).intVal()
		if !isC || by != 1 || x.inRound(inner, val, k.num(0)) != x.inRound(inner, val, k.num(1)) {
			return nil, false
		}
		val = x.inRound(inner, val, k.num(0))
		// in terms of what the rounds of l change
		cb := x.ctx(b.s)
		for _, t := range l.order {
			if isIntT(t.typ) && first != t && cb.eq(first, t) {
				first = t
				break
			}
		}
		next := k.subst(first, b.next)
		if !cb.eq(next, k.add(first, m)) {
			return nil, false
		}
		s := k.mk(&T{op: "seg", typ: elemType(root.typ), c0: int64(l.id), args: []*T{val, m, first}})
		if seg != nil && seg != s {
			return nil, false
		}
		seg = s
	}
	if seg == nil {
		return nil, false
	}
	return c.inSegment(l, seg, seg.args[2], k.subst(seg.args[2], l.init), i)
}

// grown: what the rounds of l, each adding what an inner loop appends, have put
// at place i of the list root.
func (c *acx) grown(l *arrLoop, root, i *T) *T {
	k, x := c.x.k, c.x
	var seg *T
	for _, b := range l.backs {
		n := b.next[root]
		if n == nil {
			return nil
		}
		r := x.acc(x.data(b.s), n)
		if r == nil || r.whole || r.init != root || r.l == l {
			return nil
		}
		m := x.rounds(r.l)
		val := x.ctx(r.s).normAt(r.elem)
		if m == nil || val == nil || x.inRound(r.l, val, k.num(0)) != x.inRound(r.l, val, k.num(1)) {
			return nil
		}
		s := k.mk(&T{op: "seg", typ: elemType(root.typ), c0: int64(l.id), args: []*T{x.inRound(r.l, val, k.num(0)), m, k.lenOf(b.s, root)}})
		if seg != nil && seg != s {
			return nil
		}
		seg = s
	}
	if seg == nil {
		return nil
	}
	begin := k.lenOf(c.s, l.init[root])
	v, ok := c.inSegment(l, seg, k.lenOf(c.s, root), begin, i)
	if ok && v == nil && c.ge0(k.sub(k.sub(begin, k.num(1)), i)) {
		return c.elem(l.init[root], i, l.at)
	}
	return v
}

func (c *acx) inSegment(l *arrLoop, seg, first, begin, i *T) (v *T, ok bool) {
	k := c.x.k
	if c.ge0(k.sub(k.sub(begin, k.num(1)), i)) || c.ge0(k.sub(i, first)) {
		return nil, true
	}
	if c.ge0(k.sub(i, begin)) && c.ge0(k.sub(k.sub(first, k.num(1)), i)) {
		return seg, true
	}
	return nil, false
}

// normAt: t with the elements it names replaced by what they are (nil: not known).
func (c *acx) normAt(t *T) *T {
	m := map[*T]*T{}
	bad := false
	k := c.x.k
	walkT(t, func(u *T) bool {
		if u.op == "at" {
			if c.x.tracks(u.args[0]) {
				i := c.normAt(u.args[1])
				var v *T
				if i != nil {
					v = c.elem(u.args[0], i, int(u.c0))
				}
				if v == nil {
					bad = true
				} else {
					m[u] = v
				}
			}
			return false
		}
		return true
	})
	if bad {
		return nil
	}
	if len(m) == 0 {
		return t
	}
	return k.subst(t, m)
}
