package main

// C11: what the trie builder writes into a unit is what every search reads
// from it.

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "abstract interpretation with exclusive-or bit provenance: every step of every search and every unit the builder writes against one layout, by loop induction", checkTrie)
}

type c11 struct {
	w *World
	r *Report

	da, iter, dab *types.Named
	quiet         bool
	found         []Finding

	// fields of the iterator
	fPos, fKey, fArr, fOff, fVal, fLen int
}

func checkTrie(w *World, r *Report) {
	r.Explanation = "Every search over the trie is interpreted with the node it is at and the byte it is to follow as ghost state: each unit read must be at the position of the node, of its child by that byte or of its value, each way on must know that the label fits, each answer must be what the unit says. The builder's stores are decoded with the same layout. Positions are compared bit by bit as exclusive ors, for both offset encodings."
	c := &c11{w: w, r: r, da: w.typ("dartsclone", "DoubleArray"), iter: w.typ("dartsclone", "Iterator"), dab: w.typ("dartsclone", "doubleArrayBuilder")}
	c.searches()
	c.builder()
	c.dawg()
}

func (c *c11) bad(k *ai, s *astate, key, at, msg string) {
	f := Finding{Key: key, Rule: "trie units", Pos: at, Msg: msg}
	if s != nil {
		f.Path = k.trail(s)
	}
	c.found = append(c.found, f)
}

func (c *c11) flush() {
	for _, f := range c.found {
		c.r.add(f)
	}
	c.found = nil
}

// offsetBits: the offset a unit carries, in the case the environment is for.
func offsetBits(u xvec) (v xvec, ok bool) {
	b := u[9]
	if !b.isConst() {
		return v, false
	}
	v = u.shr(10, false)
	if b.one {
		v = v.shl(8)
	}
	for i := 32; i < 64; i++ {
		v[i] = xbit{}
	}
	return v, true
}

// ---- searches -------------------------------------------------------------------

type walkSt struct {
	p, i   *T // node reached, next byte of the key
	pend   *T // child read but not yet compared
	unitP  *T
	unitX  *T
	val    *T // value unit read
	apps   int
	app    *T // what was appended
	inits  map[string][]string
	res0   *T
	ended  bool
	result *T
}

const (
	rolePos     = "pos"
	roleApplied = "applied"
	roleUnit    = "unit"
	roleIndex   = "index"
)

type c11walk struct {
	*c11
	f      *ssa.Function
	who    string
	key    func(s *astate) *T // the key searched for
	array  func(s *astate) *T
	end    func(s *astate) *T
	drop   map[string]bool
	again  bool
	events int
	list   bool // answers are appended to a list
	max    *ssa.Parameter
	itSelf *ssa.Parameter
}

func (x *c11walk) unit(k *ai, p *T) *T {
	return k.mk(&T{op: "load", s: "unit", typ: types.Typ[types.Uint32], args: []*T{p}})
}

// cases: f holds in every case the path allows, of the encodings of the
// offset of the node.
func (x *c11walk) cases(k *ai, s *astate, f func(e *xenv, ne []xvec) bool) bool {
	d := s.data.(*walkSt)
	u := x.unit(k, d.p)
	for _, long := range []bool{false, true} {
		e, ne, ok := k.xknow(s, func(a xatom) bool { return a.src == u && a.n == 31 }, map[xatom]bool{{u, 9}: long})
		if ok && !f(e, ne) {
			return false
		}
	}
	return true
}

func (v xvec) equal(w xvec) bool {
	for i := range v {
		if !v[i].same(w[i]) {
			return false
		}
	}
	return true
}

// byteOf: byte i of the key, which nothing changes during a search.
func (x *c11walk) byteOf(k *ai, key, i *T) *T {
	return k.mk(&T{op: "load", s: "key", typ: types.Typ[types.Uint8], args: []*T{key, i}})
}

func (x *c11walk) byteAt(k *ai, s *astate) *T {
	d := s.data.(*walkSt)
	return x.byteOf(k, x.key(s), d.i)
}

// is: t is the node's position (role pos), its children's base (applied) or
// the child's position (child).
func (x *c11walk) is(k *ai, s *astate, t *T, role string) bool {
	d := s.data.(*walkSt)
	return x.cases(k, s, func(e *xenv, _ []xvec) bool {
		v := e.val(t)
		switch role {
		case rolePos:
			return v.equal(e.val(d.p).fit(types.Typ[types.Uint32]))
		case roleUnit:
			return v.equal(e.val(x.unit(k, d.p)))
		}
		o, ok := offsetBits(e.val(x.unit(k, d.p)))
		if !ok {
			return false
		}
		w := e.val(d.p).fit(types.Typ[types.Uint32]).xor(o)
		if role == "child" {
			w = w.xor(e.val(x.byteAt(k, s)))
		}
		return v.equal(w)
	})
}

// label: is it known that the child's label fits (1) or not (-1)?
func (x *c11walk) label(k *ai, s *astate) int {
	d := s.data.(*walkSt)
	kb := x.byteAt(k, s)
	fits, not := true, true
	x.cases(k, s, func(e *xenv, ne []xvec) bool {
		u, b := e.val(x.unit(k, d.pend)), e.val(kb)
		for j := 0; j < 8; j++ {
			if z := e.bit(u[j].xor(b[j])); !z.isConst() || z.one {
				fits = false
			}
		}
		if z := u[31]; !z.isConst() || z.one {
			fits = false
		}
		// a vector of label bits that is not zero
		differ := false
		in := map[string]bool{}
		for j := 0; j < 8; j++ {
			in[u[j].xor(b[j]).key()] = true
		}
		in[u[31].key()] = true
		for j := 0; j < 8; j++ {
			if z := e.bit(u[j].xor(b[j])); z.isConst() && z.one {
				differ = true
			}
		}
		if z := u[31]; z.isConst() && z.one {
			differ = true
		}
		for _, v := range ne {
			all := true
			for j := range v {
				if v[j].isConst() && !v[j].one {
					continue
				}
				if v[j].unk || v[j].one || !in[v[j].key()] {
					all = false
				}
			}
			differ = differ || all
		}
		not = not && differ
		return true
	})
	switch {
	case fits:
		return 1
	case not:
		return -1
	}
	return 0
}

// leaf: does the node have a value?
func (x *c11walk) leaf(k *ai, s *astate) int {
	yes, no := true, true
	d := s.data.(*walkSt)
	x.cases(k, s, func(e *xenv, _ []xvec) bool {
		b := e.val(x.unit(k, d.p))[8]
		yes = yes && b.isConst() && b.one
		no = no && b.isConst() && !b.one
		return true
	})
	switch {
	case yes:
		return 1
	case no:
		return -1
	}
	return 0
}

// confirm: a child whose label is known to fit is the node reached.
func (x *c11walk) confirm(k *ai, s *astate) {
	d := s.data.(*walkSt)
	if d.pend != nil && x.label(k, s) > 0 {
		d.p, d.pend = d.pend, nil
		d.i = k.add(d.i, k.num(1))
		d.val = nil
	}
}

func (x *c11walk) over(k *ai, s *astate) bool {
	return k.rangeOf(s, k.sub(x.end(s), s.data.(*walkSt).i)).hi <= 0
}

// value: v is the value of the node's value unit.
func (x *c11walk) value(k *ai, s *astate, v *T) bool {
	d := s.data.(*walkSt)
	if d.val == nil {
		return false
	}
	return x.cases(k, s, func(e *xenv, _ []xvec) bool {
		u, w := e.val(x.unit(k, d.val)), e.val(v)
		for j := range w {
			want := xbit{}
			if j < 31 {
				want = u[j]
			}
			if !w[j].same(want) {
				return false
			}
		}
		return true
	})
}

type c11loc struct {
	name string
	get  func(k *ai, s *astate, pred int) *T
	set  func(k *ai, s *astate, t *T)
	wide bool
}

func (x *c11walk) locs(k *ai, s *astate, h *ssa.BasicBlock) (out []c11loc) {
	f := s.top()
	if f.fn != x.f && f.fn.Pkg != x.f.Pkg {
		return nil
	}
	for i, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		out = append(out, c11loc{
			name: fmt.Sprintf("%s.%d.%d", f.fn.Name(), h.Index, i),
			get: func(k *ai, s *astate, pred int) *T {
				return k.val(s, s.top(), phi.Edges[pred])
			},
			set:  func(k *ai, s *astate, t *T) { s.top().env[phi] = t },
			wide: intSize(phi.Type()) > 4,
		})
	}
	if x.itSelf != nil {
		st := c11st(x.iter)
		for _, j := range []int{x.fPos, x.fOff} {
			j := j
			addr := func(k *ai, s *astate) *T { return k.fld(k.val(s, s.stack[0], x.itSelf), x.iter, j) }
			out = append(out, c11loc{
				name: fmt.Sprintf("%s.%d.%s", f.fn.Name(), h.Index, st.Field(j).Name()),
				get: func(k *ai, s *astate, pred int) *T {
					return k.load(s, addr(k, s), st.Field(j).Type())
				},
				set:  func(k *ai, s *astate, t *T) { s.mem[addr(k, s)] = t },
				wide: j == x.fOff,
			})
		}
	}
	return out
}

func c11st(n *types.Named) *types.Struct { return n.Underlying().(*types.Struct) }

// holds: does t play the role at the node reached?
func (x *c11walk) holds(k *ai, s *astate, t *T, role string) (int64, bool) {
	d := s.data.(*walkSt)
	if role == roleIndex {
		return k.sub(t, d.i).intVal()
	}
	return 0, x.is(k, s, t, role)
}

func (x *c11walk) run(init func(k *ai, s *astate, d *walkSt), exit func(k *ai, s *astate, at ssa.Instruction, res []*T)) {
	x.drop = map[string]bool{}
	if x.who == "" {
		x.who = x.w.fname(x.f)
	}
	before := len(x.found)
	for round := 0; ; round++ {
		x.found = x.found[:before]
		x.again = false
		x.once(init, exit)
		if !x.again || round > 40 {
			break
		}
	}
}

func (x *c11walk) once(init func(k *ai, s *astate, d *walkSt), exit func(k *ai, s *astate, at ssa.Instruction, res []*T)) {
	w, c, f := x.w, x.c11, x.f
	k := newAI(w, aclient{})
	k.keep = true
	x.events = 0
	consts := map[string]int64{}
	k.cl.clone = func(d any) any {
		n := *d.(*walkSt)
		n.inits = map[string][]string{}
		for a, b := range d.(*walkSt).inits {
			n.inits[a] = b
		}
		return &n
	}
	k.cl.key = func(d any) string {
		n := d.(*walkSt)
		return fmt.Sprint(n.p.id, n.i.id, n.pend != nil, n.val != nil, n.apps, n.ended)
	}
	k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
		if a.op == "idx" && a.args[0] == x.key(s) {
			return x.byteOf(k, a.args[0], a.args[1])
		}
		if a.op != "idx" || !isBasic(elemType(a.args[0].typ), types.Uint32) {
			return nil
		}
		d := s.data.(*walkSt)
		x.events++
		if a.args[0] != x.array(s) {
			c.bad(k, s, "array:"+x.who, w.posOf(in), fmt.Sprintf("%s reads a unit of another array than the trie's: %s", x.who, a))
			return nil
		}
		at := a.args[1]
		x.confirm(k, s)
		if d.pend != nil {
			if x.is2(k, s, at, d.pend) {
				return x.unit(k, d.pend)
			}
			c.bad(k, s, "unchecked:"+x.who, w.posOf(in), x.who+" goes on from a child without knowing that its label is the byte of the key")
			d.p, d.pend = d.pend, nil
			d.i = k.add(d.i, k.num(1))
		}
		switch {
		case x.is(k, s, at, rolePos):
			return x.unit(k, d.p)
		case x.is(k, s, at, roleApplied):
			if x.leaf(k, s) <= 0 {
				c.bad(k, s, "noleaf:"+x.who, w.posOf(in), x.who+" reads the value of a node without knowing that it has one")
			}
			d.val = at
			c.r.count("values read", 1)
			return x.unit(k, at)
		case x.is(k, s, at, "child"):
			if k.rangeOf(s, k.sub(x.end(s), d.i)).lo < 1 {
				c.bad(k, s, "past:"+x.who, w.posOf(in), x.who+" follows a byte that may be past the end of the key")
			}
			d.pend = at
			c.r.count("steps to a child", 1)
			return x.unit(k, at)
		}
		c.bad(k, s, "position:"+x.who, w.posOf(in), fmt.Sprintf("%s reads the unit at %s, which is neither the node it is at (%s), its value nor its child by byte %s of the key", x.who, at, d.p, d.i))
		return nil
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		if a.op == "idx" && isBasic(elemType(a.args[0].typ), types.Uint32) {
			c.bad(k, s, "writes:"+x.who, w.posOf(in), x.who+" writes to the trie")
		}
	}
	k.cl.pre = func(k *ai, s *astate, h *ssa.BasicBlock, pred int) {
		d := s.data.(*walkSt)
		x.confirm(k, s)
		for _, l := range x.locs(k, s, h) {
			t := l.get(k, s, pred)
			d.inits[l.name] = nil
			order := []string{rolePos, roleApplied, roleUnit, roleIndex}
			if l.wide {
				order = []string{roleIndex, rolePos, roleApplied, roleUnit}
			}
			for _, role := range order {
				if x.drop[l.name+role] {
					continue
				}
				if n, ok := x.holds(k, s, t, role); ok {
					if m, seen := consts[l.name+role]; seen && m != n {
						continue
					}
					consts[l.name+role] = n
					d.inits[l.name] = append(d.inits[l.name], role)
				}
			}
		}
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*walkSt)
		if x.list {
			d.apps = 0
		}
		locs := x.locs(k, s, h)
		any := false
		for _, l := range locs {
			any = any || len(d.inits[l.name]) > 0
		}
		if !any {
			return
		}
		d.pend, d.val = nil, nil
		d.p = k.sym(fmt.Sprintf("node@%s.%d", s.top().fn.Name(), h.Index), types.Typ[types.Uint32])
		i := d.i
		d.i = k.sym(fmt.Sprintf("index@%s.%d", s.top().fn.Name(), h.Index), types.Typ[types.Int])
		k.bound(s, k.sub(d.i, i), ival{lo: 0, hi: 1 << 62})
		u := x.unit(k, d.p)
		off := k.op("<<", u.typ, k.op(">>", u.typ, u, k.num(10)), k.op(">>", u.typ, k.op("&", u.typ, u, k.num(512)), k.num(6)))
		for _, l := range locs {
			rs := d.inits[l.name]
			if len(rs) == 0 {
				continue
			}
			switch rs[0] {
			case rolePos:
				l.set(k, s, d.p)
			case roleUnit:
				l.set(k, s, u)
			case roleApplied:
				l.set(k, s, k.op("^", u.typ, d.p, off))
			case roleIndex:
				l.set(k, s, k.add(d.i, k.num(consts[l.name+roleIndex])))
			}
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*walkSt)
		x.confirm(k, s)
		if d.pend != nil {
			c.bad(k, s, "unchecked:"+x.who, w.pos(f.Pos()), x.who+" goes on from a child without knowing that its label is the byte of the key")
			return
		}
		pred := 0
		for i, p := range h.Preds {
			if p == s.top().pred {
				pred = i
			}
		}
		for _, l := range x.locs(k, s, h) {
			rs := d.inits[l.name]
			if len(rs) == 0 {
				continue
			}
			n, ok := x.holds(k, s, l.get(k, s, pred), rs[0])
			if !ok || rs[0] == roleIndex && n != consts[l.name+roleIndex] {
				x.drop[l.name+rs[0]] = true
				if os.Getenv("VP_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "drop", x.who, l.name, rs[0], l.get(k, s, pred), "node", d.p, "index", d.i)
				}
				x.again = true
			}
		}
		if !x.again {
			c.r.count("rounds of searches", 1)
		}
		x.round(k, s, w.pos(f.Pos()))
	}
	k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
		cl, ok := in.(*ssa.Call)
		if !ok || !x.list {
			return
		}
		if b, ok := cl.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			return
		}
		d := s.data.(*walkSt)
		y := k.val(s, s.top(), cl.Call.Args[1])
		if n, ok := k.lenOf(s, y).intVal(); !ok || n != 1 {
			c.bad(k, s, "append:"+x.who, w.posOf(in), x.who+" adds other than one answer")
			return
		}
		x.confirm(k, s)
		d.apps++
		et := elemType(cl.Type())
		e := k.elemAt(s, y, k.num(0))
		arr, ok := et.Underlying().(*types.Array)
		if !ok || arr.Len() != 2 {
			c.bad(k, s, "append:"+x.who, w.posOf(in), x.who+" adds an answer that cannot be followed")
			return
		}
		var v, n *T
		if e.op == "agg" {
			v, n = e.args[0], e.args[1]
		} else {
			a := k.idx(y, k.num(0), et)
			v, n = k.load(s, k.idx(a, k.num(0), arr.Elem()), arr.Elem()), k.load(s, k.idx(a, k.num(1), arr.Elem()), arr.Elem())
		}
		if !x.value(k, s, v) {
			c.bad(k, s, "value:"+x.who, w.posOf(in), fmt.Sprintf("%s must answer the value of the node it is at, but answers %s", x.who, v))
		}
		if k.equal(s, n, d.i) != 1 {
			c.bad(k, s, "length:"+x.who, w.posOf(in), fmt.Sprintf("%s must answer the position after the last byte matched (%s), but answers %s", x.who, d.i, n))
		}
		c.r.count("answers", 1)
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		x.confirm(k, s)
		exit(k, s, at, res)
	}
	k.run(f, func(s *astate) {
		d := &walkSt{inits: map[string][]string{}}
		s.data = d
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		init(k, s, d)
	})
	if k.gaveUp {
		c.bad(nil, nil, "gaveup:"+x.who, w.pos(f.Pos()), x.who+" could not be analysed completely")
	}
	if x.events == 0 {
		c.bad(nil, nil, "nothing:"+x.who, w.pos(f.Pos()), x.who+" reads no unit of the trie")
	}
}

// is2: t is the position p.
func (x *c11walk) is2(k *ai, s *astate, t, p *T) bool {
	return x.cases(k, s, func(e *xenv, _ []xvec) bool { return e.val(t).equal(e.val(p)) })
}

// round: a round of a search that lists its answers added one exactly if the
// node has a value, or the list is full.
func (x *c11walk) round(k *ai, s *astate, at string) {
	if !x.list {
		// a round may not pass over a value the iterator should hand out
		if x.itSelf != nil && x.leaf(k, s) >= 0 {
			x.bad(k, s, "passed:"+x.who, at, x.who+" may pass over a node with a value")
		}
		return
	}
	x.listed(k, s, at)
}

func (x *c11walk) listed(k *ai, s *astate, at string) {
	d := s.data.(*walkSt)
	l := x.leaf(k, s)
	switch {
	case d.apps > 1 || d.apps == 1 && l <= 0:
		x.bad(k, s, "answers:"+x.who, at, fmt.Sprintf("%s adds %d answers for one node", x.who, d.apps))
	case d.apps == 0 && l >= 0 && !x.full(k, s):
		x.bad(k, s, "passed:"+x.who, at, x.who+" may pass over a node with a value although the list is not full")
	}
}

// full: the list is known to have as many answers as were asked for.
func (x *c11walk) full(k *ai, s *astate) bool {
	if x.max == nil {
		return false
	}
	m := k.val(s, s.stack[0], x.max)
	for t := range s.bnd {
		for _, sign := range []int64{1, -1} {
			p := k.poly(t)
			if p.m[m] != sign || len(p.m) != 2 {
				continue
			}
			for a, n := range p.m {
				if a.op == "len" && n == -sign {
					// max - len <= 0
					if k.rangeOf(s, k.sub(m, a)).hi <= 0 {
						return true
					}
				}
			}
		}
	}
	return false
}

func (c *c11) searches() {
	w, r := c.w, c.r
	defer c.flush()
	dst := c11st(c.da)
	fArr := oneField(c.da, "the units", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	isBytes := func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint8) }
	c.iterFields()
	var fs []*ssa.Function
	for _, f := range w.allFns {
		n := namedOfRecv(f)
		if n == nil || n != c.da || !isExportedAPI(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		key := false
		for _, p := range f.Params[1:] {
			key = key || isBytes(p.Type())
		}
		if !key || f.Signature.Results().Len() == 0 || namedOf(f.Signature.Results().At(0).Type()) == c.iter || f.Name() == "SetBuffer" || f.Signature.Results().At(0).Type().String() == "error" {
			continue
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	for _, f := range fs {
		f := f
		x := &c11walk{c11: c, f: f, who: w.fname(f)}
		r.oblige("walk of " + x.who)
		r.count("searches", 1)
		var key *ssa.Parameter
		var ints []*ssa.Parameter
		for _, p := range f.Params[1:] {
			if isBytes(p.Type()) {
				key = p
			} else if isInteger(p.Type()) {
				ints = append(ints, p)
			}
		}
		res := f.Signature.Results()
		tr, _ := res.At(0).Type().Underlying().(*types.Pointer)
		x.list = sliceOfT(res.At(0).Type()) != nil
		var k0 *ai
		x.key = func(s *astate) *T { return k0.val(s, s.stack[0], key) }
		x.array = func(s *astate) *T {
			return k0.load(s, k0.fld(k0.val(s, s.stack[0], f.Params[0]), c.da, fArr), dst.Field(fArr).Type())
		}
		x.end = func(s *astate) *T { return k0.lenOf(s, x.key(s)) }
		if tr != nil && len(ints) == 3 {
			x.end = func(s *astate) *T { return k0.val(s, s.stack[0], ints[1]) }
		}
		if x.list && len(ints) == 2 {
			x.max = ints[1]
		}
		x.run(func(k *ai, s *astate, d *walkSt) {
			k0 = k
			d.p, d.i = k.num(0), k.num(0)
			if len(ints) > 0 {
				d.i = k.val(s, s.top(), ints[0])
			}
			if tr != nil && len(ints) == 3 {
				d.p = k.val(s, s.top(), ints[2])
			}
		}, func(k *ai, s *astate, at ssa.Instruction, res []*T) {
			d := s.data.(*walkSt)
			miss := d.pend != nil && x.label(k, s) < 0
			pos := w.posOf(at)
			switch {
			case d.pend != nil && !miss:
				c.bad(k, s, "unchecked:"+x.who, pos, x.who+" answers without knowing whether the label is the byte of the key")
			case x.list:
				if !miss && !x.over(k, s) && !x.full(k, s) {
					c.bad(k, s, "early:"+x.who, pos, x.who+" may stop although the key goes on")
				}
				x.listed0(k, s, pos)
			default:
				v, n, node := res[0], (*T)(nil), (*T)(nil)
				if len(res) == 2 {
					n = res[1]
				} else if tr != nil {
					tn := namedOf(tr.Elem())
					get := func(name string) *T {
						j := fieldNamed(tn, name)
						return k.load(s, k.fld(res[0], tn, j), c11st(tn).Field(j).Type())
					}
					v, n, node = get("Result"), get("Offset"), get("NodePosition")
				}
				hit := k.rangeOf(s, v).lo >= 0 || x.value(k, s, v)
				r.count("answers", 1)
				switch {
				case miss || !x.over(k, s):
					if !miss {
						c.bad(k, s, "early:"+x.who, pos, x.who+" may answer although the key goes on")
					}
					if k.rangeOf(s, v).hi >= 0 {
						c.bad(k, s, "found:"+x.who, pos, fmt.Sprintf("%s must not find a key that is not in the trie, but answers %s", x.who, v))
					}
				case x.leaf(k, s) < 0:
					if k.rangeOf(s, v).hi >= 0 {
						c.bad(k, s, "found:"+x.who, pos, fmt.Sprintf("%s must not find a key without a value, but answers %s", x.who, v))
					}
				case x.leaf(k, s) > 0 && x.value(k, s, v):
					if n == nil || k.equal(s, n, d.i) != 1 && k.equal(s, n, x.end(s)) != 1 {
						c.bad(k, s, "length:"+x.who, pos, fmt.Sprintf("%s must answer the length matched, but answers %s", x.who, n))
					}
				default:
					c.bad(k, s, "value:"+x.who, pos, fmt.Sprintf("%s must answer the value of the node it has reached, but answers %s", x.who, v))
				}
				_ = hit
				if node != nil {
					if !x.is(k, s, node, rolePos) && node != d.p {
						c.bad(k, s, "node:"+x.who, pos, fmt.Sprintf("%s must answer the node it has reached (%s), but answers %s", x.who, d.p, node))
					}
					if k.equal(s, n, d.i) != 1 && !(x.over(k, s) && !miss && k.equal(s, n, x.end(s)) == 1) {
						c.bad(k, s, "reached:"+x.who, pos, fmt.Sprintf("%s must answer how far the key was matched (%s), but answers %s", x.who, d.i, n))
					}
				}
			}
		})
	}
	c.iterator()
	r.floor("searches", 3)
	r.floor("steps to a child", 4)
	r.floor("values read", 4)
	r.floor("answers", 4)
	r.floor("rounds of searches", 3)
}

func namedOfRecv(f *ssa.Function) *types.Named {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	return namedOf(f.Signature.Recv().Type())
}

// listed0: at the end, the round that was not finished.
func (x *c11walk) listed0(k *ai, s *astate, at string) {
	d := s.data.(*walkSt)
	if d.apps > 0 {
		x.listed(k, s, at)
	}
}

// iterFields finds out the roles of the iterator's fields from the function
// that makes one.
func (c *c11) iterFields() {
	w, r := c.w, c.r
	st := c11st(c.iter)
	c.fPos = oneField(c.iter, "the position", func(t types.Type) bool { return isBasic(t, types.Uint32) })
	c.fKey = oneField(c.iter, "the key", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint8) })
	c.fArr = oneField(c.iter, "the units", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	c.fOff, c.fVal, c.fLen = -1, -1, -1
	dst := c11st(c.da)
	fArr := oneField(c.da, "the units", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != c.da || f.Signature.Results().Len() != 1 || namedOf(f.Signature.Results().At(0).Type()) != c.iter || f.Synthetic != "" {
			continue
		}
		x := &c11walk{c11: c, f: f, who: w.fname(f)}
		r.oblige("start of " + x.who)
		var k0 *ai
		x.array = func(s *astate) *T {
			return k0.load(s, k0.fld(k0.val(s, s.stack[0], f.Params[0]), c.da, fArr), dst.Field(fArr).Type())
		}
		var key, off *ssa.Parameter
		for _, p := range f.Params[1:] {
			if isInteger(p.Type()) {
				off = p
			} else {
				key = p
			}
		}
		x.key = func(s *astate) *T { return k0.val(s, s.stack[0], key) }
		x.end = func(s *astate) *T { return k0.lenOf(s, x.key(s)) }
		x.run(func(k *ai, s *astate, d *walkSt) {
			k0 = k
			d.p, d.i = k.num(0), k.val(s, s.top(), off)
		}, func(k *ai, s *astate, at ssa.Instruction, res []*T) {
			get := func(j int) *T { return k.load(s, k.fld(res[0], c.iter, j), st.Field(j).Type()) }
			if !x.is(k, s, get(c.fPos), roleApplied) {
				c.bad(k, s, "start:"+x.who, w.posOf(at), fmt.Sprintf("%s must start at the children of the root, but starts at %s", x.who, get(c.fPos)))
			}
			if get(c.fKey) != x.key(s) || get(c.fArr) != x.array(s) {
				c.bad(k, s, "startkey:"+x.who, w.posOf(at), x.who+" makes an iterator over another key or trie than it was asked for")
			}
			for _, j := range fieldsOf(c.iter, func(t types.Type) bool { return isBasic(t, types.Int) }) {
				switch n, isN := get(j).intVal(); {
				case get(j) == k.val(s, s.stack[0], off):
					c.fOff = j
				case isN && n == -1:
					c.fVal = j
				default:
					c.fLen = j
				}
			}
		})
	}
	if c.fOff < 0 || c.fVal < 0 || c.fLen < 0 {
		c.bad(nil, nil, "iterfields", w.pos(c.iter.Obj().Pos()), "an iterator must be made with the offset asked for and without a cached answer")
	}
}

// iterator: Next and Get hand out the values along the key, in order, each once.
func (c *c11) iterator() {
	w, r := c.w, c.r
	if c.fOff < 0 || c.fVal < 0 || c.fLen < 0 {
		return
	}
	st := c11st(c.iter)
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != c.iter || !isExportedAPI(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		uses := false
		for g := range w.reachable([]*ssa.Function{f}) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ia, ok := in.(*ssa.IndexAddr); ok && isBasic(elemType(ia.X.Type()), types.Uint32) {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		x := &c11walk{c11: c, f: f, who: w.fname(f), itSelf: f.Params[0]}
		r.oblige("walk of " + x.who)
		r.count("searches", 1)
		var k0 *ai
		fld := func(s *astate, j int) *T {
			return k0.load(s, k0.fld(k0.val(s, s.stack[0], f.Params[0]), c.iter, j), st.Field(j).Type())
		}
		x.key = func(s *astate) *T { return fld(s, c.fKey) }
		x.array = func(s *astate) *T { return fld(s, c.fArr) }
		x.end = func(s *astate) *T { return k0.lenOf(s, x.key(s)) }
		var v0, n0, o0 *T
		x.run(func(k *ai, s *astate, d *walkSt) {
			k0 = k
			d.p = k.sym("node", types.Typ[types.Uint32])
			d.i = fld(s, c.fOff)
			u := x.unit(k, d.p)
			off := k.op("<<", u.typ, k.op(">>", u.typ, u, k.num(10)), k.op(">>", u.typ, k.op("&", u.typ, u, k.num(512)), k.num(6)))
			s.mem[k.fld(k.val(s, s.top(), f.Params[0]), c.iter, c.fPos)] = k.op("^", u.typ, d.p, off)
			v0, n0, o0 = fld(s, c.fVal), fld(s, c.fLen), d.i
		}, func(k *ai, s *astate, at ssa.Instruction, res []*T) {
			d := s.data.(*walkSt)
			pos := w.posOf(at)
			miss := d.pend != nil && x.label(k, s) < 0
			// what is handed out, and what is kept
			v, n := fld(s, c.fVal), fld(s, c.fLen)
			isGet := len(res) == 2
			r.count("answers", 1)
			walked := d.pend != nil || d.i != o0 || k.truth(s, k.eq(v0, k.num(-1))) == 1
			if !walked {
				cached := k.truth(s, k.eq(v0, k.num(-1))) == -1
				switch {
				case isGet && (res[0] != v0 || res[1] != n0 || !cached):
					c.bad(k, s, "cached:"+x.who, pos, x.who+" does not hand out the answer it has kept")
				case isGet && k.equal(s, v, k.num(-1)) != 1:
					c.bad(k, s, "again:"+x.who, pos, x.who+" hands out an answer and keeps it")
				case !isGet && (v != v0 || n != n0):
					c.bad(k, s, "changed:"+x.who, pos, x.who+" changes the answer it has kept")
				case !isGet && cached && len(res) == 1 && k.truth(s, res[0]) != 1 && k.nonNilErr(s, x, c) != 1:
					c.bad(k, s, "kept:"+x.who, pos, x.who+" does not announce the answer it has kept")
				}
				return
			}
			if isGet {
				if k.equal(s, v, k.num(-1)) != 1 {
					c.bad(k, s, "again:"+x.who, pos, x.who+" hands out an answer and keeps it")
				}
				v, n = res[0], res[1]
			}
			if k.truth(s, k.eq(v0, k.num(-1))) != 1 {
				c.bad(k, s, "over:"+x.who, pos, x.who+" looks for another answer while it keeps one")
			}
			if d.pend != nil && !miss {
				c.bad(k, s, "unchecked:"+x.who, pos, x.who+" answers without knowing whether the label is the byte of the key")
				return
			}
			none := k.equal(s, v, k.num(-1)) == 1
			if !isGet && len(res) == 1 {
				if t := k.truth(s, res[0]); none && t != -1 || !none && x.value(k, s, v) && t == -1 {
					c.bad(k, s, "says:"+x.who, pos, x.who+" does not say whether there is another answer")
				}
			}
			off := fld(s, c.fOff)
			switch {
			case miss:
				if !none {
					c.bad(k, s, "found:"+x.who, pos, fmt.Sprintf("%s must not find anything past a byte the trie does not have, but answers %s", x.who, v))
				}
				if k.rangeOf(s, k.sub(x.end(s), off)).hi > 0 {
					c.bad(k, s, "goeson:"+x.who, pos, x.who+" may go on after a byte the trie does not have")
				}
				return
			case d.i != o0 && x.leaf(k, s) > 0 && x.value(k, s, v):
				if k.equal(s, n, d.i) != 1 {
					c.bad(k, s, "length:"+x.who, pos, fmt.Sprintf("%s must answer the position after the last byte matched, but answers %s", x.who, n))
				}
			case x.over(k, s):
				// the round before has seen to the node itself
				if !none {
					c.bad(k, s, "value:"+x.who, pos, fmt.Sprintf("%s has reached the end of the key and answers %s", x.who, v))
				}
			default:
				c.bad(k, s, "early:"+x.who, pos, fmt.Sprintf("%s may answer %s although the key goes on", x.who, v))
			}
			if k.equal(s, off, d.i) != 1 && !(none && x.over(k, s)) {
				c.bad(k, s, "offset:"+x.who, pos, fmt.Sprintf("%s leaves the iterator at %s instead of %s", x.who, off, d.i))
			}
			if !x.is(k, s, fld(s, c.fPos), roleApplied) {
				c.bad(k, s, "position:"+x.who, pos, x.who+" does not leave the iterator at the children of the node it has reached")
			}
		})
	}
}

// nonNilErr: the iterator is known to have failed.
func (k *ai) nonNilErr(s *astate, x *c11walk, c *c11) int {
	st := c11st(c.iter)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == "error" {
			return k.nonNil(s, k.load(s, k.fld(k.val(s, s.stack[0], x.itSelf), c.iter, i), st.Field(i).Type()))
		}
	}
	return 0
}
