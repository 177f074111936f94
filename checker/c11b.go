package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// What the builder writes.

type buStep struct{ p, o *T } // the unit at p was given the offset o

type buSt struct {
	step        *buStep
	leaf, value int
	since       map[*ssa.BasicBlock]int // units of children since the head of a loop
	calls       map[*ssa.BasicBlock]int // descents since the head of a loop
	apps        map[*ssa.BasicBlock]int // labels listed
	no          map[string][]*T         // extra units of which a flag is known not to be set
	used        *T                      // the offset marked as used
	usedFld     string
	child       int // units of children in all
	tab         *T  // what was found in the table
	tabAt       *T
	kept        []buStep // what was stored in the table
	walk        map[*ssa.BasicBlock]*ssa.Phi
	walkOf      map[*ssa.BasicBlock]*T
	count, node map[*ssa.BasicBlock]*T
}

type c11bu struct {
	*c11
	f    *ssa.Function
	who  string
	rec  map[*ssa.Function]bool
	dawg *types.Named
	bv   *types.Named
	ext  *types.Named

	fUnits, fLabels, fTable, fExtras int

	most, least map[*ssa.BasicBlock]int
	fills       map[string]bool
	useds       map[string]bool
}

// ofType: is the address inside an object of one of the types (or of a slice a
// field of it holds)?
func ofField(a *T, in func(n *types.Named) bool) bool {
	for a != nil {
		switch a.op {
		case "idx", "load", "slice":
			a = a.args[0]
			continue
		case "fld":
			if a.args[0].typ != nil {
				if n := namedOf(a.args[0].typ); n != nil && in(n) {
					return true
				}
			}
			a = a.args[0]
			continue
		}
		return false
	}
	return false
}

// elemOfField: a is the address of an element of the slice in field i of the
// builder.
func (x *c11bu) elemOf(k *ai, a *T, n *types.Named, i int, in ssa.Instruction) (*T, bool) {
	if a.op != "idx" {
		return nil, false
	}
	var at ssa.Value
	switch in := in.(type) {
	case *ssa.Store:
		at = in.Addr
	case *ssa.UnOp:
		at = in.X
	}
	if ia, ok := at.(*ssa.IndexAddr); ok && usesField(ia.X, n, i) {
		return a.args[1], true
	}
	b := a.args[0]
	for b.op == "slice" {
		b = b.args[0]
	}
	if b.op == "load" && b.args[0].op == "fld" && b.args[0].s == x.cls(k, n, i) {
		return a.args[1], true
	}
	return nil, false
}

func (x *c11bu) cls(k *ai, n *types.Named, i int) string {
	return k.fld(k.sym("any", types.NewPointer(n)), n, i).s
}

func (x *c11bu) env(k *ai, s *astate) (*xenv, []xvec, bool) {
	return k.xknow(s, func(a xatom) bool {
		t := a.src
		if t.typ == nil || !isInteger(t.typ) {
			return false
		}
		if intSize(t.typ) == 8 && a.n >= 29 {
			return true // there are less than 2^29 units
		}
		return t.op == "len" && a.n < 8 // and they come in whole blocks
	}, nil)
}

func (x *c11bu) raw(k *ai) *xenv {
	return &xenv{k: k, atoms: map[xatom]bool{}, eqs: map[xatom]xbit{}, memo: map[*T]*xvec{}}
}

// extra: the unit a flag of the extra units is about.
func (x *c11bu) extra(k *ai, a *T) (id *T, fld string, ok bool) {
	if a.op != "fld" || a.args[0].op != "idx" || !isBoolT(k, a) {
		return nil, "", false
	}
	n := namedOf(a.args[0].typ)
	if n == nil || n != x.ext {
		return nil, "", false
	}
	i := a.args[0].args[1]
	if (i.op == "%" || i.op == "&") && len(i.args) == 2 {
		if _, isN := i.args[1].intVal(); isN {
			return i.args[0], a.s, true
		}
		if _, isN := i.args[0].intVal(); isN {
			return i.args[1], a.s, true
		}
	}
	return i, a.s, true
}

func isBoolT(k *ai, a *T) bool {
	p, ok := a.typ.Underlying().(*types.Pointer)
	return ok && isBasic(p.Elem(), types.Bool)
}

func (c *c11) builder() {
	w, r := c.w, c.r
	defer c.flush()
	x := &c11bu{c11: c, dawg: w.typ("dartsclone", "dawgBuilder"), bv: w.typ("dartsclone", "bitVector"), fills: map[string]bool{}, useds: map[string]bool{}}
	st := c11st(c.dab)
	x.fUnits = oneField(c.dab, "the units", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	x.fLabels = oneField(c.dab, "the labels", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint8) })
	x.fTable = oneField(c.dab, "the table", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int) })
	x.fExtras = oneField(c.dab, "the extra units", func(t types.Type) bool {
		e := sliceOfT(t)
		if e == nil {
			return false
		}
		_, ok := e.Underlying().(*types.Struct)
		return ok
	})
	x.ext = namedOf(sliceOfT(st.Field(x.fExtras).Type()))

	// The functions that write units, and of these the ones to start from: the
	// ones that call themselves, and the ones nobody else would bring in.
	k := newAI(w, aclient{})
	unitCls := "[]" + types.TypeString(types.Typ[types.Uint32], nil)
	writes := map[*ssa.Function]bool{}
	direct := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if !w.inModule(f) || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if ia, ok := s.Addr.(*ssa.IndexAddr); ok && isBasic(elemType(ia.X.Type()), types.Uint32) && usesField(ia.X, c.dab, x.fUnits) {
						direct[f] = true
					}
				}
			}
		}
	}
	for _, f := range w.allFns {
		if !w.inModule(f) || f.Synthetic != "" || len(f.Blocks) == 0 || !k.storedClasses(f)[unitCls] {
			continue
		}
		for g := range w.reachable([]*ssa.Function{f}) {
			writes[f] = writes[f] || direct[g]
		}
	}
	x.rec = map[*ssa.Function]bool{}
	calls := func(f, g *ssa.Function) bool {
		for _, h := range calledBy(w, f) {
			if h == g {
				return true
			}
		}
		return false
	}
	for f := range writes {
		for _, g := range calledBy(w, f) {
			if w.reachable([]*ssa.Function{g})[f] {
				x.rec[f] = true
			}
		}
	}
	var starts []*ssa.Function
	for f := range writes {
		self := calls(f, f)
		caller := false
		for g := range writes {
			caller = caller || g != f && g.Pkg == f.Pkg && calls(g, f)
		}
		if f.Pkg == nil || f.Pkg.Pkg != c.dab.Obj().Pkg() {
			continue
		}
		if self || direct[f] && x.rec[f] || !caller {
			starts = append(starts, f)
		}
	}
	sort.Slice(starts, func(i, j int) bool { return w.fname(starts[i]) < w.fname(starts[j]) })
	for _, f := range starts {
		x.f, x.who = f, w.fname(f)
		r.oblige("units written by " + x.who)
		x.once(writes)
	}
	if len(x.useds) != 1 {
		c.bad(nil, nil, "used", w.pos(c.dab.Obj().Pos()), "the offset the children of a unit were given must be marked as used")
	}
	for u := range x.fills {
		if !x.useds[u] {
			c.bad(nil, nil, "fillfree", w.pos(c.dab.Obj().Pos()), "the units nobody uses must be given labels no search can ask for: of an offset that is not used")
		}
	}
	r.floor("offsets written", 2)
	r.floor("labels written", 2)
	r.floor("values written", 1)
	r.floor("leaf flags written", 2)
	r.floor("descents", 1)
	r.floor("units filled up", 1)
}

func usesField(v ssa.Value, n *types.Named, i int) bool {
	for {
		switch y := v.(type) {
		case *ssa.UnOp:
			v = y.X
			continue
		case *ssa.Slice:
			v = y.X
			continue
		case *ssa.FieldAddr:
			return namedOf(y.X.Type()) == n && y.Field == i
		}
		return false
	}
}

// byteOf: the atom a vector of eight bits is made of.
func byteAtom(v xvec) (*T, bool) {
	if len(v[0].as) != 1 || v[0].one {
		return nil, false
	}
	src := v[0].as[0].src
	for j := range v {
		if j >= 8 {
			if !v[j].isConst() || v[j].one {
				return nil, false
			}
			continue
		}
		if !v[j].same(xbit{as: []xatom{{src, int8(j)}}}) {
			return nil, false
		}
	}
	return src, true
}

func (e *xenv) zeroVec(v xvec) bool {
	for i := range v {
		if b := e.bit(v[i]); !b.isConst() || b.one {
			return false
		}
	}
	return true
}

// node: the node of the DAWG whose label t is.
func (x *c11bu) nodeOf(k *ai, t *T) *T {
	if t != nil && t.op == "load" && t.args[0].op == "idx" {
		a := t.args[0]
		if ofField(a, func(n *types.Named) bool { return n == x.dawg }) && isBasic(elemType(a.args[0].typ), types.Uint8) {
			return a.args[1]
		}
	}
	return nil
}

func (x *c11bu) dawgUnit(k *ai, s *astate, t *T) *T {
	// the node whose unit t is
	if t != nil && t.op == "load" && t.args[0].op == "idx" {
		a := t.args[0]
		if ofField(a, func(n *types.Named) bool { return n == x.dawg }) && isBasic(elemType(a.args[0].typ), types.Uint32) {
			return a.args[1]
		}
	}
	return nil
}

// first: t is the first child of node q of the DAWG.
func (x *c11bu) first(k *ai, s *astate, t *T) *T {
	v := x.raw(k).val(t)
	if len(v[0].as) != 1 {
		return nil
	}
	src := v[0].as[0].src
	q := x.dawgUnit(k, s, src)
	if q == nil {
		return nil
	}
	for j := range v {
		want := xbit{}
		if j < 30 {
			want = xbit{as: []xatom{{src, int8(j + 2)}}}
		}
		if !v[j].same(want) {
			return nil
		}
	}
	return q
}

func (x *c11bu) once(writes map[*ssa.Function]bool) {
	w, c, f := x.w, x.c11, x.f
	k := newAI(w, aclient{})
	debug := os.Getenv("VP_DEBUG") != ""
	x.most, x.least = map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]int{}
	where := map[*ssa.BasicBlock]string{}
	cpm := func(m map[*ssa.BasicBlock]int) map[*ssa.BasicBlock]int {
		n := map[*ssa.BasicBlock]int{}
		for a, b := range m {
			n[a] = b
		}
		return n
	}
	cpt := func(m map[*ssa.BasicBlock]*T) map[*ssa.BasicBlock]*T {
		n := map[*ssa.BasicBlock]*T{}
		for a, b := range m {
			n[a] = b
		}
		return n
	}
	k.cl.clone = func(d any) any {
		n := *d.(*buSt)
		n.since, n.calls, n.apps = cpm(n.since), cpm(n.calls), cpm(n.apps)
		no := map[string][]*T{}
		for a, b := range n.no {
			no[a] = append([]*T(nil), b...)
		}
		n.no = no
		n.kept = append([]buStep(nil), n.kept...)
		wk := map[*ssa.BasicBlock]*ssa.Phi{}
		for a, b := range n.walk {
			wk[a] = b
		}
		n.walk, n.walkOf, n.count, n.node = wk, cpt(n.walkOf), cpt(n.count), cpt(n.node)
		return &n
	}
	k.cl.key = func(d any) string {
		n := d.(*buSt)
		o := "-"
		if n.step != nil {
			o = fmt.Sprint(n.step.p.id, n.step.o.id)
		}
		return fmt.Sprint(o, n.leaf, n.value, n.child, n.used != nil, n.tab != nil, len(n.kept))
	}
	k.keepFact = func(s *astate, t *T) bool {
		return t.typ == nil || isInteger(t.typ) || isBasic(t.typ, types.Bool)
	}
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee == nil || !w.inModule(callee) {
			return nil, false, true
		}
		onStack := false
		for _, g := range s.stack {
			onStack = onStack || g.fn == callee
		}
		d := s.data.(*buSt)
		if writes[callee] {
			// a function that is looked at on its own, or is under way
			if x.rec[callee] && (onStack || callsItself(w, callee)) {
				if callsItself(w, callee) {
					x.descend(k, s, ci, callee, args, onStack)
				}
				step, tab, no := d.step, d.tab, d.no
				_ = no
				res := k.opaque(s, s.top(), ci, callee, args)
				d.step, d.tab = step, tab
				for h := range d.calls {
					d.calls[h]++
				}
				return res, true, false
			}
			return nil, false, true
		}
		st := k.storedClasses(callee)
		own := false
		for _, n := range []*types.Named{c.dab, x.ext} {
			for i := 0; i < c11st(n).NumFields(); i++ {
				own = own || st[x.cls(k, n, i)]
			}
		}
		if len(st) > 0 && !own {
			return k.opaque(s, s.top(), ci, callee, args), true, false
		}
		return nil, false, true
	}
	k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
		var t types.Type
		if v, ok := in.(ssa.Value); ok {
			t = v.Type()
		}
		if t == nil {
			return nil
		}
		d := s.data.(*buSt)
		if ofField(a, func(n *types.Named) bool { return n == x.dawg || n == x.bv }) && x.rec[f] {
			// nothing here changes the DAWG (stores to it are reported)
			if _, isS := t.Underlying().(*types.Struct); !isS {
				return k.mk(&T{op: "load", s: "dawg", typ: t, args: []*T{a}})
			}
		}
		if i, ok := x.elemOf(k, a, c.dab, x.fTable, in); ok {
			v := k.load(s, a, t)
			if d.tab == nil || d.tabAt != i {
				d.tab, d.tabAt = v, i
			}
			return v
		}
		if i, ok := x.elemOf(k, a, c.dab, x.fLabels, in); ok {
			// the i-th label is that of the i-th child
			fr := s.top()
			for h, p := range d.walk {
				if p.Parent() == fr.fn && k.loop(h)[in.Block()] && d.count[h] == i {
					n := d.node[h]
					if la := x.labelAddr(k, s, n); la != nil {
						c.r.count("labels matched with nodes", 1)
						return la
					}
				}
			}
		}
		return nil
	}
	k.cl.branch = func(k *ai, s *astate, cond *T, taken bool, in *ssa.If) bool {
		for cond.op == "!" {
			cond, taken = cond.args[0], !taken
		}
		d := s.data.(*buSt)
		if cond.op == "load" && !taken {
			if id, fld, ok := x.extra(k, cond.args[0]); ok {
				d.no[fld] = append(d.no[fld], id)
			}
		}
		return true
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		d := s.data.(*buSt)
		if x.rec[f] && ofField(a, func(n *types.Named) bool { return n == x.dawg || n == x.bv }) {
			c.bad(k, s, "dawg:"+x.who, w.posOf(in), x.who+" changes the DAWG while it is read")
			return
		}
		if id, fld, ok := x.extra(k, a); ok {
			if b := k.truth(s, v); b == 1 && d.step != nil {
				e, _, feas := x.env(k, s)
				if feas && e.zeroVec(e.val(id).xor(e.val(d.step.p)).xor(e.val(d.step.o))) {
					d.used, d.usedFld = id, fld
				}
			}
			return
		}
		if i, ok := x.elemOf(k, a, c.dab, x.fTable, in); ok {
			x.keep(k, s, i, v, in)
			return
		}
		p, ok := x.elemOf(k, a, c.dab, x.fUnits, in)
		if !ok {
			return
		}
		if isBasic(elemType(a.args[0].typ), types.Uint32) {
			x.unit(k, s, a, p, v, in)
		}
	}
	k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
		if ms, ok := in.(*ssa.MakeSlice); ok && isBasic(elemType(ms.Type()), types.Uint32) {
			n := k.val(s, s.top(), ms.Len)
			e, _, feas := x.env(k, s)
			if feas {
				v := e.val(n)
				for j := 0; j < 8; j++ {
					if !v[j].isConst() || v[j].one {
						c.bad(k, s, "block:"+x.who, w.posOf(in), fmt.Sprintf("%s makes a number of units (%s) that is not known to be whole blocks: offsets are found modulo the block", x.who, n))
						break
					}
				}
			}
			c.r.count("blocks made", 1)
		}
		cl, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		if b, ok := cl.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" || !isBasic(elemType(cl.Type()), types.Uint8) {
			return
		}
		d := s.data.(*buSt)
		for h := range d.apps {
			d.apps[h]++
		}
		y := k.val(s, s.top(), cl.Call.Args[1])
		if n, ok := k.lenOf(s, y).intVal(); !ok || n != 1 {
			return
		}
		e := k.elemAt(s, y, k.num(0))
		for h, p := range d.walk {
			if p.Parent() == s.top().fn && k.loop(h)[in.Block()] {
				if x.nodeOf(k, e) != d.node[h] {
					c.bad(k, s, "listed:"+x.who, w.posOf(in), fmt.Sprintf("%s must list the label of the child it has come to, but lists %s", x.who, e))
				}
			}
		}
	}
	k.cl.pre = func(k *ai, s *astate, h *ssa.BasicBlock, pred int) {
		d := s.data.(*buSt)
		delete(d.walk, h)
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInteger(phi.Type()) {
				continue
			}
			t := k.val(s, s.top(), phi.Edges[pred])
			if q := x.first(k, s, t); q != nil {
				d.walk[h], d.walkOf[h] = phi, q
			}
		}
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*buSt)
		d.since[h], d.calls[h], d.apps[h] = 0, 0, 0
		d.count[h] = x.counter(k, s, h)
		if p := d.walk[h]; p != nil {
			d.node[h] = k.val(s, s.top(), p)
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*buSt)
		fr := s.top()
		_, _, feas := x.env(k, s)
		if !feas {
			return
		}
		n := d.since[h]
		if n > x.most[h] {
			x.most[h] = n
		}
		if m, ok := x.least[h]; !ok || n < m {
			x.least[h] = n
			where[h] = w.pos(h.Parent().Pos())
		}
		if d.leaf != d.value {
			c.bad(k, s, "leafvalue:"+x.who, w.pos(fr.fn.Pos()), x.who+" must give a unit the flag that it has a value exactly when it writes the value")
		}
		if p := d.walk[h]; p != nil {
			var nx *T
			for i, q := range h.Preds {
				if q == fr.pred {
					nx = k.val(s, fr, p.Edges[i])
				}
			}
			cur := d.node[h]
			if !x.sibling(k, s, cur, nx) {
				c.bad(k, s, "sibling:"+x.who, w.pos(fr.fn.Pos()), fmt.Sprintf("%s must go on with the next sibling of %s, but goes on with %s", x.who, cur, nx))
			}
			if d.calls[h] == 0 && x.recursesIn(h, k) && x.labelZero(k, s, cur) != 1 {
				c.bad(k, s, "descend:"+x.who, w.pos(fr.fn.Pos()), x.who+" passes over a child without looking at its children, although its label may be other than 0")
			}
		}
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		if _, _, feas := x.env(k, s); !feas {
			return
		}
		d := s.data.(*buSt)
		x.done(k, s, at)
		_ = d
	}
	k.run(f, func(s *astate) {
		s.data = &buSt{since: map[*ssa.BasicBlock]int{}, calls: map[*ssa.BasicBlock]int{}, apps: map[*ssa.BasicBlock]int{}, no: map[string][]*T{}, walk: map[*ssa.BasicBlock]*ssa.Phi{}, walkOf: map[*ssa.BasicBlock]*T{}, count: map[*ssa.BasicBlock]*T{}, node: map[*ssa.BasicBlock]*T{}}
	})
	for h, m := range x.most {
		if m > 0 && (m > 1 || x.least[h] != 1) {
			// a loop around another one may write many
			c.bad(nil, nil, "children:"+x.who, where[h], fmt.Sprintf("%s must write one unit for every child, but a round writes from %d to %d", x.who, x.least[h], m))
		}
	}
	if k.gaveUp {
		c.bad(nil, nil, "gaveup:"+x.who, w.pos(f.Pos()), x.who+" could not be analysed completely")
	}
	if debug {
		fmt.Fprintln(os.Stderr, "builder", x.who, "steps", k.steps)
	}
}

func calledBy(w *World, f *ssa.Function) (out []*ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, w.callees(ci)...)
			}
		}
	}
	return out
}

func callsItself(w *World, f *ssa.Function) bool {
	for _, g := range calledBy(w, f) {
		if g == f {
			return true
		}
	}
	return false
}

func (x *c11bu) recursesIn(h *ssa.BasicBlock, k *ai) bool {
	for b := range k.loop(h) {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == h.Parent() {
				return true
			}
		}
	}
	return false
}

// labelAddr: the label of node n of the DAWG.
func (x *c11bu) labelAddr(k *ai, s *astate, n *T) *T {
	// the labels are a field of the DAWG builder at hand
	fr := s.top()
	for _, f := range s.stack {
		for _, p := range f.fn.Params {
			if namedOf(p.Type()) == x.dawg {
				st := c11st(x.dawg)
				j := oneField(x.dawg, "the labels", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint8) })
				bt := elemType(st.Field(j).Type())
				b := k.mk(&T{op: "load", s: "dawg", typ: st.Field(j).Type(), args: []*T{k.fld(k.val(s, f, p), x.dawg, j)}})
				return k.mk(&T{op: "load", s: "dawg", typ: bt, args: []*T{k.idx(b, n, bt)}})
			}
		}
	}
	_ = fr
	return nil
}

func (x *c11bu) labelZero(k *ai, s *astate, n *T) int {
	l := x.labelAddr(k, s, n)
	if l == nil {
		return 0
	}
	r := k.rangeOf(s, l)
	switch {
	case r.lo == 0 && r.hi == 0:
		return 1
	case r.lo > 0:
		return -1
	}
	for _, n := range r.neq {
		if n == 0 {
			return -1
		}
	}
	return 0
}

// counter: what counts the rounds of the loop from 0.
func (x *c11bu) counter(k *ai, s *astate, h *ssa.BasicBlock) *T {
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		good, start := true, 0
		for e, p := range h.Preds {
			if k.loop(h)[p] {
				b, isB := phi.Edges[e].(*ssa.BinOp)
				good = good && isB && b.Op == token.ADD && (b.X == phi && isOne(b.Y) || b.Y == phi && isOne(b.X))
			} else {
				n, isN := constInt(phi.Edges[e])
				good = good && isN
				start = n
			}
		}
		if good {
			return k.sub(k.val(s, s.top(), phi), k.num(int64(start)))
		}
	}
	return nil
}

func isOne(v ssa.Value) bool {
	n, ok := constInt(v)
	return ok && n == 1
}

// sibling: nx is the next sibling of node cur.
func (x *c11bu) sibling(k *ai, s *astate, cur, nx *T) bool {
	e, _, ok := x.env(k, s)
	if !ok {
		return true
	}
	// the flag is bit 0 of the node's unit
	flag := xbit{unk: true}
	for t := range s.bnd {
		walkT(t, func(u *T) bool {
			if n := x.dawgUnit(k, s, u); n != nil && n == cur {
				flag = e.val(u)[0]
			}
			return true
		})
	}
	if !flag.isConst() {
		return false
	}
	if flag.one {
		return k.equal(s, nx, k.add(cur, k.num(1))) == 1
	}
	return k.equal(s, nx, k.num(0)) == 1
}

// unit: what is stored to the unit at p?
func (x *c11bu) unit(k *ai, s *astate, a, p, v *T, in ssa.Instruction) {
	c, w := x.c11, x.w
	e, _, ok := x.env(k, s)
	if !ok {
		return
	}
	d := s.data.(*buSt)
	old := k.load(s, a, types.Typ[types.Uint32])
	ov, nv := e.val(old), e.val(v)
	keeps := func(lo, hi int) bool {
		for j := lo; j <= hi; j++ {
			if !nv[j].same(ov[j]) {
				return false
			}
		}
		return true
	}
	bad := func(key, msg string) {
		c.bad(k, s, key+":"+x.who, w.posOf(in), fmt.Sprintf("%s stores %s to the unit at %s (%s before): %s", w.fname(in.Parent()), v, p, old, msg))
	}
	isTrue := func(b xbit) bool { return b.isConst() && b.one }
	isFalse := func(b xbit) bool { return b.isConst() && !b.one }
	child := func() {
		for h := range d.since {
			d.since[h]++
		}
		d.child++
	}
	// a whole value
	if isTrue(nv[31]) && !isTrue(ov[31]) {
		raw := x.raw(k).val(v)
		src, sh := (*T)(nil), int8(0)
		if len(raw[0].as) == 1 {
			src, sh = raw[0].as[0].src, raw[0].as[0].n
		}
		for j := 0; j < 31; j++ {
			if src == nil || !raw[j].same(xbit{as: []xatom{{src, sh + int8(j)}}}) {
				bad("value", fmt.Sprintf("bits 0 to 30 of the unit of a value must be the value, bit %d is not", j))
				return
			}
		}
		if d.step == nil {
			bad("nowhere", "it is not known whose value it is")
			return
		}
		if n := x.dawgUnit(k, s, src); n != nil {
			if sh != 1 {
				bad("value", "the value is not the one of the node")
			}
			if x.labelZero(k, s, n) != 1 {
				bad("notleaf", "the node is not known to have a value")
			}
		} else if sh != 0 {
			bad("value", "the value is not kept as it is")
		}
		if !e.zeroVec(e.val(p).xor(e.val(d.step.p)).xor(e.val(d.step.o))) {
			bad("valueat", fmt.Sprintf("the value of the unit at %s with offset %s belongs at their exclusive or", d.step.p, d.step.o))
		}
		d.value++
		child()
		c.r.count("values written", 1)
		return
	}
	if !keeps(31, 31) {
		bad("top", "whether it is the unit of a value changes")
		return
	}
	lab, leaf, off := !keeps(0, 7), !keeps(8, 8), !keeps(9, 30)
	switch {
	case !lab && !leaf && !off:
		// what is there already, or a value that is the same
		if e.zeroVec(nv) && ov.equal(nv) && len(d.since) == 0 {
			return
		}
		if leaf8 := nv[8]; isTrue(leaf8) {
			x.leafAt(k, s, e, p, bad)
			return
		}
		x.label(k, s, e, a, p, nv, bad, child)
	case lab && !leaf && !off:
		x.label(k, s, e, a, p, nv, bad, child)
	case leaf && !lab && !off:
		if !isTrue(nv[8]) {
			bad("leaf", "the flag that a unit has a value may not be taken back")
			return
		}
		x.leafAt(k, s, e, p, bad)
	case off && !lab && !leaf:
		// which offset?
		var o xvec
		switch {
		case isFalse(nv[9]):
			for j := 0; j < 21; j++ {
				o[j] = nv[10+j]
			}
		case isTrue(nv[9]):
			for j := 0; j < 21; j++ {
				o[8+j] = nv[10+j]
			}
		default:
			bad("form", "it is not known which of the two forms of an offset it has")
			return
		}
		t := x.offsetTerm(k, s, e, v, o)
		if t == nil {
			bad("offset", "the offset a search reads from it is not the one it was given")
			return
		}
		d.step = &buStep{p, t}
		c.r.count("offsets written", 1)
	default:
		bad("mixed", fmt.Sprintf("setting one part of a unit must leave the others as they are (label changed %v, flag %v, offset %v)", lab, leaf, off))
	}
}

func (x *c11bu) leafAt(k *ai, s *astate, e *xenv, p *T, bad func(key, msg string)) {
	d := s.data.(*buSt)
	d.leaf++
	x.c11.r.count("leaf flags written", 1)
	if d.step != nil && !e.zeroVec(e.val(p).xor(e.val(d.step.p))) {
		bad("leafat", fmt.Sprintf("the flag belongs to the unit at %s, whose child has the value", d.step.p))
	}
}

// offsetTerm finds the offset that was put into v: the term whose bits are o.
func (x *c11bu) offsetTerm(k *ai, s *astate, e *xenv, v *T, o xvec) *T {
	var found *T
	walkT(v, func(t *T) bool {
		if t.op == "load" {
			return false
		}
		if t.typ == nil || isInteger(t.typ) && intSize(t.typ) >= 4 {
			if found == nil && t != v && e.val(t).equal(o) {
				found = t
			}
		}
		return true
	})
	if found == nil {
		// known down to its bits
		n := int64(0)
		for j := range o {
			if !o[j].isConst() {
				return nil
			}
			if o[j].one {
				n |= 1 << uint(j)
			}
		}
		found = k.num(n)
	}
	return found
}

func (x *c11bu) label(k *ai, s *astate, e *xenv, a, p *T, nv xvec, bad func(key, msg string), child func()) {
	d := s.data.(*buSt)
	var l xvec
	copy(l[:8], nv[:8])
	at := e.val(p).xor(l)
	if d.step != nil && e.zeroVec(at.xor(e.val(d.step.p)).xor(e.val(d.step.o))) {
		x.c11.r.count("labels written", 1)
		if n := x.nodeOf(k, func() *T { t, _ := byteAtom(l); return t }()); n != nil && x.labelZero(k, s, n) != -1 {
			bad("islabel", "the child is not known to have a label other than 0")
		}
		child()
		return
	}
	if n, ok := p.intVal(); ok && n == 0 && e.zeroVec(l) {
		return // the root
	}
	// nobody's unit: the label must be of no use
	for fu, us := range d.no {
		for _, u := range us {
			for fx, xs := range d.no {
				if fx == fu {
					continue
				}
				for _, y := range xs {
					if y == p {
						v := e.val(p).xor(e.val(u))
						same := true
						for j := 0; j < 8; j++ {
							same = same && v[j].same(l[j])
						}
						if same {
							x.fills[fu] = true
							x.c11.r.count("units filled up", 1)
							return
						}
					}
				}
			}
		}
	}
	// a block without an unused offset has no unit to fill up
	v := e.val(p)
	same := true
	for j := 0; j < 8; j++ {
		same = same && v[j].same(l[j])
	}
	if same {
		for _, xs := range d.no {
			for _, y := range xs {
				if y == p {
					return
				}
			}
		}
	}
	bad("labelat", "a unit with this label is neither at the child by this label of the unit whose offset was set, nor is it known to be out of use")
}

// keep: an entry of the table of intersections.
func (x *c11bu) keep(k *ai, s *astate, i, v *T, in ssa.Instruction) {
	c, w := x.c11, x.w
	d := s.data.(*buSt)
	e, _, ok := x.env(k, s)
	if !ok {
		return
	}
	if d.step == nil || !e.zeroVec(e.val(v).xor(e.val(d.step.p)).xor(e.val(d.step.o))) {
		c.bad(k, s, "table:"+x.who, w.posOf(in), fmt.Sprintf("%s must keep where the children were put, but keeps %s", x.who, v))
	}
	if d.tabAt != nil && d.tabAt != i {
		c.bad(k, s, "tableat:"+x.who, w.posOf(in), fmt.Sprintf("%s looks for the children of a unit at %s and keeps them at %s", x.who, d.tabAt, i))
	}
	d.kept = append(d.kept, buStep{i, v})
	c.r.count("places of children kept", 1)
}

// descend: the children of a child are put in place.
func (x *c11bu) descend(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T, inner bool) {
	c, w := x.c11, x.w
	d := s.data.(*buSt)
	e, _, ok := x.env(k, s)
	if !ok {
		return
	}
	c.r.count("descents", 1)
	if !inner {
		// from the root
		zeros := 0
		for _, a := range args {
			if n, ok := a.intVal(); ok && n == 0 {
				zeros++
			}
		}
		if zeros == 0 {
			c.bad(k, s, "root:"+x.who, w.posOf(ci.(ssa.Instruction)), x.who+" must start from the root")
		}
		return
	}
	if d.step == nil {
		c.bad(k, s, "descend0:"+x.who, w.posOf(ci.(ssa.Instruction)), x.who+" goes to the children of a unit before it has placed them")
		return
	}
	// where the child was put
	at := -1
	for i, p := range s.stack[0].fn.Params {
		if k.val(s, s.stack[0], p) == d.step.p {
			at = i
		}
	}
	if at < 0 || at >= len(args) {
		c.bad(k, s, "descend1:"+x.who, w.posOf(ci.(ssa.Instruction)), x.who+" gives an offset to another unit than the one it was called for")
		return
	}
	lab := e.norm(e.val(args[at]).xor(e.val(d.step.p)).xor(e.val(d.step.o)))
	src, ok := byteAtom(lab)
	if !ok {
		c.bad(k, s, "descend2:"+x.who, w.posOf(ci.(ssa.Instruction)), fmt.Sprintf("%s goes to %s, which is not known to be a child by a byte", x.who, args[at]))
		return
	}
	if n := x.nodeOf(k, src); n != nil {
		found := false
		for i, a := range args {
			found = found || i != at && a == n
		}
		if !found {
			c.bad(k, s, "descend3:"+x.who, w.posOf(ci.(ssa.Instruction)), fmt.Sprintf("%s goes to the place of node %s for another node", x.who, n))
		}
	}
}

// done: a function is left.
func (x *c11bu) done(k *ai, s *astate, at ssa.Instruction) {
	c, w := x.c11, x.w
	d := s.data.(*buSt)
	if !callsItself(w, x.f) || d.step == nil {
		return
	}
	e, _, ok := x.env(k, s)
	if !ok {
		return
	}
	if len(at.(*ssa.Return).Results) > 0 {
		if last := at.(*ssa.Return).Results; last[len(last)-1].Type().String() == "error" {
			if k.nonNil(s, k.val(s, s.top(), last[len(last)-1])) == 1 {
				return
			}
		}
	}
	if k.val(s, s.stack[0], x.f.Params[0]) == nil {
		return
	}
	if d.used == nil {
		// children that are there already
		if d.tab == nil || !e.zeroVec(e.val(d.tab).xor(e.val(d.step.p)).xor(e.val(d.step.o))) {
			c.bad(k, s, "unused:"+x.who, w.posOf(at), fmt.Sprintf("%s gives a unit an offset that is neither marked as used nor kept as that of the same children", x.who))
			return
		}
		c.r.count("children shared", 1)
		// the unit has a value if the first child is one
		var first *T
		for _, p := range x.f.Params {
			_ = p
		}
		for t := range s.bnd {
			walkT(t, func(u *T) bool {
				if n := x.nodeOf(k, u); n != nil && x.first(k, s, n) != nil {
					first = n
				}
				return true
			})
		}
		switch {
		case first == nil:
			c.bad(k, s, "sharedleaf:"+x.who, w.posOf(at), x.who+" shares children without asking whether the first of them is a value")
		case x.labelZero(k, s, first) == 1 && d.leaf != 1, x.labelZero(k, s, first) == -1 && d.leaf != 0:
			c.bad(k, s, "sharedleaf:"+x.who, w.posOf(at), x.who+" must give a unit the flag that it has a value exactly if the first of the shared children is one")
		}
		return
	}
	x.useds[d.usedFld] = true
	if d.leaf != d.value {
		c.bad(k, s, "leafvalue:"+x.who, w.posOf(at), x.who+" must give a unit the flag that it has a value exactly when it writes the value")
	}
	if d.tabAt != nil && len(d.kept) == 0 {
		c.r.count("places not kept", 1)
	}
}

// ---- the DAWG -----------------------------------------------------------------

// dawg: what is written into the units of the DAWG is what the builder reads
// from them; the bits of the set of intersections likewise.
func (c *c11) dawg() {
	w, r := c.w, c.r
	defer c.flush()
	dawg, bv, node := w.typ("dartsclone", "dawgBuilder"), w.typ("dartsclone", "bitVector"), w.typ("dartsclone", "node")
	c.nodeUnits(node)
	c.dawgStores(dawg, node)
	c.bits(bv)
	r.floor("units of nodes composed", 4)
	r.floor("nodes stored", 1)
	r.floor("nodes compared", 1)
	r.floor("bits of the set", 64)
}

// nodeRoles tells the fields of a node apart: what it has for a child or value
// and whether it has a sibling, by the bits of its unit.
func (c *c11) nodeUnits(node *types.Named) {
	w, r := c.w, c.r
	st := c11st(node)
	fLabel := oneField(node, "the label", func(t types.Type) bool { return isBasic(t, types.Uint8) })
	fChild, fSib, fState := fieldNamed(node, "child"), fieldNamed(node, "hasSibling"), fieldNamed(node, "isState")
	n := 0
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != node || f.Synthetic != "" || f.Signature.Results().Len() != 1 || !isBasic(f.Signature.Results().At(0).Type().Underlying(), types.Uint32) {
			continue
		}
		n++
		who := w.fname(f)
		r.oblige("unit composed by " + who)
		k := newAI(w, aclient{})
		k.keep = true
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			r.count("units of nodes composed", 1)
			self := k.val(s, s.stack[0], f.Params[0])
			get := func(i int) *T { return k.load(s, k.fld(self, node, i), st.Field(i).Type()) }
			e, _, ok := k.xknow(s, nil, nil)
			if !ok {
				return
			}
			v := e.val(res[0])
			bad := func(bit int, what string) {
				c.bad(k, s, fmt.Sprintf("nodeunit%d:%s", bit, who), w.posOf(at), fmt.Sprintf("%s: bit %d of the unit must be %s", who, bit, what))
			}
			flag := func(bit, fld int, what string) {
				if fld < 0 {
					return
				}
				t := k.truth(s, get(fld))
				if t == 0 || !v[bit].isConst() || v[bit].one != (t == 1) {
					bad(bit, what)
				}
			}
			l := k.rangeOf(s, get(fLabel))
			first := 2
			switch {
			case l.lo == 0 && l.hi == 0:
				first = 1
			case l.lo > 0:
				flag(1, fState, "whether it is a state of the automaton")
			default:
				c.bad(k, s, "nodelabel:"+who, w.posOf(at), who+" composes a unit without asking whether the node has a value")
				return
			}
			flag(0, fSib, "whether there is a sibling")
			cv := e.val(get(fChild))
			for j := first; j < 32; j++ {
				if !v[j].same(cv[j-first]) {
					bad(j, fmt.Sprintf("bit %d of the child or value", j-first))
					return
				}
			}
		}
		k.run(f, func(s *astate) {})
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	if n == 0 {
		c.bad(nil, nil, "nounit", w.pos(node.Obj().Pos()), "nothing composes the unit of a node")
	}
}

// dawgStores: the unit and the label of a node are stored at one place, and
// nodes are taken for the same only if both are.
func (c *c11) dawgStores(dawg, node *types.Named) {
	w, r := c.w, c.r
	fLabel := oneField(node, "the label", func(t types.Type) bool { return isBasic(t, types.Uint8) })
	label := node.Underlying().(*types.Struct).Field(fLabel).Name()
	fUnits := oneField(dawg, "the units", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	fLabels := oneField(dawg, "the labels", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint8) })
	// of: the node whose label or unit t is: the unit is the result of the
	// function checked above, which is not looked into here
	isLabel := func(t *T) *T {
		if t.op == "load" && t.args[0].op == "fld" && t.args[0].args[0].typ != nil && namedOf(t.args[0].args[0].typ) == node {
			a := t.args[0]
			if fieldIs(a, label) {
				return a.args[0]
			}
		}
		return nil
	}
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != dawg || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		composes := false
		for _, g := range calledBy(w, f) {
			composes = composes || namedOfRecv(g) == node && g.Signature.Results().Len() == 1
		}
		if !composes {
			continue
		}
		who := w.fname(f)
		type pair struct{ at, node *T }
		type st struct{ us, ls []pair }
		k := newAI(w, aclient{})
		k.keep = true
		clone := func(d any) any {
			n := *d.(*st)
			n.us, n.ls = append([]pair(nil), n.us...), append([]pair(nil), n.ls...)
			return &n
		}
		k.cl.clone = clone
		k.cl.key = func(d any) string {
			n := d.(*st)
			return fmt.Sprint(len(n.us), len(n.ls))
		}
		k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee != nil && namedOfRecv(callee) == node && callee.Signature.Results().Len() == 1 {
				n := args[0]
				if isAllocT(n) {
					// a copy of a node
					var from *T
					stt := c11st(node)
					for i := 0; i < stt.NumFields(); i++ {
						v := k.load(s, k.fld(n, node, i), stt.Field(i).Type())
						if v.op != "load" || v.args[0].op != "fld" || from != nil && v.args[0] != k.fld(from, node, i) {
							from = n
							break
						}
						from = v.args[0].args[0]
						if v.args[0] != k.fld(from, node, i) {
							from = n
							break
						}
					}
					n = from
				}
				return []*T{k.mk(&T{op: "unitof", typ: callee.Signature.Results().At(0).Type(), args: []*T{n}})}, true, false
			}
			if callee != nil && w.inModule(callee) {
				return nil, false, len(k.storedClasses(callee)) == 0
			}
			return nil, false, true
		}
		x := &c11bu{c11: c}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			d := s.data.(*st)
			if i, ok := x.elemOf(k, a, dawg, fUnits, in); ok {
				if v.op != "unitof" {
					c.bad(k, s, "dawgunit:"+who, w.posOf(in), who+" stores other than the unit of a node")
					return
				}
				d.us = append(d.us, pair{i, v.args[0]})
			}
			if i, ok := x.elemOf(k, a, dawg, fLabels, in); ok {
				n := isLabel(v)
				if n == nil {
					c.bad(k, s, "dawglabel:"+who, w.posOf(in), who+" stores other than the label of a node")
					return
				}
				d.ls = append(d.ls, pair{i, n})
			}
		}
		check := func(k *ai, s *astate, at string) {
			d := s.data.(*st)
			if len(d.us) == 0 && len(d.ls) == 0 {
				return
			}
			if len(d.us) != 1 || len(d.ls) != 1 || d.us[0] != d.ls[0] {
				c.bad(k, s, "dawgpair:"+who, at, who+" must store the unit and the label of one node at one place")
			}
			r.count("nodes stored", 1)
			d.us, d.ls = nil, nil
		}
		compares := f.Signature.Results().Len() == 1 && isBasic(f.Signature.Results().At(0).Type(), types.Bool)
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) { check(k, s, w.pos(f.Pos())) }
		looked := map[*ssa.BasicBlock]bool{}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			check(k, s, w.pos(f.Pos()))
			if !compares {
				return
			}
			// a round that reads a node knows both to be the same
			var nodes []*T
			for t := range s.facts {
				walkT(t, func(u *T) bool {
					if u.op == "unitof" {
						nodes = append(nodes, u.args[0])
					}
					return true
				})
			}
			for t := range s.bnd {
				walkT(t, func(u *T) bool {
					if u.op == "unitof" {
						nodes = append(nodes, u.args[0])
					}
					return true
				})
			}
			if !looksAt(k, h, node) {
				return
			}
			looked[h] = true
			good := false
			for _, n := range nodes {
				good = good || c.sameNode(k, s, x, n, dawg, fUnits, fLabels, isLabel)
			}
			if !good {
				c.bad(k, s, "same:"+who, w.pos(f.Pos()), who+" goes on although the unit or the label of a node may be another one")
			}
			r.count("nodes compared", 1)
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how == aReturn {
				check(k, s, w.posOf(at))
			}
		}
		r.oblige("units stored or compared by " + who)
		k.run(f, func(s *astate) { s.data = &st{} })
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
		if compares && len(looked) == 0 {
			c.bad(nil, nil, "nocompare:"+who, w.pos(f.Pos()), who+" compares no nodes")
		}
	}
}

// looksAt: the loop composes the unit of a node.
func looksAt(k *ai, h *ssa.BasicBlock, node *types.Named) bool {
	for b := range k.loop(h) {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && namedOfRecv(g) == node {
					return true
				}
			}
		}
	}
	return false
}

func (c *c11) sameNode(k *ai, s *astate, x *c11bu, n *T, dawg *types.Named, fUnits, fLabels int, isLabel func(*T) *T) bool {
	us, ls := map[*T]bool{}, map[*T]bool{}
	look := func(t *T) {
		walkT(t, func(u *T) bool {
			if u.op != "load" || u.args[0].op != "idx" {
				return true
			}
			if i, ok := x.elemOf(k, u.args[0], dawg, fUnits, nil); ok && k.equal(s, u, k.mk(&T{op: "unitof", typ: types.Typ[types.Uint32], args: []*T{n}})) == 1 {
				us[i] = true
			}
			if i, ok := x.elemOf(k, u.args[0], dawg, fLabels, nil); ok {
				for l := range s.bnd {
					walkT(l, func(v *T) bool {
						if isLabel(v) == n && k.equal(s, u, v) == 1 {
							ls[i] = true
						}
						return true
					})
				}
			}
			return true
		})
	}
	for t := range s.bnd {
		look(t)
	}
	for t := range s.facts {
		look(t)
	}
	for i := range us {
		if ls[i] {
			return true
		}
	}
	return false
}

func fieldIs(a *T, name string) bool {
	n := namedOf(a.args[0].typ)
	return n != nil && len(a.s) > len(name) && a.s[len(a.s)-len(name)-1:] == "."+name
}

// sums of bits: what is known to be the sum of powers of two times bits.
type bitAt struct {
	a xatom
	p int // the power
}

type bitSum map[bitAt]bool

func (c *c11) sumOf(k *ai, t *T) (bitSum, bool) {
	if n, ok := t.intVal(); ok {
		if n == 0 {
			return bitSum{}, true
		}
		return nil, false
	}
	width := func(n int) int {
		w := 0
		for n > 0 {
			w++
			n >>= 1
		}
		return w
	}
	groups := func(b bitSum) (at []int, n map[int]int) {
		n = map[int]int{}
		for x := range b {
			if n[x.p] == 0 {
				at = append(at, x.p)
			}
			n[x.p]++
		}
		sort.Ints(at)
		return at, n
	}
	// no group runs into the next one
	apart := func(b bitSum, top int) bool {
		at, n := groups(b)
		for i, p := range at {
			end := top
			if i+1 < len(at) {
				end = at[i+1]
			}
			if p+width(n[p]) > end {
				return false
			}
		}
		return true
	}
	add := func(a, b bitSum) (bitSum, bool) {
		r := bitSum{}
		for x := range a {
			r[x] = true
		}
		for x := range b {
			if r[x] {
				return nil, false
			}
			r[x] = true
		}
		return r, apart(r, 32)
	}
	switch t.op {
	case "conv":
		return c.sumOf(k, t.args[0])
	case "lin":
		p := k.poly(t)
		if p.c0 != 0 {
			return nil, false
		}
		r := bitSum{}
		for a, n := range p.m {
			if n != 1 {
				return nil, false
			}
			b, ok := c.sumOf(k, a)
			if !ok {
				return nil, false
			}
			if r, ok = add(r, b); !ok {
				return nil, false
			}
		}
		return r, true
	case "+":
		a, ok := c.sumOf(k, t.args[0])
		if !ok {
			return nil, false
		}
		for _, u := range t.args[1:] {
			b, ok := c.sumOf(k, u)
			if !ok {
				return nil, false
			}
			if a, ok = add(a, b); !ok {
				return nil, false
			}
		}
		return a, true
	case ">>", "<<":
		a, ok := c.sumOf(k, t.args[0])
		m, isN := t.args[1].intVal()
		if !ok || !isN || !apart(a, 32) {
			return nil, false
		}
		if t.op == "<<" {
			m = -m
		}
		_, n := groups(a)
		r := bitSum{}
		for x := range a {
			p := x.p
			q := p - int(m)
			switch {
			case q >= 0 && q+width(n[p]) <= 32:
				r[bitAt{x.a, q}] = true
			case q+width(n[p]) <= 0, q >= 32:
			default:
				return nil, false
			}
		}
		return r, true
	case "&":
		if len(t.args) != 2 {
			return nil, false
		}
		for i := range t.args {
			m, isN := t.args[i].intVal()
			if !isN {
				continue
			}
			a, ok := c.sumOf(k, t.args[1-i])
			if !ok || !apart(a, 32) {
				return nil, false
			}
			_, n := groups(a)
			r := bitSum{}
			for x := range a {
				p := x.p
				in, out := true, true
				for j := p; j < p+width(n[p]); j++ {
					if m>>uint(j)&1 == 1 {
						out = false
					} else {
						in = false
					}
				}
				switch {
				case in:
					r[x] = true
				case !out:
					return nil, false
				}
			}
			return r, true
		}
		return nil, false
	}
	if t.typ != nil && isInteger(t.typ) && intSize(t.typ) == 4 {
		r := bitSum{}
		for j := 0; j < 32; j++ {
			r[bitAt{xatom{t, int8(j)}, j}] = true
		}
		return r, true
	}
	return nil, false
}

// bits: member n of the set is bit n%32 of word n/32, for asking, for putting
// in and for counting.
func (c *c11) bits(bv *types.Named) {
	w, r := c.w, c.r
	st := c11st(bv)
	fUnits := oneField(bv, "the words", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Uint32) })
	fRanks := oneField(bv, "the ranks", func(t types.Type) bool { e := sliceOfT(t); return e != nil && isBasic(e, types.Int) })
	asks, sets, ranks := 0, 0, 0
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != bv || f.Synthetic != "" || len(f.Blocks) == 0 || len(f.Params) < 2 || !isBasic(f.Params[1].Type(), types.Int) {
			continue
		}
		who := w.fname(f)
		r.oblige("bits of " + who)
		for n := int64(0); n < 64; n++ {
			k := newAI(w, aclient{})
			k.keep = true
			word := func(s *astate) *T {
				us := k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), bv, fUnits), st.Field(fUnits).Type())
				return k.idx(us, k.num(n/32), types.Typ[types.Uint32])
			}
			bad := func(s *astate, at ssa.Instruction, msg string) {
				c.bad(k, s, "bit:"+who, w.posOf(at), fmt.Sprintf("%s: member %d of the set is bit %d of word %d: %s", who, n, n%32, n/32, msg))
			}
			puts := 0
			k.cl.clone = nil
			k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
				if a != word(s) {
					bad(s, in, fmt.Sprintf("it stores to %s", a))
					return
				}
				puts++
				old := k.load(s, a, types.Typ[types.Uint32])
				e, _, ok := k.xknow(s, nil, nil)
				if !ok {
					return
				}
				ov, nv := e.val(old), e.val(v)
				want := 0
				if len(f.Params) > 2 {
					want = k.truth(s, k.val(s, s.stack[0], f.Params[2]))
				} else {
					want = 1
				}
				for j := 0; j < 32; j++ {
					if int64(j) == n%32 {
						if want == 0 || !nv[j].isConst() || nv[j].one != (want == 1) {
							bad(s, in, "it is not set to what it should be")
						}
					} else if !nv[j].same(ov[j]) {
						bad(s, in, fmt.Sprintf("bit %d changes too", j))
						return
					}
				}
			}
			k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
				if how != aReturn {
					return
				}
				r.count("bits of the set", 1)
				if len(res) == 0 {
					sets++
					return
				}
				e, _, ok := k.xknow(s, nil, nil)
				if !ok {
					return
				}
				if isBasic(f.Signature.Results().At(0).Type(), types.Bool) {
					asks++
					bit := xbit{as: []xatom{{k.load(s, word(s), types.Typ[types.Uint32]), int8(n % 32)}}}
					// the answer as a condition on that bit
					for _, v := range []bool{true, false} {
						s2 := s.clone(k)
						if !k.assume(s2, res[0], v) {
							continue
						}
						e2, _, ok := k.xknow(s2, nil, nil)
						if ok && !e2.bit(bit).isConst() || ok && e2.bit(bit).one != v {
							bad(s, at, fmt.Sprintf("it answers %s", res[0]))
							return
						}
					}
					_ = e
					return
				}
				ranks++
				rk := k.load(s, k.fld(k.val(s, s.stack[0], f.Params[0]), bv, fRanks), st.Field(fRanks).Type())
				base := k.load(s, k.idx(rk, k.num(n/32), types.Typ[types.Int]), types.Typ[types.Int])
				sum, ok := c.sumOf(k, k.sub(res[0], base))
				wd := k.load(s, word(s), types.Typ[types.Uint32])
				if ok {
					for j := int64(0); j < 32; j++ {
						if sum[bitAt{xatom{wd, int8(j)}, 0}] != (j <= n%32) {
							ok = false
						}
					}
					ok = ok && int64(len(sum)) == n%32+1
				}
				if !ok {
					bad(s, at, fmt.Sprintf("the members up to it are not what it counts: %s", res[0]))
				}
			}
			k.run(f, func(s *astate) { s.top().env[f.Params[1]] = k.num(n) })
			if k.gaveUp {
				c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
			}
			if f.Signature.Results().Len() == 0 && puts == 0 {
				c.bad(nil, nil, "put:"+who, w.pos(f.Pos()), who+" puts nothing into the set")
			}
			if len(c.found) > 20 {
				return
			}
		}
	}
	if asks == 0 || sets == 0 || ranks == 0 {
		c.bad(nil, nil, "nobits", w.pos(bv.Obj().Pos()), "the set of intersections must be asked, filled and counted")
	}
	// the ranks are the members of the words before
	c.ranks(bv, fUnits, fRanks)
}

func (c *c11) ranks(bv *types.Named, fUnits, fRanks int) {
	w, r := c.w, c.r
	n := 0
	for _, f := range w.allFns {
		f := f
		if namedOfRecv(f) != bv || f.Synthetic != "" || len(f.Blocks) == 0 || len(f.Params) != 1 {
			continue
		}
		x := &c11bu{c11: c}
		who := w.fname(f)
		type st struct{ base *T }
		k := newAI(w, aclient{})
		k.keep = true
		k.cl.clone = func(d any) any { n := *d.(*st); return &n }
		var cnt *T
		stt := c11st(bv)
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			i, ok := x.elemOf(k, a, bv, fRanks, in)
			if !ok {
				return
			}
			n++
			d := s.data.(*st)
			d.base = v
			_ = i
			cnt = i
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*st)
			if d.base == nil {
				return
			}
			r.count("words counted", 1)
			// what the next word starts from: this one's start and its members
			self := k.val(s, s.stack[0], f.Params[0])
			us := k.load(s, k.fld(self, bv, fUnits), stt.Field(fUnits).Type())
			wd := k.load(s, k.idx(us, cnt, types.Typ[types.Uint32]), types.Typ[types.Uint32])
			good := false
			cands := []*T{}
			for _, j := range fieldsOf(bv, func(t types.Type) bool { return isBasic(t, types.Int) }) {
				cands = append(cands, k.load(s, k.fld(self, bv, j), types.Typ[types.Int]))
			}
			for _, in := range h.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && isInteger(phi.Type()) {
					for e, p := range h.Preds {
						if p == s.top().pred {
							cands = append(cands, k.val(s, s.top(), phi.Edges[e]))
						}
					}
				}
			}
			for _, t := range cands {
				sum, ok := c.sumOf(k, k.sub(t, d.base))
				if !ok || len(sum) != 32 {
					continue
				}
				all := true
				for a := range sum {
					all = all && a.a.src == wd && a.p == 0
				}
				good = good || all
			}
			if !good {
				c.bad(k, s, "ranks:"+who, w.pos(f.Pos()), who+" must start each word with the number of members in the words before it")
			}
			d.base = nil
		}
		k.run(f, func(s *astate) { s.data = &st{} })
		if k.gaveUp {
			c.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
		}
	}
	if n == 0 {
		c.bad(nil, nil, "noranks", w.pos(bv.Obj().Pos()), "nothing counts the members of the set")
	}
}

func (e *xenv) norm(v xvec) xvec {
	for i := range v {
		v[i] = e.bit(v[i])
	}
	return v
}
