package main

// A path-sensitive (trace-partitioned) abstract interpreter over SSA, with
// inlining. Values are terms (term.go), memory is a map from address terms to
// contents with class-based invalidation, branches add interval and equality
// facts and are pruned when the facts decide them. A loop is entered once, in
// a state where everything it may change is unknown; the path ends at its
// back edge (a client may look at the induction step there) and goes on from
// the header's unknown state. Nothing is ever solved or executed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ival struct {
	lo, hi int64
	neq    []int64
}

var topIval = ival{lo: math.MinInt64, hi: math.MaxInt64}

type adefer struct {
	c    ssa.CallInstruction
	fv   *T
	args []*T
}

type aframe struct {
	fn      *ssa.Function
	fid     int
	blk     *ssa.BasicBlock
	pred    *ssa.BasicBlock
	idx     int
	call    ssa.CallInstruction
	ignore  bool
	defers  []adefer
	env     map[ssa.Value]*T
	generic map[*ssa.BasicBlock]bool
	unroll  map[*ssa.BasicBlock]int
	stamp   int
}

type astate struct {
	stack []*aframe
	mem   map[*T]*T
	ver   map[string]string // class -> version
	esc   map[*T]bool
	facts map[*T]bool
	bnd   map[*T]ival
	dead  map[*T]bool // map objects whose contents are not known completely
	data  any
	from  *astate
	note  string
}

func (s *astate) top() *aframe { return s.stack[len(s.stack)-1] }

type aexit int

const (
	aReturn aexit = iota
	aPanic
	aProcess // os.Exit
	aBack    // back edge of a generic loop
)

// aclient: all hooks are optional.
type aclient struct {
	// call may give the results of a call (handled), or say not to inline
	call func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) (res []*T, handled, inline bool)
	// load may give what is loaded from an address
	load func(k *ai, s *astate, addr *T, in ssa.Instruction) *T
	// store is told about every store, before it happens
	store  func(k *ai, s *astate, addr, val *T, in ssa.Instruction)
	conv   func(k *ai, s *astate, x *T, in *ssa.Convert)
	inst   func(k *ai, s *astate, in ssa.Instruction)
	exit   func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T)
	back   func(k *ai, s *astate, h *ssa.BasicBlock)
	pre    func(k *ai, s *astate, h *ssa.BasicBlock, pred int)          // before a loop is entered
	head   func(k *ai, s *astate, h *ssa.BasicBlock)                    // generic entry of a loop
	branch func(k *ai, s *astate, cond *T, taken bool, in *ssa.If) bool // false: prune
	ret    func(k *ai, s *astate, fn *ssa.Function, call ssa.CallInstruction, res []*T)
	clone  func(d any) any
	key    func(d any) string
}

type ai struct {
	terms
	w      *World
	cl     aclient
	unroll bool
	later  []func() // to do once all paths have been seen
	// facts to keep about values nothing names any more
	keepFact func(s *astate, t *T) bool
	keep     bool // keep all of them
	limit    int
	steps    int
	maxDep   int
	gaveUp   bool
	lv       *walker
	noRet    map[*ssa.Function]bool
	fids     map[string]int
	inits    map[*T]*T // initial memory (package initialisation)
	loops    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	classes  map[*ssa.Function]map[string]bool
	immut    map[*ssa.Global]bool
	opaqueFn map[string]int
	// model gives the results of foreign calls it knows
	model func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool)
	// only: module functions that may be inlined (nil: all)
	only map[*ssa.Function]bool
}

func newAI(w *World, cl aclient) *ai {
	k := &ai{w: w, cl: cl, limit: 200000, maxDep: 12, lv: newWalker(w, nil), fids: map[string]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, classes: map[*ssa.Function]map[string]bool{}, immut: map[*ssa.Global]bool{}, opaqueFn: map[string]int{}}
	k.tab = map[string]*T{}
	k.noRet = k.lv.noRet
	return k
}

func (s *astate) clone(k *ai) *astate {
	n := &astate{mem: make(map[*T]*T, len(s.mem)), ver: make(map[string]string, len(s.ver)), esc: make(map[*T]bool, len(s.esc)), facts: make(map[*T]bool, len(s.facts)), bnd: make(map[*T]ival, len(s.bnd)), dead: make(map[*T]bool, len(s.dead)), from: s}
	for _, f := range s.stack {
		g := *f
		g.defers = append([]adefer(nil), f.defers...)
		g.env = make(map[ssa.Value]*T, len(f.env))
		for a, b := range f.env {
			g.env[a] = b
		}
		g.generic = make(map[*ssa.BasicBlock]bool, len(f.generic))
		for a, b := range f.generic {
			g.generic[a] = b
		}
		g.unroll = make(map[*ssa.BasicBlock]int, len(f.unroll))
		for a, b := range f.unroll {
			g.unroll[a] = b
		}
		n.stack = append(n.stack, &g)
	}
	for a, b := range s.mem {
		n.mem[a] = b
	}
	for a, b := range s.ver {
		n.ver[a] = b
	}
	for a, b := range s.esc {
		n.esc[a] = b
	}
	for a, b := range s.facts {
		n.facts[a] = b
	}
	for a, b := range s.bnd {
		n.bnd[a] = b
	}
	for a, b := range s.dead {
		n.dead[a] = b
	}
	if k.cl.clone != nil {
		n.data = k.cl.clone(s.data)
	} else {
		n.data = s.data
	}
	return n
}

func (k *ai) stateKey(s *astate) string {
	var sb strings.Builder
	for i, f := range s.stack {
		fmt.Fprintf(&sb, "F%d.%d.%d.%d|", f.fid, f.blk.Index, f.idx, f.stamp)
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "%p:", d.c)
			for _, a := range d.args {
				fmt.Fprintf(&sb, "%d,", a.id)
			}
		}
		l := k.lv.liveness(f.fn)
		var es []string
		for v, t := range f.env {
			if i == len(s.stack)-1 && f.idx == 0 {
				if phi, ok := v.(*ssa.Phi); !(ok && phi.Block() == f.blk) && !l.in[f.blk][v] {
					continue
				}
			}
			es = append(es, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(es)
		sb.WriteString(strings.Join(es, ","))
		var gs []string
		for b := range f.generic {
			gs = append(gs, fmt.Sprintf("g%d", b.Index))
		}
		sort.Strings(gs)
		sb.WriteString(strings.Join(gs, ","))
		sb.WriteByte(';')
	}
	var es []string
	for a, b := range s.mem {
		es = append(es, fmt.Sprintf("%d=%d", a.id, b.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	es = es[:0]
	for a, b := range s.ver {
		es = append(es, a+"="+b)
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	es = es[:0]
	for a, b := range s.facts {
		es = append(es, fmt.Sprintf("%d%v", a.id, b))
	}
	for a, b := range s.bnd {
		es = append(es, fmt.Sprintf("%d:%d:%d:%v", a.id, b.lo, b.hi, b.neq))
	}
	for a := range s.esc {
		es = append(es, fmt.Sprintf("e%d", a.id))
	}
	sort.Strings(es)
	sb.WriteString(strings.Join(es, ","))
	if k.cl.key != nil {
		sb.WriteString(k.cl.key(s.data))
	}
	return sb.String()
}

func (k *ai) fid(parent int, stamp int, c any, f *ssa.Function) int {
	s := fmt.Sprintf("%d|%d|%p|%p", parent, stamp, c, f)
	if i, ok := k.fids[s]; ok {
		return i
	}
	i := len(k.fids) + 1
	k.fids[s] = i
	return i
}

func (f *aframe) at(v ssa.Value) string {
	return fmt.Sprintf("%s@%d.%d.%s", v.Name(), f.fid, f.stamp, v.Parent().Name())
}

func (f *aframe) here() string { return fmt.Sprintf("%d.%d.%d.%d", f.fid, f.stamp, f.blk.Index, f.idx) }

// ---- values -------------------------------------------------------------------

func (k *ai) val(s *astate, f *aframe, v ssa.Value) *T {
	switch v := v.(type) {
	case *ssa.Const:
		return k.constant(v)
	case *ssa.Global:
		return k.global(v)
	case *ssa.Function:
		return k.fn(v)
	case *ssa.Builtin:
		return k.sym("builtin "+v.Name(), nil)
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	t := k.mk(&T{op: "sym", s: f.at(v), typ: v.Type(), v: v})
	f.env[v] = t
	return t
}

func (k *ai) global(g *ssa.Global) *T {
	return k.mk(&T{op: "global", s: g.String(), typ: g.Type(), v: g})
}

func (k *ai) fn(f *ssa.Function) *T {
	return k.mk(&T{op: "func", s: f.String(), typ: f.Type(), v: f})
}

func (k *ai) constant(c *ssa.Const) *T {
	if c.Value == nil {
		return k.zeroOf(c.Type())
	}
	return k.cst(c.Value, c.Type())
}

func (k *ai) zeroOf(t types.Type) *T {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return k.boolean(false)
		case u.Info()&types.IsString != 0:
			return k.str("")
		case u.Info()&types.IsInteger != 0:
			return k.cst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return k.cst(constant.MakeInt64(0), t)
		}
		return k.null()
	case *types.Struct:
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, k.zeroOf(u.Field(i).Type()))
		}
		return k.ops("agg", tname(t), t, as...)
	case *types.Array:
		if u.Len() <= 16 {
			var as []*T
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, k.zeroOf(u.Elem()))
			}
			return k.ops("agg", tname(t), t, as...)
		}
		return k.ops("zero", tname(t), t)
	}
	return k.null()
}

// ---- addresses -------------------------------------------------------------

func (k *ai) fld(base *T, st types.Type, i int) *T {
	u := st.Underlying().(*types.Struct)
	return k.mk(&T{op: "fld", s: tname(st) + "." + u.Field(i).Name(), typ: types.NewPointer(u.Field(i).Type()), args: []*T{base}})
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (k *ai) idx(base, i *T, elem types.Type) *T {
	for base.op == "slice" {
		if lo := base.args[1]; lo.op != "nil" {
			i = k.add(i, lo)
		}
		base = base.args[0]
	}
	return k.ops("idx", tname(elem), types.NewPointer(elem), base, i)
}

// class of an address: stores through addresses of different classes never
// touch each other.
func class(a *T) string {
	switch a.op {
	case "fld":
		return a.s
	case "idx":
		return "[]" + a.s
	case "global":
		return "@" + a.s
	}
	if a.typ != nil {
		if p, ok := a.typ.Underlying().(*types.Pointer); ok {
			return "*" + tname(p.Elem())
		}
	}
	return "*?"
}

func root(a *T) *T {
	for {
		switch a.op {
		case "fld", "idx", "slice":
			a = a.args[0]
			continue
		case "iface":
			a = a.args[0]
			continue
		}
		return a
	}
}

func isAllocT(t *T) bool {
	return t.op == "alloc" || t.op == "mkslice" || t.op == "mkmap" || t.op == "closure"
}

// fresh: the object did not exist when the analysed entry was called.
func isOld(t *T) bool {
	switch t.op {
	case "sym":
		return strings.HasPrefix(t.s, "p:")
	case "global":
		return true
	case "load":
		return t.s == "" && isOld(root(t.args[0]))
	case "field", "extract":
		return isOld(t.args[0])
	}
	return false
}

func (k *ai) distinct(s *astate, a, b *T) bool {
	if a == b {
		return false
	}
	ra, rb := root(a), root(b)
	if ra != rb {
		if isAllocT(ra) && isAllocT(rb) || ra.op == "global" && rb.op == "global" {
			return true
		}
		if isAllocT(ra) && (rb.op == "global" || isOld(rb) || !s.esc[ra]) || isAllocT(rb) && (ra.op == "global" || isOld(ra) || !s.esc[rb]) {
			return true
		}
		return false
	}
	// the same object: look for a different constant index or field
	pa, pb := pathOf(a), pathOf(b)
	for i := 0; i < len(pa) && i < len(pb); i++ {
		x, y := pa[i], pb[i]
		if x.op != y.op {
			return false
		}
		if x.op == "fld" && x.s != y.s {
			return true
		}
		if x.op == "idx" {
			d := k.sub(x.args[1], y.args[1])
			if n, ok := d.intVal(); ok {
				if n != 0 {
					return true
				}
				continue
			}
			if k.isNonZero(s, d) {
				return true
			}
			return false
		}
	}
	return false
}

func (k *ai) isNonZero(s *astate, d *T) bool {
	r := k.rangeOf(s, d)
	return r.lo > 0 || r.hi < 0
}

func pathOf(a *T) []*T {
	var p []*T
	for a.op == "fld" || a.op == "idx" || a.op == "slice" {
		if a.op != "slice" {
			p = append([]*T{a}, p...)
		}
		a = a.args[0]
	}
	return p
}

func within(a, base *T) bool {
	for {
		if a == base {
			return true
		}
		if a.op == "fld" || a.op == "idx" || a.op == "slice" {
			a = a.args[0]
			continue
		}
		return false
	}
}

// escape marks the allocations a value leads to as known to others.
func (k *ai) escape(s *astate, v *T) {
	walkT(v, func(x *T) bool {
		if isAllocT(x) {
			if s.esc[x] {
				return false
			}
			s.esc[x] = true
			for a, c := range s.mem {
				if root(a) == x {
					k.escape(s, c)
				}
			}
		}
		// contents of loads and lengths are not handed on
		switch x.op {
		case "load", "len", "cap", "eq", "lt", "not", "lin", "mul", "conv":
			return false
		}
		return true
	})
}

func (k *ai) store(s *astate, f *aframe, a, v *T, t types.Type) {
	if !isAllocT(root(a)) || s.esc[root(a)] {
		k.escape(s, v)
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			k.store(s, f, k.fld(a, t, i), k.field(s, v, t, i), st.Field(i).Type())
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if at.Len() <= 16 && (v.op == "agg" || v.op == "zero") {
			for i := int64(0); i < at.Len(); i++ {
				e := k.zeroOf(at.Elem())
				if v.op == "agg" {
					e = v.args[i]
				}
				k.store(s, f, k.idx(a, k.num(i), at.Elem()), e, at.Elem())
			}
			return
		}
		k.kill(s, f, a, "[]"+tname(at.Elem()))
		return
	}
	k.kill(s, f, a, class(a))
	for c := range s.mem {
		if c != a && within(c, a) {
			delete(s.mem, c)
		}
	}
	s.mem[a] = v
}

// kill forgets the cells a store to a may change.
func (k *ai) kill(s *astate, f *aframe, a *T, cls string) {
	for c := range s.mem {
		if c == a {
			delete(s.mem, c)
			continue
		}
		if class(c) == cls && !k.distinct(s, a, c) {
			delete(s.mem, c)
		}
	}
	if !k.own(s, root(a)) {
		s.ver[cls] = f.here()
	} else {
		// only this object's unknown contents change
		s.ver[fmt.Sprintf("%s#%d", cls, root(a).id)] = f.here()
	}
}

func (k *ai) version(s *astate, a *T) string {
	cls := class(a)
	r := root(a)
	v := s.ver[cls]
	if isAllocT(r) && !s.esc[r] {
		v = ""
	} else if p := k.privRoot(r); p != nil {
		v = s.ver[privKey(p)]
	}
	return v + s.ver[fmt.Sprintf("%s#%d", cls, r.id)]
}

// load from address a a value of type t.
func (k *ai) load(s *astate, a *T, t types.Type) *T {
	if v, ok := s.mem[a]; ok {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, k.load(s, k.fld(a, t, i), u.Field(i).Type()))
		}
		return k.ops("agg", tname(t), t, as...)
	case *types.Array:
		if u.Len() <= 16 {
			var as []*T
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, k.load(s, k.idx(a, k.num(i), u.Elem()), u.Elem()))
			}
			return k.ops("agg", tname(t), t, as...)
		}
	}
	// a load through an unknown index of an initialised or shared array
	return k.mk(&T{op: "load", s: k.version(s, a), typ: t, args: []*T{a}})
}

func (k *ai) field(s *astate, v *T, st types.Type, i int) *T {
	u := st.Underlying().(*types.Struct)
	if v.op == "agg" && len(v.args) == u.NumFields() {
		return v.args[i]
	}
	return k.ops("field", u.Field(i).Name(), u.Field(i).Type(), v)
}

// ---- facts ------------------------------------------------------------------

func satAdd(a, b int64) int64 {
	if a == math.MinInt64 || b == math.MinInt64 {
		if a == math.MaxInt64 || b == math.MaxInt64 {
			return 0
		}
		return math.MinInt64
	}
	if a == math.MaxInt64 || b == math.MaxInt64 {
		return math.MaxInt64
	}
	c := a + b
	if a > 0 && b > 0 && c < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && c >= 0 {
		return math.MinInt64
	}
	return c
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	inf := func(x int64) bool { return x == math.MinInt64 || x == math.MaxInt64 }
	if inf(a) || inf(b) || (a*b)/b != a {
		if (a < 0) != (b < 0) {
			return math.MinInt64
		}
		return math.MaxInt64
	}
	return a * b
}

func (i ival) scale(c int64) ival {
	a, b := satMul(i.lo, c), satMul(i.hi, c)
	if c < 0 {
		a, b = b, a
	}
	return ival{lo: a, hi: b}
}

func meet(a, b ival) ival {
	r := ival{lo: a.lo, hi: a.hi, neq: append(append([]int64(nil), a.neq...), b.neq...)}
	if b.lo > r.lo {
		r.lo = b.lo
	}
	if b.hi < r.hi {
		r.hi = b.hi
	}
	for ch := true; ch; {
		ch = false
		for _, n := range r.neq {
			if n == r.lo && r.lo < math.MaxInt64 {
				r.lo++
				ch = true
			}
			if n == r.hi && r.hi > math.MinInt64 {
				r.hi--
				ch = true
			}
		}
	}
	return r
}

// linKey splits a difference into sign*(key) + c.
func (k *ai) linKey(d *T) (key *T, sign int64, c int64) {
	p := k.poly(d)
	c = p.c0
	p.c0 = 0
	var first *T
	for a := range p.m {
		if first == nil || a.id < first.id {
			first = a
		}
	}
	if first == nil {
		return nil, 1, c
	}
	sign = 1
	if p.m[first] < 0 {
		sign = -1
		for a := range p.m {
			p.m[a] = -p.m[a]
		}
	}
	return k.ofPoly(p, d.typ), sign, c
}

func (k *ai) atomRange(s *astate, t *T, d int) ival {
	r := topIval
	if lo, hi, ok := intRange(t.typ); ok {
		r.lo, r.hi = lo, hi
	}
	if b, ok := s.bnd[t]; ok {
		r = meet(r, b)
	}
	if d > 6 {
		return r
	}
	switch t.op {
	case "len", "cap":
		if r.lo < 0 {
			r.lo = 0
		}
	case "&":
		for _, a := range t.args {
			x := k.rangeIn(s, a, d+1)
			if x.lo >= 0 {
				r = meet(r, ival{lo: 0, hi: x.hi})
			}
		}
	case "|", "^":
		var or int64
		ok := true
		for _, a := range t.args {
			x := k.rangeIn(s, a, d+1)
			if x.lo < 0 || x.hi == math.MaxInt64 {
				ok = false
				break
			}
			or |= x.hi
		}
		if ok {
			m := int64(1)
			for m <= or {
				m <<= 1
			}
			r = meet(r, ival{lo: 0, hi: m - 1})
		}
	case ">>":
		x := k.rangeIn(s, t.args[0], d+1)
		if n, ok := t.args[1].intVal(); ok && n >= 0 && n < 63 && x.lo > math.MinInt64 && x.hi < math.MaxInt64 {
			r = meet(r, ival{lo: x.lo >> uint(n), hi: x.hi >> uint(n)})
		}
	case "/":
		x := k.rangeIn(s, t.args[0], d+1)
		if n, ok := t.args[1].intVal(); ok && n > 0 && x.lo >= 0 {
			h := x.hi
			if h != math.MaxInt64 {
				h /= n
			}
			r = meet(r, ival{lo: 0, hi: h})
		}
	case "%":
		x := k.rangeIn(s, t.args[0], d+1)
		if n, ok := t.args[1].intVal(); ok && n > 0 {
			lo := -(n - 1)
			if x.lo >= 0 {
				lo = 0
			}
			r = meet(r, ival{lo: lo, hi: n - 1})
		}
	case "mul":
		p := ival{lo: 1, hi: 1}
		ok := true
		for _, a := range t.args {
			x := k.rangeIn(s, a, d+1)
			if x.lo < 0 {
				ok = false
				break
			}
			p = ival{lo: satMul(p.lo, x.lo), hi: satMul(p.hi, x.hi)}
		}
		if ok {
			r = meet(r, p)
		}
	}
	return r
}

func (k *ai) rangeOf(s *astate, t *T) ival { return k.rangeIn(s, t, 0) }

func (k *ai) rangeIn(s *astate, t *T, d int) ival {
	if n, ok := t.intVal(); ok {
		return ival{lo: n, hi: n}
	}
	if t.op != "lin" {
		return k.atomRange(s, t, d)
	}
	sum := ival{lo: t.c0, hi: t.c0}
	for i, a := range t.args {
		x := k.atomRange(s, a, d+1).scale(t.coef[i])
		sum = ival{lo: satAdd(sum.lo, x.lo), hi: satAdd(sum.hi, x.hi)}
	}
	key, sign, c := k.linKey(t)
	if b, ok := s.bnd[key]; ok {
		x := b.scale(sign)
		n := ival{lo: satAdd(x.lo, c), hi: satAdd(x.hi, c)}
		for _, q := range b.neq {
			n.neq = append(n.neq, sign*q+c)
		}
		sum = meet(sum, n)
	}
	return sum
}

// bound records lo <= d <= hi (and d != neq).
func (k *ai) bound(s *astate, d *T, b ival) bool {
	key, sign, c := k.linKey(d)
	if key == nil {
		return c >= b.lo && c <= b.hi
	}
	// sign*key + c in b  =>  key in sign*(b - c)
	lo, hi := b.lo, b.hi
	if lo != math.MinInt64 {
		lo = satAdd(lo, -c)
	}
	if hi != math.MaxInt64 {
		hi = satAdd(hi, -c)
	}
	n := ival{lo: lo, hi: hi}
	if sign < 0 {
		n = n.scale(-1)
	}
	for _, q := range b.neq {
		n.neq = append(n.neq, sign*(q-c))
	}
	old, ok := s.bnd[key]
	if !ok {
		old = topIval
	}
	m := meet(meet(old, n), k.rangeIn(s, key, 0))
	sort.Slice(m.neq, func(i, j int) bool { return m.neq[i] < m.neq[j] })
	var ns []int64
	for i, q := range m.neq {
		if q >= m.lo && q <= m.hi && (i == 0 || q != m.neq[i-1]) {
			ns = append(ns, q)
		}
	}
	m.neq = ns
	s.bnd[key] = m
	return m.lo <= m.hi
}

func intTerm(x *T) bool {
	if x.op == "lin" || x.op == "len" || x.op == "cap" || x.op == "mul" {
		return true
	}
	if _, ok := x.intVal(); ok {
		return true
	}
	return isInteger(x.typ)
}

func isNumConst(x *T) bool { _, ok := x.intVal(); return ok }

// truth of a boolean term: 1, -1, or 0 (not known).
func (k *ai) truth(s *astate, c *T) int {
	if b, ok := c.boolVal(); ok {
		if b {
			return 1
		}
		return -1
	}
	if f, ok := s.facts[c]; ok {
		if f {
			return 1
		}
		return -1
	}
	switch c.op {
	case "not":
		return -k.truth(s, c.args[0])
	case "eq":
		return k.equal(s, c.args[0], c.args[1])
	case "lt":
		x, y := c.args[0], c.args[1]
		if x.op == "other" || y.op == "other" {
			return 0
		}
		if intTerm(x) && intTerm(y) {
			r := k.rangeOf(s, k.sub(x, y))
			if r.hi < 0 {
				return 1
			}
			if r.lo >= 0 {
				return -1
			}
			return 0
		}
		if x.op == "const" && y.op == "const" {
			if constant.Compare(x.cv, token.LSS, y.cv) {
				return 1
			}
			return -1
		}
	}
	return 0
}

// nonNil: 1 certainly not nil, -1 certainly nil.
func (k *ai) nonNil(s *astate, x *T) int {
	switch x.op {
	case "nil":
		return -1
	case "alloc", "mkslice", "mkmap", "closure", "func", "global", "iface", "fld", "idx", "freshErr":
		return 1
	case "append1":
		return 1
	case "sentinel":
		return 1
	}
	if f, ok := s.facts[k.eq(x, k.null())]; ok {
		if f {
			return -1
		}
		return 1
	}
	if x.op == "slice" {
		return k.nonNil(s, x.args[0])
	}
	return 0
}

func (k *ai) equal(s *astate, x, y *T) int {
	if x.op == "other" || y.op == "other" {
		if x == y {
			return 1
		}
		if x.op == "const" || y.op == "const" {
			return -1
		}
		return 0
	}
	if x.op == "const" && y.op == "const" {
		if x.cv.Kind() == y.cv.Kind() || x.cv.Kind() != constant.String && y.cv.Kind() != constant.String {
			if constant.Compare(x.cv, token.EQL, y.cv) {
				return 1
			}
			return -1
		}
	}
	if x.op == "nil" || y.op == "nil" {
		if x.op == "nil" {
			x, y = y, x
		}
		return -k.nonNil(s, x)
	}
	if x == y {
		return 1
	}
	if intTerm(x) && intTerm(y) {
		r := k.rangeOf(s, k.sub(x, y))
		if r.lo > 0 || r.hi < 0 {
			return -1
		}
		if r.lo == 0 && r.hi == 0 {
			return 1
		}
		for _, n := range r.neq {
			if n == 0 {
				return -1
			}
		}
		return 0
	}
	if x.op == "iface" && y.op == "iface" && x.s != y.s {
		return -1
	}
	if x.op == "agg" && y.op == "agg" && len(x.args) == len(y.args) {
		all := 1
		for i := range x.args {
			t := k.truth(s, k.eq(x.args[i], y.args[i]))
			if t < 0 {
				return -1
			}
			if t == 0 {
				all = 0
			}
		}
		return all
	}
	if k.nonNil(s, x)*k.nonNil(s, y) < 0 {
		return -1
	}
	if x.op == "freshErr" || y.op == "freshErr" {
		o := x
		if x.op == "freshErr" {
			o = y
		}
		if o.op == "sentinel" || o.op == "freshErr" {
			return -1
		}
	}
	if x.op == "sentinel" && y.op == "sentinel" {
		return -1
	}
	if isAllocT(x) && isAllocT(y) {
		return -1
	}
	// x equals another constant already
	for _, p := range [][2]*T{{x, y}, {y, x}} {
		if p[1].op != "const" {
			continue
		}
		for c, v := range s.facts {
			if !v || c.op != "eq" {
				continue
			}
			a, b := c.args[0], c.args[1]
			if a != p[0] {
				a, b = b, a
			}
			if a == p[0] && b.op == "const" && b != p[1] {
				return -1
			}
		}
		// an empty string has length zero
		if sv, ok := p[1].strVal(); ok {
			r := k.rangeOf(s, k.op("len", types.Typ[types.Int], p[0]))
			if int64(len(sv)) < r.lo || int64(len(sv)) > r.hi {
				return -1
			}
			if sv == "" && r.hi == 0 {
				return 1
			}
		}
	}
	if (x.op == "const") != (y.op == "const") {
		return 0
	}
	return 0
}

// assume records the outcome of a branch. false: it cannot happen.
func (k *ai) assume(s *astate, c *T, t bool) bool {
	for c.op == "not" {
		c, t = c.args[0], !t
	}
	switch k.truth(s, c) {
	case 1:
		return t
	case -1:
		return !t
	}
	switch c.op {
	case "eq":
		x, y := c.args[0], c.args[1]
		if intTerm(x) && intTerm(y) {
			d := k.sub(x, y)
			if t {
				// x == T(x): x fits T
				for _, p := range [][2]*T{{x, y}, {y, x}} {
					if p[0].op == "conv" && len(p[0].args) == 1 && k.sub(p[0].args[0], p[1]).op == "const" {
						if n, ok := k.sub(p[0].args[0], p[1]).intVal(); ok && n == 0 {
							if lo, hi, ok := intRange(p[0].typ); ok && !k.bound(s, p[1], ival{lo: lo, hi: hi}) {
								return false
							}
						}
					}
				}
				return k.bound(s, d, ival{lo: 0, hi: 0})
			}
			return k.bound(s, d, ival{lo: math.MinInt64, hi: math.MaxInt64, neq: []int64{0}})
		}
		for _, p := range [][2]*T{{x, y}, {y, x}} {
			if sv, ok := p[1].strVal(); ok && sv == "" {
				l := k.op("len", types.Typ[types.Int], p[0])
				if t {
					k.bound(s, l, ival{lo: 0, hi: 0})
				} else {
					k.bound(s, l, ival{lo: 1, hi: math.MaxInt64})
				}
			}
		}
	case "lt":
		x, y := c.args[0], c.args[1]
		if intTerm(x) && intTerm(y) {
			d := k.sub(x, y)
			if t {
				return k.bound(s, d, ival{lo: math.MinInt64, hi: -1})
			}
			return k.bound(s, d, ival{lo: 0, hi: math.MaxInt64})
		}
	}
	s.facts[c] = t
	return true
}

// convert x to type to.
func (k *ai) convert(s *astate, x *T, from, to types.Type) *T {
	if isInteger(from) && isInteger(to) {
		if x.op == "const" {
			return k.cst(wrap(x.cv, to), to)
		}
		lo, hi, ok := intRange(to)
		flo, fhi, ok2 := intRange(from)
		if ok && ok2 {
			if flo >= lo && fhi <= hi && !(isUnsigned64(from) && !isUnsigned64(to)) {
				return x
			}
			r := k.rangeOf(s, x)
			if r.lo >= lo && r.hi <= hi && (r.hi < math.MaxInt64 || is64(to)) && (r.lo > math.MinInt64 || is64(to)) {
				return x
			}
		}
		return k.ops("conv", tname(to.Underlying()), to, x)
	}
	return nil
}

func is64(t types.Type) bool {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

func isUnsigned64(t types.Type) bool {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
		return true
	}
	return false
}

// ---- loops ------------------------------------------------------------------

func (k *ai) loop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if l, ok := k.loops[h]; ok {
		return l
	}
	l := loopBlocks(h)
	k.loops[h] = l
	return l
}

func typeClasses(t types.Type, add func(string)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			add(tname(t) + "." + u.Field(i).Name())
			typeClasses(u.Field(i).Type(), add)
		}
	case *types.Array:
		add("[]" + tname(u.Elem()))
		typeClasses(u.Elem(), add)
	}
}

func storeClasses(addr ssa.Value, add func(string)) {
	pt := addr.Type().Underlying().(*types.Pointer).Elem()
	typeClasses(pt, add)
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		add(fieldClass(a.X.Type(), a.Field))
	case *ssa.IndexAddr:
		add("[]" + tname(pt))
	case *ssa.Global:
		add("@" + a.String())
	default:
		add("*" + tname(pt))
		// the pointer may be to a field, element or global of that type
		add("?" + tname(pt))
	}
}

// storedClasses: what a call of f may store to.
func (k *ai) storedClasses(f *ssa.Function) map[string]bool {
	if m, ok := k.classes[f]; ok {
		return m
	}
	m := map[string]bool{}
	k.classes[f] = m
	for g := range k.w.reachable([]*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				k.instrClasses(in, func(c string) { m[c] = true })
			}
		}
	}
	return m
}

func (k *ai) instrClasses(in ssa.Instruction, add func(string)) {
	switch in := in.(type) {
	case *ssa.Store:
		storeClasses(in.Addr, add)
	case *ssa.MapUpdate:
		add("[]" + tname(elemType(in.Map.Type())))
		add("map")
	case ssa.CallInstruction:
		if b, ok := in.Common().Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "append", "clear":
				if e := elemType(in.Common().Args[0].Type()); e != nil {
					add("[]" + tname(e))
					typeClasses(e, add)
				}
			case "delete":
				add("map")
			}
			return
		}
		if !k.w.knownCallees(in) {
			// a foreign callee writes through its arguments
			for _, a := range in.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				switch t := a.Type().Underlying().(type) {
				case *types.Pointer:
					if _, ok := a.(*ssa.Alloc); !ok {
						storeClasses(a, add)
					}
				case *types.Slice:
					add("[]" + tname(t.Elem()))
					typeClasses(t.Elem(), add)
				}
			}
		}
	}
}

// forget drops what may be stored to a class of cls. Allocations nobody else
// knows keep their contents.
func (k *ai) forget(s *astate, f *aframe, cls map[string]bool) {
	hit := func(a *T) bool {
		if cls[class(a)] {
			return true
		}
		if p, ok := a.typ.(*types.Pointer); ok && cls["?"+tname(p.Elem())] {
			return true
		}
		return false
	}
	for a := range s.mem {
		if k.own(s, root(a)) {
			continue
		}
		if hit(a) {
			delete(s.mem, a)
		}
	}
	for c := range cls {
		s.ver[c] = f.here()
		if strings.HasPrefix(c, "?") {
			// any class with contents of that type
			t := c[1:]
			s.ver["*"+t] = f.here()
			s.ver["[]"+t] = f.here()
		}
	}
	if cls["map"] {
		for _, t := range k.all {
			if t.op == "mkmap" && s.esc[t] {
				s.dead[t] = true
			}
		}
	}
}

// enterLoop makes the state at loop header h an arbitrary iteration's.
func (k *ai) enterLoop(s *astate, f *aframe, h *ssa.BasicBlock, pred int) {
	loop := k.loop(h)
	cls := map[string]bool{}
	k.touchPrivate(s, f, func(p *privSet) bool {
		for b := range loop {
			for _, in := range b.Instrs {
				if p.stores[in] {
					return true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range k.w.callees(c) {
						if p.storers[g] {
							return true
						}
					}
				}
			}
		}
		return false
	})
	var roots []*T // allocations stored to directly
	var addrRoot func(v ssa.Value) ssa.Value
	addrRoot = func(v ssa.Value) ssa.Value {
		switch v := v.(type) {
		case *ssa.FieldAddr:
			return addrRoot(v.X)
		case *ssa.IndexAddr:
			return addrRoot(v.X)
		case *ssa.Slice:
			return addrRoot(v.X)
		case *ssa.MakeInterface:
			return addrRoot(v.X)
		case *ssa.ChangeType:
			return addrRoot(v.X)
		}
		return v
	}
	known := func(v ssa.Value) *T {
		if in, ok := v.(ssa.Instruction); ok && loop[in.Block()] {
			return nil
		}
		if _, ok := v.(*ssa.Phi); ok && v.(*ssa.Phi).Block() == h {
			return nil
		}
		if t, ok := f.env[v]; ok {
			return t
		}
		return nil
	}
	direct := map[*T]map[string]bool{}
	blocks := sortedBlocks(loop)
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				r := known(addrRoot(in.Addr))
				if r != nil && isAllocT(root(r)) {
					if direct[root(r)] == nil {
						direct[root(r)] = map[string]bool{}
						roots = append(roots, root(r))
					}
					storeClasses(in.Addr, func(c string) { direct[root(r)][c] = true })
				} else {
					storeClasses(in.Addr, func(c string) { cls[c] = true })
				}
				// what is stored may be known to others afterwards
				if t := known(addrRoot(in.Val)); t != nil && isAllocT(root(t)) {
					k.escape(s, t)
				}
			case ssa.CallInstruction:
				for _, a := range append([]ssa.Value{in.Common().Value}, in.Common().Args...) {
					t := known(addrRoot(a))
					if t == nil {
						if al, ok := addrRoot(a).(*ssa.MakeClosure); ok {
							for _, b := range al.Bindings {
								if t := known(addrRoot(b)); t != nil {
									k.escape(s, t)
								}
							}
						}
						continue
					}
					if _, isB := in.Common().Value.(*ssa.Builtin); isB {
						if r := root(t); isAllocT(r) {
							if direct[r] == nil {
								direct[r] = map[string]bool{}
								roots = append(roots, r)
							}
							k.instrClasses(in, func(c string) { direct[r][c] = true })
						}
						continue
					}
					k.escape(s, t)
					// a foreign callee writes to what it is handed
					if g := in.Common().StaticCallee(); isAllocT(root(t)) && (g == nil || !k.w.inModule(g)) {
						if pure, reads := foreignPure(g); !pure && !reads && !(g == nil && len(k.w.callees(in)) > 0) {
							for m := range s.mem {
								if root(m) == root(t) {
									s.ver[fmt.Sprintf("%s#%d", class(m), root(m).id)] = f.here()
									delete(s.mem, m)
								}
							}
						}
					}
				}
				k.instrClasses(in, func(c string) { cls[c] = true })
				for _, g := range k.w.callees(in) {
					if k.w.inModule(g) {
						for c := range k.storedClasses(g) {
							cls[c] = true
						}
					}
				}
			case *ssa.MapUpdate:
				if r := known(addrRoot(in.Map)); r != nil && isAllocT(root(r)) {
					s.dead[root(r)] = true
				}
				k.instrClasses(in, func(c string) { cls[c] = true })
			case *ssa.MakeClosure:
				for _, b := range in.Bindings {
					if t := known(addrRoot(b)); t != nil {
						k.escape(s, t)
					}
				}
			}
		}
	}
	k.forget(s, f, cls)
	for _, r := range roots {
		for a := range s.mem {
			if root(a) == r && (direct[r][class(a)] || direct[r]["?"+ptrElem(a)]) {
				delete(s.mem, a)
			}
		}
		for c := range direct[r] {
			s.ver[fmt.Sprintf("%s#%d", c, r.id)] = f.here()
			if s.esc[r] {
				s.ver[c] = f.here()
			}
		}
	}
	// the header's phis
	type nv struct {
		p *ssa.Phi
		t *T
	}
	var nvs []nv
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := k.val(s, f, phi.Edges[pred])
		same := true
		for i, e := range phi.Edges {
			if i != pred && loop[h.Preds[i]] && e != phi && !(!inBlocks(e, loop) && f.env[e] == init) {
				same = false
			}
		}
		if same {
			nvs = append(nvs, nv{phi, init})
			continue
		}
		t := k.mk(&T{op: "sym", s: "phi " + f.at(phi), typ: phi.Type(), v: phi, fid: f.fid, hdr: h})
		nvs = append(nvs, nv{phi, t})
		// a counter stays on its side of the start
		if isInteger(phi.Type()) {
			up, down := true, true
			for i, e := range phi.Edges {
				if i == pred || !loop[h.Preds[i]] {
					continue
				}
				b, n := linear(e)
				if b != phi {
					up, down = false, false
					break
				}
				if n < 0 {
					up = false
				}
				if n > 0 {
					down = false
				}
			}
			d := k.sub(t, init)
			if up {
				k.bound(s, d, ival{lo: 0, hi: math.MaxInt64})
				if r := k.rangeOf(s, init); r.lo > math.MinInt64 {
					k.bound(s, t, ival{lo: r.lo, hi: math.MaxInt64})
				}
			}
			if down {
				k.bound(s, d, ival{lo: math.MinInt64, hi: 0})
				if r := k.rangeOf(s, init); r.hi < math.MaxInt64 {
					k.bound(s, t, ival{lo: math.MinInt64, hi: r.hi})
				}
			}
		}
	}
	for _, x := range nvs {
		f.env[x.p] = x.t
	}
	// facts about values of an earlier time stay: terms are immutable
	f.generic[h] = true
}

func ptrElem(a *T) string {
	if p, ok := a.typ.(*types.Pointer); ok {
		return tname(p.Elem())
	}
	return "?"
}

func inBlocks(v ssa.Value, bs map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return ok && bs[in.Block()]
}

func sortedBlocks(m map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for b := range m {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Index < out[j].Index })
	return out
}

// decided: with the values of the coming iteration, is the first exit test of
// the loop decided by constants?
func (k *ai) decided(s *astate, f *aframe, h *ssa.BasicBlock, pred int) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	loop := k.loop(h)
	if loop[h.Succs[0]] && loop[h.Succs[1]] {
		return false
	}
	var ev func(v ssa.Value, d int) *T
	ev = func(v ssa.Value, d int) *T {
		if d > 8 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Phi:
			if v.Block() == h {
				return k.val(s, f, v.Edges[pred])
			}
		case *ssa.BinOp:
			if v.Block() == h {
				x, y := ev(v.X, d+1), ev(v.Y, d+1)
				if x == nil || y == nil {
					return nil
				}
				return k.bin(v.Op, x, y, v.X.Type())
			}
		case *ssa.Const:
			return k.val(s, f, v)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if x := ev(v.Call.Args[0], d+1); x != nil {
					return k.lenOf(s, x)
				}
			}
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == h {
			return nil
		}
		return k.val(s, f, v)
	}
	c := ev(iff.Cond, 0)
	return c != nil && k.truth(s, c) != 0
}

func (k *ai) enter(s *astate, t *ssa.BasicBlock) bool {
	f := s.top()
	pi := 0
	for i, p := range t.Preds {
		if p == f.blk {
			pi = i
		}
	}
	// leaving loops
	for h := range f.generic {
		if !k.loop(h)[t] {
			delete(f.generic, h)
		}
	}
	for h := range f.unroll {
		if !k.loop(h)[t] {
			delete(f.unroll, h)
		}
	}
	from := f.blk
	if len(k.loop(t)) > 0 {
		if f.generic[t] && k.loop(t)[from] {
			if k.cl.back != nil {
				f.pred = from
				k.cl.back(k, s, t)
			}
			return false
		}
		if k.unroll && f.unroll[t] < 80 && k.decided(s, f, t, pi) {
			f.unroll[t]++
			f.stamp++
			k.phis(s, f, t, pi)
			f.pred, f.blk, f.idx = from, t, 0
			return true
		}
		delete(f.unroll, t)
		f.pred, f.blk, f.idx = from, t, 0
		if k.cl.pre != nil {
			k.cl.pre(k, s, t, pi)
		}
		k.enterLoop(s, f, t, pi)
		if k.cl.head != nil {
			k.cl.head(k, s, t)
		}
		return true
	}
	k.phis(s, f, t, pi)
	f.pred, f.blk, f.idx = from, t, 0
	return true
}

func (k *ai) phis(s *astate, f *aframe, t *ssa.BasicBlock, pi int) {
	var vs []*T
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, k.val(s, f, phi.Edges[pi]))
	}
	for i, v := range vs {
		f.env[t.Instrs[i].(*ssa.Phi)] = v
	}
}

// ---- running -------------------------------------------------------------------

// run interprets f from its entry. init may bind parameters (s.top().env) and
// preset facts; unbound parameters are "p:" symbols.
func (k *ai) run(f *ssa.Function, init func(s *astate)) {
	fr := &aframe{fn: f, fid: k.fid(0, 0, nil, f), blk: f.Blocks[0], env: map[ssa.Value]*T{}, generic: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}}
	s := &astate{mem: map[*T]*T{}, ver: map[string]string{}, esc: map[*T]bool{}, facts: map[*T]bool{}, bnd: map[*T]ival{}, dead: map[*T]bool{}}
	for a, b := range k.inits {
		s.mem[a] = b
	}
	for i, p := range f.Params {
		fr.env[p] = k.mk(&T{op: "sym", s: fmt.Sprintf("p:%d:%s", i, p.Name()), typ: p.Type(), v: p})
	}
	for i, p := range f.FreeVars {
		fr.env[p] = k.mk(&T{op: "sym", s: fmt.Sprintf("p:free%d:%s", i, p.Name()), typ: p.Type(), v: p})
	}
	s.stack = []*aframe{fr}
	if init != nil {
		init(s)
	}
	k.explore(s)
}

// explore follows every path from s.
func (k *ai) explore(s *astate) {
	seen := map[string]bool{}
	work := []*astate{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if !k.keep {
			k.gc(s)
		}
		key := k.stateKey(s)
		if seen[key] {
			continue
		}
		seen[key] = true
		k.steps++
		if k.steps > k.limit {
			k.gaveUp = true
			return
		}
		work = append(work, k.step(s)...)
	}
}

// gc drops facts about values nothing leads to.
func (k *ai) gc(s *astate) {
	live := map[*T]bool{}
	note := func(t *T) {
		walkT(t, func(x *T) bool {
			if live[x] {
				return false
			}
			live[x] = true
			return true
		})
	}
	for i, f := range s.stack {
		l := k.lv.liveness(f.fn)
		for v, t := range f.env {
			if i == len(s.stack)-1 && f.idx == 0 {
				if phi, ok := v.(*ssa.Phi); !(ok && phi.Block() == f.blk) && !l.in[f.blk][v] {
					if _, isP := v.(*ssa.Parameter); !isP {
						delete(f.env, v)
						continue
					}
				}
			}
			note(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				note(a)
			}
			note(d.fv)
		}
	}
	// contents of objects that are still reachable
	for ch := true; ch; {
		ch = false
		for a, c := range s.mem {
			r := root(a)
			if (!isAllocT(r) || live[r] || s.esc[r]) && !live[c] {
				note(c)
				ch = true
			}
		}
	}
	for a := range s.mem {
		if r := root(a); isAllocT(r) && !live[r] && !s.esc[r] {
			delete(s.mem, a)
		}
	}
	dead := func(t *T) bool {
		d := false
		walkT(t, func(x *T) bool {
			switch x.op {
			case "sym", "res", "alloc", "mkslice":
				// a call that only reads gives the same result again
				again := x.op == "res" && x.s != "" && !strings.Contains(x.s, "@")
				if !live[x] && !strings.HasPrefix(x.s, "p:") && !again {
					d = true
				}
			}
			return !d
		})
		return d
	}
	if k.keepFact != nil {
		for c := range s.facts {
			if k.keepFact(s, c) {
				note(c)
			}
		}
		for c := range s.bnd {
			if k.keepFact(s, c) {
				note(c)
			}
		}
	}
	for c := range s.facts {
		if dead(c) {
			delete(s.facts, c)
		}
	}
	for c := range s.bnd {
		if dead(c) {
			delete(s.bnd, c)
		}
	}
}

func (k *ai) step(s0 *astate) []*astate {
	s := s0.clone(k)
	for {
		f := s.top()
		in := f.blk.Instrs[f.idx]
		if k.cl.inst != nil {
			k.cl.inst(k, s, in)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			if outs, done := k.doCall(s, f, in); done {
				return outs
			}
		case *ssa.Go:
			com := in.Common()
			var args []*T
			for _, a := range com.Args {
				args = append(args, k.val(s, f, a))
			}
			k.opaque(s, f, in, com.StaticCallee(), append(args, k.val(s, f, com.Value)))
		case *ssa.Defer:
			d := adefer{c: in, fv: k.val(s, f, in.Call.Value)}
			for _, a := range in.Call.Args {
				d.args = append(d.args, k.val(s, f, a))
			}
			f.defers = append(f.defers, d)
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				if outs, done := k.apply(s, f, d.c, d.fv, d.args, true); done {
					return outs
				}
				continue
			}
		case *ssa.Panic:
			if k.cl.exit != nil {
				k.cl.exit(k, s, aPanic, in, nil)
			}
			return nil
		case *ssa.Return:
			var rs []*T
			for _, r := range in.Results {
				rs = append(rs, k.val(s, f, r))
			}
			if len(s.stack) == 1 {
				if k.cl.exit != nil {
					k.cl.exit(k, s, aReturn, in, rs)
				}
				return nil
			}
			if k.cl.ret != nil {
				k.cl.ret(k, s, f.fn, f.call, rs)
			}
			s.stack = s.stack[:len(s.stack)-1]
			g := s.top()
			if !f.ignore {
				k.bindRes(g, f.call, rs)
				g.idx++
			}
			return []*astate{s}
		case *ssa.Jump:
			if !k.enter(s, f.blk.Succs[0]) {
				return nil
			}
			return []*astate{s}
		case *ssa.If:
			c := k.val(s, f, in.Cond)
			t := k.truth(s, c)
			var outs []*astate
			for e := 0; e < 2; e++ {
				if t == 1 && e == 1 || t == -1 && e == 0 {
					continue
				}
				n := s.clone(k)
				n.note = k.w.posOf(in)
				if t == 0 && !k.assume(n, c, e == 0) {
					continue
				}
				if k.cl.branch != nil && !k.cl.branch(k, n, c, e == 0, in) {
					continue
				}
				if k.enter(n, f.blk.Succs[e]) {
					outs = append(outs, n)
				}
			}
			return outs
		default:
			k.eval(s, f, in)
		}
		f.idx++
	}
}

func (k *ai) eval(s *astate, f *aframe, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := k.mk(&T{op: "alloc", s: f.at(in), typ: in.Type(), v: in, fid: f.fid})
		f.env[in] = t
		for a := range s.mem {
			if root(a) == t {
				delete(s.mem, a)
			}
		}
		delete(s.esc, t)
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := et.Underlying().(*types.Array); ok && at.Len() > 16 {
			break
		}
		k.store(s, f, t, k.zeroOf(et), et)
	case *ssa.FieldAddr:
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		f.env[in] = k.fld(k.val(s, f, in.X), st, in.Field)
	case *ssa.Field:
		f.env[in] = k.field(s, k.val(s, f, in.X), in.X.Type(), in.Field)
	case *ssa.IndexAddr:
		f.env[in] = k.idx(k.val(s, f, in.X), k.val(s, f, in.Index), elemType(in.X.Type()))
	case *ssa.Index:
		x, i := k.val(s, f, in.X), k.val(s, f, in.Index)
		if n, ok := i.intVal(); ok && x.op == "agg" && n >= 0 && int(n) < len(x.args) {
			f.env[in] = x.args[n]
			break
		}
		if sv, ok := x.strVal(); ok {
			if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(sv) {
				f.env[in] = k.num(int64(sv[n]))
				break
			}
		}
		f.env[in] = k.op("index", in.Type(), x, i)
	case *ssa.UnOp:
		x := k.val(s, f, in.X)
		switch in.Op {
		case token.MUL:
			if g, ok := in.X.(*ssa.Global); ok && isErrorType(in.Type()) && !k.w.inModule2(g) {
				f.env[in] = k.mk(&T{op: "sentinel", s: g.String(), typ: in.Type(), v: g})
				break
			}
			if k.cl.load != nil {
				if t := k.cl.load(k, s, x, in); t != nil {
					f.env[in] = t
					break
				}
			}
			f.env[in] = k.load(s, x, in.Type())
		case token.NOT:
			f.env[in] = k.not(x)
		case token.SUB:
			f.env[in] = k.bin(token.SUB, k.num(0), x, in.Type())
		case token.XOR:
			if x.op == "const" {
				f.env[in] = k.cst(wrap(constant.UnaryOp(token.XOR, x.cv, 0), in.Type()), in.Type())
			} else {
				f.env[in] = k.op("~", in.Type(), x)
			}
		default:
			f.env[in] = k.mk(&T{op: "sym", s: f.at(in), typ: in.Type(), v: in})
		}
	case *ssa.BinOp:
		f.env[in] = k.bin(in.Op, k.val(s, f, in.X), k.val(s, f, in.Y), in.X.Type())
	case *ssa.ChangeInterface:
		f.env[in] = k.val(s, f, in.X)
	case *ssa.ChangeType:
		f.env[in] = k.val(s, f, in.X)
	case *ssa.Convert:
		x := k.val(s, f, in.X)
		if k.cl.conv != nil {
			k.cl.conv(k, s, x, in)
		}
		if t := k.convert(s, x, in.X.Type(), in.Type()); t != nil {
			f.env[in] = t
			break
		}
		if isStringT(in.Type()) && x.op == "const" && isStringT(in.X.Type()) {
			f.env[in] = x
			break
		}
		f.env[in] = k.ops("cast", tname(in.Type())+"@"+f.here(), in.Type(), x)
	case *ssa.MakeInterface:
		x := k.val(s, f, in.X)
		f.env[in] = k.mk(&T{op: "iface", s: tname(in.X.Type()), typ: in.X.Type(), args: []*T{x}})
	case *ssa.MakeClosure:
		t := &T{op: "closure", s: f.at(in), typ: in.Type(), v: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			t.args = append(t.args, k.val(s, f, b))
		}
		f.env[in] = k.mk(t)
	case *ssa.MakeSlice:
		f.env[in] = k.mk(&T{op: "mkslice", s: f.at(in), typ: in.Type(), args: []*T{k.val(s, f, in.Len)}, v: in})
	case *ssa.MakeMap:
		f.env[in] = k.mk(&T{op: "mkmap", s: f.at(in), typ: in.Type(), v: in})
	case *ssa.MakeChan:
		f.env[in] = k.mk(&T{op: "sym", s: f.at(in), typ: in.Type(), v: in})
	case *ssa.MapUpdate:
		m, key, v := k.val(s, f, in.Map), k.val(s, f, in.Key), k.val(s, f, in.Value)
		a := k.idx(m, key, elemType(in.Map.Type()))
		if k.cl.store != nil {
			k.cl.store(k, s, a, v, in)
		}
		if m.op == "mkmap" && (key.op == "const") && !s.dead[m] {
			s.mem[a] = v
			k.escapeInto(s, m, v)
		} else {
			k.escape(s, v)
			k.kill(s, f, a, class(a))
			if m.op == "mkmap" {
				s.dead[m] = true
			}
		}
	case *ssa.Lookup:
		x, i := k.val(s, f, in.X), k.val(s, f, in.Index)
		if isStringT(in.X.Type()) {
			if sv, ok := x.strVal(); ok {
				if n, ok := i.intVal(); ok && n >= 0 && int(n) < len(sv) {
					f.env[in] = k.num(int64(sv[n]))
					break
				}
			}
			f.env[in] = k.op("index", in.Type(), x, i)
			break
		}
		et := elemType(in.X.Type())
		var v, ok *T
		a := k.idx(x, i, et)
		if c, has := s.mem[a]; has {
			v, ok = c, k.boolean(true)
		} else if x.op == "mkmap" && !s.dead[x] && (i.op == "const" || i.op == "other" || k.differsFromKeys(s, x, i)) {
			v, ok = k.zeroOf(et), k.boolean(false)
		} else {
			v = k.mk(&T{op: "load", s: "@" + f.here(), typ: et, args: []*T{a}})
			ok = k.ops("haskey", "@"+f.here(), types.Typ[types.Bool], a)
		}
		if in.CommaOk {
			f.env[in] = k.op("tuple", nil, v, ok)
		} else {
			f.env[in] = v
		}
	case *ssa.Extract:
		t := k.val(s, f, in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			f.env[in] = t.args[in.Index]
		} else {
			f.env[in] = k.mk(&T{op: "extract", s: fmt.Sprint(in.Index), typ: in.Type(), args: []*T{t}})
		}
	case *ssa.TypeAssert:
		x := k.val(s, f, in.X)
		var v, ok *T
		if x.op == "iface" {
			if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
				if x.s == tname(in.AssertedType) {
					v, ok = x.args[0], k.boolean(true)
				} else {
					v, ok = k.zeroOf(in.AssertedType), k.boolean(false)
				}
			} else if types.Implements(x.typ, in.AssertedType.Underlying().(*types.Interface)) {
				v, ok = x, k.boolean(true)
			} else {
				v, ok = k.null(), k.boolean(false)
			}
		} else {
			n := tname(in.AssertedType)
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				v = x
			} else {
				v = k.ops("assert", n, in.AssertedType, x)
			}
			ok = k.ops("isType", n, types.Typ[types.Bool], x)
		}
		if in.CommaOk {
			f.env[in] = k.op("tuple", nil, v, ok)
		} else {
			f.env[in] = v
		}
	case *ssa.Slice:
		x := k.val(s, f, in.X)
		opt := func(v ssa.Value) *T {
			if v == nil {
				return k.null()
			}
			return k.val(s, f, v)
		}
		f.env[in] = k.sliceOf(s, x, opt(in.Low), opt(in.High), in.Type(), in.X.Type())
	case *ssa.Store:
		a, v := k.val(s, f, in.Addr), k.val(s, f, in.Val)
		if k.cl.store != nil {
			k.cl.store(k, s, a, v, in)
		}
		k.store(s, f, a, v, in.Val.Type())
	case *ssa.Send:
		k.escape(s, k.val(s, f, in.X))
	case *ssa.Range:
		f.env[in] = k.mk(&T{op: "range", s: f.at(in), typ: in.Type(), args: []*T{k.val(s, f, in.X)}})
	case *ssa.Next:
		x := k.val(s, f, in.Iter)
		f.env[in] = k.mk(&T{op: "next", s: f.at(in), typ: in.Type(), args: []*T{x}, v: in})
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = k.mk(&T{op: "sym", s: f.at(v), typ: v.Type(), v: v})
		}
	}
}

func (k *ai) escapeInto(s *astate, m, v *T) {
	if s.esc[m] {
		k.escape(s, v)
	}
}

// differsFromKeys: the key is known not to be any key of the map.
func (k *ai) differsFromKeys(s *astate, m, key *T) bool {
	for a := range s.mem {
		if a.op == "idx" && a.args[0] == m && k.truth(s, k.eq(a.args[1], key)) >= 0 {
			return false
		}
	}
	return true
}

func (k *ai) sliceOf(s *astate, x, lo, hi *T, typ, xt types.Type) *T {
	if sv, ok := x.strVal(); ok {
		l, okl := int64(0), true
		if lo.op != "nil" {
			l, okl = lo.intVal()
		}
		h, okh := int64(len(sv)), true
		if hi.op != "nil" {
			h, okh = hi.intVal()
		}
		if okl && okh && l >= 0 && l <= h && h <= int64(len(sv)) {
			return k.str(sv[l:h])
		}
	}
	if n, ok := lo.intVal(); ok && n == 0 {
		lo = k.null()
	}
	if x.op == "slice" {
		b, l, h := x.args[0], x.args[1], x.args[2]
		nl, nh := l, h
		if lo.op != "nil" {
			nl = lo
			if l.op != "nil" {
				nl = k.add(l, lo)
			}
		}
		if hi.op != "nil" {
			nh = hi
			if l.op != "nil" {
				nh = k.add(l, hi)
			}
		}
		return k.mk(&T{op: "slice", typ: typ, args: []*T{b, nl, nh}})
	}
	if lo.op == "nil" && hi.op == "nil" {
		if _, isP := xt.Underlying().(*types.Pointer); !isP {
			return x
		}
	}
	return k.mk(&T{op: "slice", typ: typ, args: []*T{x, lo, hi}})
}

func (k *ai) lenOf(s *astate, x *T) *T {
	intT := types.Typ[types.Int]
	if sv, ok := x.strVal(); ok {
		return k.num(int64(len(sv)))
	}
	switch x.op {
	case "nil":
		return k.num(0)
	case "mkslice":
		return x.args[0]
	case "slice":
		lo, hi := x.args[1], x.args[2]
		if hi.op == "nil" {
			b := x.args[0]
			if p, ok := b.typ.(*types.Pointer); ok {
				if at, ok := p.Elem().Underlying().(*types.Array); ok {
					hi = k.num(at.Len())
				}
			}
			if hi.op == "nil" {
				hi = k.lenOf(s, b)
			}
		}
		if lo.op == "nil" {
			return hi
		}
		return k.sub(hi, lo)
	case "append1":
		return k.add(k.lenOf(s, x.args[0]), k.num(int64(len(x.args)-1)))
	case "appendn":
		return k.add(k.lenOf(s, x.args[0]), k.lenOf(s, x.args[1]))
	case "cast":
		// string <-> []byte keep the length
		if len(x.args) == 1 && x.args[0].typ != nil && x.typ != nil && bytesLike(x.typ) && bytesLike(x.args[0].typ) {
			return k.lenOf(s, x.args[0])
		}
	}
	if p, ok := x.typ.(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			return k.num(at.Len())
		}
	}
	return k.op("len", intT, x)
}

func bytesLike(t types.Type) bool {
	if isStringT(t) {
		return true
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
	}
	return false
}

func (k *ai) bindRes(g *aframe, call ssa.CallInstruction, rs []*T) {
	c, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	if len(rs) == 1 {
		g.env[c] = rs[0]
		return
	}
	g.env[c] = k.op("tuple", nil, rs...)
}

func (k *ai) doCall(s *astate, f *aframe, c *ssa.Call) ([]*astate, bool) {
	com := c.Common()
	var args []*T
	for _, a := range com.Args {
		args = append(args, k.val(s, f, a))
	}
	var fv *T
	if _, ok := com.Value.(*ssa.Builtin); ok {
		if t, done := k.builtin(s, f, c, args); done {
			f.env[c] = t
			return nil, false
		}
		fv = k.null()
	} else {
		fv = k.val(s, f, com.Value)
	}
	return k.apply(s, f, c, fv, args, false)
}

func (k *ai) builtin(s *astate, f *aframe, c *ssa.Call, args []*T) (*T, bool) {
	b := c.Call.Value.(*ssa.Builtin)
	if k.cl.call != nil {
		if res, handled, _ := k.cl.call(k, s, c, nil, args); handled {
			if len(res) == 1 {
				return res[0], true
			}
			return k.null(), true
		}
	}
	if k.model != nil {
		if res, ok := k.model(k, s, c, nil, args); ok && len(res) == 1 {
			return res[0], true
		}
	}
	switch b.Name() {
	case "len":
		return k.lenOf(s, args[0]), true
	case "cap":
		return k.op("cap", types.Typ[types.Int], args[0]), true
	case "append":
		et := elemType(c.Type())
		x, y := args[0], args[1]
		for _, v := range []*T{x, y} {
			_ = v
		}
		// an in-place append writes behind the slice's end
		if r := root(x); !isAllocT(r) && x.op != "nil" {
			k.kill(s, f, k.idx(x, k.sym("end@"+f.here(), types.Typ[types.Int]), et), "[]"+tname(et))
		}
		if n, ok := k.lenOf(s, y).intVal(); ok && n <= 32 && y.op == "slice" {
			t := &T{op: "append1", s: "@" + f.here(), typ: c.Type(), args: []*T{x}, in: c}
			for i := int64(0); i < n; i++ {
				t.args = append(t.args, k.load(s, k.idx(y, k.num(i), et), et))
			}
			for _, v := range t.args[1:] {
				k.escape(s, v)
			}
			return k.mk(t), true
		}
		if y.op == "nil" {
			return x, true
		}
		return k.mk(&T{op: "appendn", s: "@" + f.here(), typ: c.Type(), args: []*T{x, y}, in: c}), true
	case "copy":
		et := elemType(args[0].typ)
		if et == nil {
			et = elemType(c.Call.Args[0].Type())
		}
		if n, ok := k.lenOf(s, args[0]).intVal(); ok && n <= 32 && !isBasic(et, types.Uint8) {
			if m, ok := k.lenOf(s, args[1]).intVal(); ok && m <= 32 {
				if m < n {
					n = m
				}
				var vs []*T
				for i := int64(0); i < n; i++ {
					vs = append(vs, k.load(s, k.idx(args[1], k.num(i), et), et))
				}
				for i, v := range vs {
					k.store(s, f, k.idx(args[0], k.num(int64(i)), et), v, et)
				}
				return k.num(n), true
			}
		}
		k.kill(s, f, k.idx(args[0], k.sym("any@"+f.here(), types.Typ[types.Int]), et), "[]"+tname(et))
		return k.mk(&T{op: "sym", s: "copied " + f.at(c), typ: c.Type(), v: c}), true
	case "delete":
		if args[0].op == "mkmap" {
			s.dead[args[0]] = true
		}
		return k.null(), true
	case "print", "println", "close", "panic":
		return k.null(), true
	case "min", "max":
		return k.ops(b.Name(), "", c.Type(), args...), true
	}
	return k.mk(&T{op: "sym", s: f.at(c), typ: c.Type(), v: c}), true
}

func (k *ai) apply(s *astate, f *aframe, c ssa.CallInstruction, fv *T, args []*T, deferred bool) ([]*astate, bool) {
	com := c.Common()
	cval, _ := c.(*ssa.Call)
	if cval != nil {
		switch isExitCall(cval) {
		case exitFatal:
			if k.cl.exit != nil {
				k.cl.exit(k, s, aProcess, c, []*T{k.num(1)})
			}
			return nil, true
		case exitCode:
			if k.cl.exit != nil {
				k.cl.exit(k, s, aProcess, c, args)
			}
			return nil, true
		}
	}
	callee := com.StaticCallee()
	var bind []*T
	if com.IsInvoke() {
		args = append([]*T{fv}, args...)
		if fv.op == "iface" {
			if sel := k.w.prog.MethodSets.MethodSet(fv.typ).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
				callee = k.w.prog.MethodValue(sel)
				args[0] = fv.args[0]
			}
		}
	} else if callee == nil || len(callee.FreeVars) > 0 {
		switch fv.op {
		case "func":
			callee = fv.v.(*ssa.Function)
		case "closure":
			callee = fv.v.(*ssa.Function)
			bind = fv.args
		}
	}
	if callee != nil && k.noRet[callee] {
		if k.cl.exit != nil {
			k.cl.exit(k, s, aProcess, c, []*T{k.num(1)})
		}
		return nil, true
	}
	inline := true
	if res, ok := k.folded(s, c, callee, args); ok {
		if cval != nil && !deferred {
			k.bindRes(f, c, res)
		}
		return nil, false
	}
	if k.cl.call != nil {
		res, handled, inl := k.cl.call(k, s, c, callee, args)
		if handled {
			if cval != nil && !deferred {
				k.bindRes(f, c, res)
			}
			return nil, false
		}
		inline = inl
	}
	if inline && callee != nil && len(callee.Blocks) > 0 && k.w.inModule(callee) && len(s.stack) < k.maxDep && (k.only == nil || k.only[callee]) {
		rec := false
		for _, g := range s.stack {
			if g.fn == callee {
				rec = true
			}
		}
		if !rec {
			fr := &aframe{fn: callee, fid: k.fid(f.fid, f.stamp, c, callee), blk: callee.Blocks[0], call: c, ignore: deferred, env: map[ssa.Value]*T{}, generic: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}}
			for i, p := range callee.Params {
				if i < len(args) {
					fr.env[p] = args[i]
				}
			}
			for i, p := range callee.FreeVars {
				if i < len(bind) {
					fr.env[p] = bind[i]
				}
			}
			s.stack = append(s.stack, fr)
			return []*astate{s}, true
		}
	}
	res := k.opaque(s, f, c, callee, append(append([]*T{}, args...), bind...))
	if cval != nil && !deferred {
		k.bindRes(f, c, res)
	}
	return nil, false
}

// opaque: the effects and results of a call that is not followed.
func (k *ai) opaque(s *astate, f *aframe, c ssa.CallInstruction, callee *ssa.Function, args []*T) []*T {
	com := c.Common()
	name := "dynamic call"
	if callee != nil {
		name = callee.String()
	} else if com.IsInvoke() {
		name = com.Method.FullName()
	}
	sig := com.Signature()
	pure, reads := foreignPure(callee)
	stable := pure
	at := ""
	if !pure {
		// functions of the module that only look at memory
		gs := []*ssa.Function{callee}
		if callee == nil {
			gs = k.w.callees(c)
		}
		rd := map[string]bool{}
		only := len(gs) > 0
		for _, g := range gs {
			if g == nil || !k.w.readerClasses(g, 0, func(x string) { rd[x] = true }) {
				only = false
			}
		}
		if only {
			pure, stable = true, true
			for _, x := range keysOf(rd) {
				if v := s.ver[x]; v != "" {
					at += ";" + x + "=" + v
				}
			}
			for _, a := range args {
				if isAllocT(root(a)) {
					stable = false
				}
			}
		}
	}
	for _, a := range args {
		if a.typ != nil {
			if _, isS := a.typ.Underlying().(*types.Slice); isS {
				stable = false
			}
		}
	}
	if !pure {
		cls := map[string]bool{}
		var fs []*ssa.Function
		if callee != nil {
			fs = []*ssa.Function{callee}
		} else {
			fs = k.w.callees(c)
		}
		for _, g := range fs {
			if k.w.inModule(g) {
				for x := range k.storedClasses(g) {
					cls[x] = true
				}
			}
		}
		for _, a := range args {
			k.escape(s, a)
		}
		// a foreign callee writes to what its arguments point to
		if !reads {
			for _, a := range args {
				r := a
				if r.op == "iface" {
					r = r.args[0]
				} else if callee != nil && k.w.inModule(callee) || callee == nil && k.w.knownCallees(c) {
					// what it may store to is known
					continue
				}
				for m := range s.mem {
					if within(m, r) || isAllocT(root(r)) && root(m) == root(r) && (callee == nil || !k.w.inModule(callee)) && r.op != "closure" {
						s.ver[fmt.Sprintf("%s#%d", class(m), root(m).id)] = f.here()
						delete(s.mem, m)
					}
				}
			}
		}
		k.forget(s, f, cls)
		if len(fs) > 0 {
			k.touchPrivate(s, f, func(p *privSet) bool {
				for _, g := range fs {
					if p.storers[g] {
						return true
					}
				}
				return false
			})
		}
	}
	var res []*T
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		t := &T{op: "res", typ: rt, args: args, in: c, c0: int64(i)}
		if stable {
			t.s = name + at
		} else {
			t.s = name + "@" + f.here()
		}
		if isErrorType(rt) && (name == "errors.New" || name == "fmt.Errorf") {
			t.op = "freshErr"
			t.s = name + "@" + f.here()
		}
		res = append(res, k.mk(t))
	}
	return res
}

// folded: calls of library functions with constant results, and modelled ones.
func (k *ai) folded(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
	if k.model != nil {
		if res, ok := k.model(k, s, c, callee, args); ok {
			return res, true
		}
	}
	if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "strings" || len(args) == 0 {
		return nil, false
	}
	if args[0].op == "other" && len(args) == 2 && args[1].op == "const" {
		switch callee.Name() {
		case "TrimPrefix", "TrimSuffix":
			// a name different from every constant is so without a fixed prefix
			return []*T{args[0]}, true
		}
	}
	var ss []string
	for _, a := range args {
		v, ok := a.strVal()
		if !ok {
			return nil, false
		}
		ss = append(ss, v)
	}
	str := func(v string) ([]*T, bool) { return []*T{k.str(v)}, true }
	if len(ss) == 1 {
		switch callee.Name() {
		case "TrimSpace":
			return str(strings.TrimSpace(ss[0]))
		case "ToLower":
			return str(strings.ToLower(ss[0]))
		case "ToUpper":
			return str(strings.ToUpper(ss[0]))
		}
	}
	if len(ss) == 2 {
		switch callee.Name() {
		case "TrimPrefix":
			return str(strings.TrimPrefix(ss[0], ss[1]))
		case "TrimSuffix":
			return str(strings.TrimSuffix(ss[0], ss[1]))
		case "HasPrefix":
			return []*T{k.boolean(strings.HasPrefix(ss[0], ss[1]))}, true
		case "HasSuffix":
			return []*T{k.boolean(strings.HasSuffix(ss[0], ss[1]))}, true
		case "Contains":
			return []*T{k.boolean(strings.Contains(ss[0], ss[1]))}, true
		case "EqualFold":
			return []*T{k.boolean(strings.EqualFold(ss[0], ss[1]))}, true
		case "Index":
			return []*T{k.num(int64(strings.Index(ss[0], ss[1])))}, true
		case "LastIndex":
			return []*T{k.num(int64(strings.LastIndex(ss[0], ss[1])))}, true
		}
	}
	return nil, false
}

// foreignPure: pure functions of values; reads: no writes through arguments.
func foreignPure(f *ssa.Function) (pure, reads bool) {
	if f == nil || f.Pkg == nil {
		return false, false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "strconv", "unicode", "unicode/utf16", "path", "path/filepath", "math", "math/bits":
		return f.Signature.Recv() == nil && !strings.HasPrefix(f.Name(), "Append"), true
	case "unicode/utf8", "bytes":
		return false, f.Signature.Recv() == nil && f.Name() != "EncodeRune"
	case "reflect":
		return false, f.Name() == "New" || f.Name() == "TypeOf" || f.Name() == "Zero" || f.Name() == "ValueOf" || f.Name() == "Interface" || f.Name() == "Elem" || f.Name() == "Indirect"
	case "errors", "fmt":
		return false, f.Name() == "New" || strings.HasPrefix(f.Name(), "Errorf") || strings.HasPrefix(f.Name(), "Sprint") || strings.HasPrefix(f.Name(), "Fprint") || strings.HasPrefix(f.Name(), "Print") || f.Name() == "Is"
	}
	return false, false
}

func (k *ai) trail(s *astate) []string {
	var p []string
	for x := s; x != nil; x = x.from {
		if x.note != "" && (len(p) == 0 || p[len(p)-1] != x.note) {
			p = append(p, x.note)
		}
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	if len(p) > 14 {
		p = p[len(p)-14:]
	}
	for i := range p {
		p[i] = "branch at " + p[i]
	}
	return p
}

func (w *World) inModule2(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path()+"/", w.modpath+"/")
}

// loadInits interprets package initialisation and keeps the contents of the
// globals nothing else stores to, and of what they lead to.
func (k *ai) loadInits(pkgs ...string) {
	mem := map[*T]*T{}
	for _, rel := range pkgs {
		p := k.w.spkg[k.w.rel(rel)]
		if p == nil {
			continue
		}
		f := p.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		j := newAI(k.w, aclient{})
		j.terms = k.terms
		j.unroll = true
		j.model = k.model
		j.fids = k.fids
		j.cl.call = func(_ *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee != nil && callee.Name() == "init" && callee.Signature.Recv() == nil && callee.Parent() == nil {
				return nil, true, false
			}
			return nil, false, true
		}
		n := 0
		var last *astate
		j.cl.exit = func(_ *ai, s *astate, kind aexit, at ssa.Instruction, _ []*T) {
			if kind == aReturn {
				n++
				last = s
			}
		}
		// the guard that makes initialisation run once
		j.cl.load = func(_ *ai, s *astate, a *T, in ssa.Instruction) *T {
			if a.op == "global" && strings.HasSuffix(a.s, "init$guard") {
				return j.boolean(false)
			}
			return nil
		}
		j.run(f, nil)
		k.terms = j.terms
		if n != 1 || j.gaveUp {
			continue
		}
		for a, c := range last.mem {
			r := root(a)
			if r.op == "global" {
				g := r.v.(*ssa.Global)
				if !k.immutable(g) {
					continue
				}
				mem[a] = c
			} else if isAllocT(r) {
				mem[a] = c
			}
		}
		for m := range last.dead {
			for a := range mem {
				if root(a) == m {
					delete(mem, a)
				}
			}
		}
	}
	// keep the objects immutable globals lead to
	live := map[*T]bool{}
	for ch := true; ch; {
		ch = false
		for a, c := range mem {
			r := root(a)
			if r.op != "global" && !live[r] {
				continue
			}
			if x := root(c); isAllocT(x) && !live[x] {
				live[x] = true
				ch = true
			}
		}
	}
	k.inits = map[*T]*T{}
	for a, c := range mem {
		if r := root(a); r.op == "global" || live[r] {
			k.inits[a] = c
		}
	}
}

// immutable: nothing but initialisation stores to the global, and what is
// loaded from it is only looked at.
func (k *ai) immutable(g *ssa.Global) bool {
	if r, ok := k.immut[g]; ok {
		return r
	}
	k.immut[g] = false
	ok := true
	var look func(v ssa.Value, d int)
	look = func(v ssa.Value, d int) {
		if v.Referrers() == nil || d > 6 {
			ok = false
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Lookup, *ssa.BinOp, *ssa.If, *ssa.DebugRef:
				if l, isL := in.(*ssa.Lookup); isL && pointerLike(l.Type()) {
					look(l, d+1)
				}
			case *ssa.UnOp:
				if pointerLike(in.Type()) {
					look(in, d+1)
				}
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Range, *ssa.Extract, *ssa.Next, *ssa.Phi, *ssa.Slice, *ssa.Field, *ssa.Index:
				if iv := in.(ssa.Value); d < 6 {
					look(iv, d+1)
				}
			case *ssa.Store:
				if in.Addr == v || pointerLike(in.Val.Type()) {
					ok = false
				}
			case *ssa.Call:
				if b, isB := in.Call.Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
				if in.Call.Value == v {
					continue
				}
				pure, reads := foreignPure(in.Call.StaticCallee())
				if !pure && !reads {
					ok = false
				}
			case *ssa.Return:
				// returned element values of pointer type may be changed by callers
				ok = false
			default:
				ok = false
			}
		}
	}
	for _, f := range k.w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if k.initOnly(f) {
						continue
					}
					u, isU := in.(*ssa.UnOp)
					if !isU {
						if _, isDbg := in.(*ssa.DebugRef); isDbg {
							continue
						}
						if fa, isFA := in.(ssa.Value); isFA {
							look(fa, 1)
							continue
						}
						ok = false
						continue
					}
					if pointerLike(u.Type()) {
						look(u, 1)
					}
				}
			}
		}
	}
	k.immut[g] = ok
	return ok
}

// initOnly: the function runs during package initialisation only.
func (k *ai) initOnly(f *ssa.Function) bool {
	if f.Parent() != nil || f.Signature.Recv() != nil {
		return false
	}
	if isInitFn(f) || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	if o := f.Object(); o == nil || o.Exported() || f.Name() == "main" {
		return false
	}
	cs := k.w.index().args[f]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c.Common().StaticCallee() != f || c.Parent() == f || !k.initOnly(c.Parent()) {
			return false
		}
	}
	// never used as a value
	for _, g := range k.w.allFns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						if c, ok := in.(ssa.CallInstruction); !ok || c.Common().Value != *op || isArg(c, f) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func isArg(c ssa.CallInstruction, f *ssa.Function) bool {
	for _, a := range c.Common().Args {
		if a == ssa.Value(f) {
			return true
		}
	}
	return false
}

// tname: the name of a type, aliases resolved.
func tname(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		t = types.Typ[b.Kind()]
	}
	return types.TypeString(t, nil)
}
