package main

// Integer terms as sums modulo 2: every bit of a value is an exclusive or of
// bits of atoms. With it positions that are made by xor can be compared
// however they are written, and what a path knows becomes equations.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type xatom struct {
	src *T
	n   int8
}

// xbit: the sum of the atoms and the constant; unk if it is not one.
type xbit struct {
	unk bool
	one bool
	as  []xatom // sorted
}

type xvec [64]xbit

func (b xbit) isConst() bool { return !b.unk && len(b.as) == 0 }

func (b xbit) xor(c xbit) xbit {
	if b.unk || c.unk {
		return xbit{unk: true}
	}
	r := xbit{one: b.one != c.one}
	i, j := 0, 0
	for i < len(b.as) || j < len(c.as) {
		switch {
		case j == len(c.as) || i < len(b.as) && xless(b.as[i], c.as[j]):
			r.as = append(r.as, b.as[i])
			i++
		case i == len(b.as) || xless(c.as[j], b.as[i]):
			r.as = append(r.as, c.as[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

func xless(a, b xatom) bool {
	if a.src != b.src {
		return a.src.id < b.src.id
	}
	return a.n < b.n
}

func (b xbit) key() string {
	if b.unk {
		return "?"
	}
	var sb strings.Builder
	for _, a := range b.as {
		fmt.Fprintf(&sb, "%d.%d ", a.src.id, a.n)
	}
	return sb.String()
}

func (b xbit) same(c xbit) bool { return !b.unk && !c.unk && b.one == c.one && b.key() == c.key() }

func xconst(n int64) (v xvec) {
	for i := range v {
		v[i].one = n>>uint(i)&1 == 1
	}
	return v
}

func (v xvec) xor(w xvec) (r xvec) {
	for i := range r {
		r[i] = v[i].xor(w[i])
	}
	return r
}

func (v xvec) shl(n int) (r xvec) {
	for i := range r {
		if i-n >= 0 && i-n < 64 {
			r[i] = v[i-n]
		}
	}
	return r
}

func (v xvec) shr(n int, signed bool) (r xvec) {
	for i := range r {
		if i+n < 64 {
			r[i] = v[i+n]
		} else if signed {
			r[i] = v[63]
		}
	}
	return r
}

func (v xvec) and(w xvec) (r xvec) {
	for i := range r {
		a, b := v[i], w[i]
		if b.isConst() {
			a, b = b, a
		}
		switch {
		case a.isConst() && a.one:
			r[i] = b
		case a.isConst():
		case a.same(b):
			r[i] = a
		default:
			r[i].unk = true
		}
	}
	return r
}

func (v xvec) or(w xvec) (r xvec) {
	for i := range r {
		a, b := v[i], w[i]
		if b.isConst() {
			a, b = b, a
		}
		switch {
		case a.isConst() && a.one:
			r[i].one = true
		case a.isConst():
			r[i] = b
		case a.same(b):
			r[i] = a
		default:
			r[i].unk = true
		}
	}
	return r
}

// add: with carries as long as they are constant.
func (v xvec) add(w xvec) (r xvec) {
	var carry xbit
	for i := range r {
		a, b := v[i], w[i]
		r[i] = a.xor(b).xor(carry)
		// majority
		n0, n1 := 0, 0
		var sym []xbit
		for _, c := range []xbit{a, b, carry} {
			switch {
			case c.isConst() && c.one:
				n1++
			case c.isConst():
				n0++
			default:
				sym = append(sym, c)
			}
		}
		switch {
		case n1 >= 2:
			carry = xbit{one: true}
		case n0 >= 2:
			carry = xbit{}
		case n1 == 1 && n0 == 1:
			carry = sym[0]
		default:
			carry = xbit{unk: true}
		}
	}
	return r
}

func (v xvec) fit(t types.Type) xvec {
	w := intSize(t) * 8
	if w == 0 || w == 64 {
		return v
	}
	var top xbit
	if t.Underlying().(*types.Basic).Info()&types.IsUnsigned == 0 {
		top = v[w-1]
	}
	for i := w; i < 64; i++ {
		v[i] = top
	}
	return v
}

// xenv: what is known of atoms and of sums of atoms on a path, in one case.
type xenv struct {
	k     *ai
	atoms map[xatom]bool
	eqs   map[xatom]xbit // the sum of lesser atoms it is
	zero  func(a xatom) bool
	memo  map[*T]*xvec
	amin  map[*T]int64
}

func (e *xenv) bit(b xbit) xbit {
	if b.unk {
		return b
	}
	for n := 0; n < 1000; n++ {
		hit := false
		for i := len(b.as) - 1; i >= 0; i-- {
			a := b.as[i]
			y := xbit{as: []xatom{a}}
			if v, ok := e.atoms[a]; ok {
				y.one = v
			} else if e.zero != nil && e.zero(a) {
			} else if v, ok := e.eqs[a]; ok {
				y = y.xor(v)
			} else {
				continue
			}
			b = b.xor(y)
			hit = true
			break
		}
		if !hit {
			break
		}
	}
	return b
}

func (e *xenv) atom(t *T) (v xvec) {
	w := 64
	if t.typ != nil {
		if !isInteger(t.typ) {
			for i := range v {
				v[i].unk = true
			}
			return v
		}
		w = intSize(t.typ) * 8
	}
	for i := 0; i < w; i++ {
		v[i] = e.bit(xbit{as: []xatom{{t, int8(i)}}})
	}
	if t.typ == nil {
		return v
	}
	return v.fit(t.typ)
}

func (e *xenv) val(t *T) xvec {
	if v, ok := e.memo[t]; ok {
		return *v
	}
	v := e.eval(t)
	for i := range v {
		v[i] = e.bit(v[i])
	}
	e.memo[t] = &v
	return v
}

func (e *xenv) eval(t *T) xvec {
	k := e.k
	if n, ok := t.intVal(); ok {
		return xconst(n)
	}
	fit := func(v xvec) xvec {
		if t.typ != nil && isInteger(t.typ) {
			return v.fit(t.typ)
		}
		return v
	}
	pow2 := func(n int64) (int, bool) {
		if n > 0 && n&(n-1) == 0 {
			return bits.TrailingZeros64(uint64(n)), true
		}
		return 0, false
	}
	con := func(v xvec) (n uint64, ok bool) {
		for i := range v {
			if !v[i].isConst() {
				return 0, false
			}
			if v[i].one {
				n |= 1 << uint(i)
			}
		}
		return n, true
	}
	switch t.op {
	case "conv":
		if t.args[0].typ == nil || isInteger(t.args[0].typ) {
			return fit(e.val(t.args[0]))
		}
	case "&", "|", "^", "+":
		r := e.val(t.args[0])
		for _, a := range t.args[1:] {
			b := e.val(a)
			switch t.op {
			case "&":
				r = r.and(b)
			case "|":
				r = r.or(b)
			case "^":
				r = r.xor(b)
			case "+":
				r = r.add(b)
			}
		}
		return fit(r)
	case "&^":
		b := e.val(t.args[1])
		for i := range b {
			b[i] = b[i].xor(xbit{one: true})
		}
		return fit(e.val(t.args[0]).and(b))
	case "<<", ">>":
		n, ok := con(e.val(t.args[1]))
		if !ok {
			break
		}
		if n > 63 {
			return xconst(0)
		}
		if t.op == "<<" {
			return fit(e.val(t.args[0]).shl(int(n)))
		}
		signed := t.typ != nil && isInteger(t.typ) && t.typ.Underlying().(*types.Basic).Info()&types.IsUnsigned == 0
		return fit(e.val(t.args[0]).shr(int(n), signed))
	case "*":
		if len(t.args) == 2 {
			for i := range t.args {
				if n, ok := t.args[i].intVal(); ok {
					if sh, ok := pow2(n); ok {
						return fit(e.val(t.args[1-i]).shl(sh))
					}
				}
			}
		}
	case "lin":
		p := k.poly(t)
		r := xconst(p.c0)
		var as []*T
		for a := range p.m {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			n := p.m[a]
			neg := n < 0
			if neg {
				n = -n
			}
			sh, ok := pow2(n)
			if !ok {
				return e.atom(t)
			}
			v := e.val(a).shl(sh)
			if neg {
				for i := range v {
					v[i] = v[i].xor(xbit{one: true})
				}
				v = v.add(xconst(1))
			}
			r = r.add(v)
		}
		return r
	}
	return e.atom(t)
}

// xknow gathers the equations a path knows; ne are the vectors known not to be
// zero. nil if the path cannot be.
func (k *ai) xknow(s *astate, zero func(xatom) bool, assume map[xatom]bool) (e *xenv, ne []xvec, ok bool) {
	e = &xenv{k: k, atoms: map[xatom]bool{}, eqs: map[xatom]xbit{}, zero: zero, memo: map[*T]*xvec{}}
	for a, b := range assume {
		e.atoms[a] = b
	}
	var ts []*T
	for t := range s.bnd {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	learn := func(b xbit, v bool) bool {
		b = e.bit(b)
		if b.unk {
			return true
		}
		v = v != b.one
		switch len(b.as) {
		case 0:
			return !v
		case 1:
			if _, ok := e.atoms[b.as[0]]; !ok {
				e.atoms[b.as[0]] = v
				e.memo = map[*T]*xvec{}
			}
		default:
			last := b.as[len(b.as)-1]
			e.eqs[last] = xbit{as: append([]xatom(nil), b.as[:len(b.as)-1]...), one: v}
			e.memo = map[*T]*xvec{}
		}
		return true
	}
	for pass := 0; pass < 3; pass++ {
		ne = nil
		for _, t := range ts {
			r := k.rangeOf(s, t)
			v, d := xvec{}, int64(0)
			if t.op == "lin" {
				p := k.poly(t)
				var pos, neg *T
				n := 0
				for a, c := range p.m {
					n++
					if c == 1 {
						pos = a
					} else if c == -1 {
						neg = a
					}
				}
				if n == 2 && pos != nil && neg != nil {
					// pos - neg + c0 in r
					x := e.val(pos).xor(e.val(neg))
					if p.c0 == 0 && r.lo == 0 && r.hi == 0 {
						for i := range x {
							if !learn(x[i], false) {
								return nil, nil, false
							}
						}
					}
					if p.c0 == 0 {
						for _, q := range r.neq {
							if q == 0 {
								ne = append(ne, x)
							}
						}
						if r.lo > 0 || r.hi < 0 {
							ne = append(ne, x)
						}
					}
					continue
				}
			}
			v = e.val(t)
			_ = d
			if r.lo == r.hi {
				for i := range v {
					if !learn(v[i], r.lo>>uint(i)&1 == 1) {
						return nil, nil, false
					}
				}
				continue
			}
			// the most and the least it can be
			hi, lo := uint64(0), uint64(0)
			for i := range v {
				if !v[i].isConst() || v[i].one {
					hi |= 1 << uint(i)
				}
				if v[i].isConst() && v[i].one {
					lo |= 1 << uint(i)
				}
			}
			if hi <= math.MaxInt64 {
				if int64(hi) < r.lo || int64(lo) > r.hi {
					return nil, nil, false
				}
				if r.hi >= 0 {
					for i := bits.Len64(uint64(r.hi)); i < 63; i++ {
						if !learn(v[i], false) {
							return nil, nil, false
						}
					}
				}
				// only the top bit can lift it over lo
				if r.lo > 0 {
					if n := bits.Len64(hi) - 1; n >= 0 && r.lo > int64(hi&^(1<<uint(n))) {
						if !learn(v[n], true) {
							return nil, nil, false
						}
					}
				}
			}
			for _, q := range r.neq {
				ne = append(ne, v.xor(xconst(q)))
				// one free bit only
				free, n := -1, 0
				x := v.xor(xconst(q))
				bad := false
				for i := range x {
					if x[i].unk {
						bad = true
					} else if !x[i].isConst() {
						free = i
						n++
					} else if x[i].one {
						bad = true
					}
				}
				if !bad && n == 1 && !learn(x[free], true) {
					return nil, nil, false
				}
				if !bad && n == 0 {
					return nil, nil, false
				}
			}
		}
	}
	return e, ne, true
}
