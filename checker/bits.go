package main

// Integer terms bit by bit: where every bit of a value comes from. Shifts,
// masks, conversions, sums of disjoint parts and numbers read from bytes all
// reduce to the same form, however they are written.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
)

type bitKind int8

const (
	bitUnknown bitKind = iota
	bitZero
	bitOne
	bitFrom
)

type vbit struct {
	kind bitKind
	src  *T
	n    int8
}

type bitvec [64]vbit

func (b vbit) String() string {
	switch b.kind {
	case bitZero:
		return "0"
	case bitOne:
		return "1"
	case bitFrom:
		return fmt.Sprintf("%s.%d", b.src, b.n)
	}
	return "?"
}

func constBits(n int64) (v bitvec) {
	for i := range v {
		if n>>uint(i)&1 == 1 {
			v[i].kind = bitOne
		} else {
			v[i].kind = bitZero
		}
	}
	return v
}

// fit: the value as a value of type t.
func (v bitvec) fit(t types.Type) bitvec {
	w := intSize(t) * 8
	if w == 0 || w == 64 {
		return v
	}
	top := vbit{kind: bitZero}
	if t.Underlying().(*types.Basic).Info()&types.IsUnsigned == 0 {
		top = v[w-1]
	}
	for i := w; i < 64; i++ {
		v[i] = top
	}
	return v
}

func (v bitvec) shl(n int) (r bitvec) {
	for i := range r {
		if i-n >= 0 && i-n < 64 {
			r[i] = v[i-n]
		} else {
			r[i].kind = bitZero
		}
	}
	return r
}

// shr: arithmetic if signed.
func (v bitvec) shr(n int, signed bool) (r bitvec) {
	for i := range r {
		switch {
		case i+n < 64:
			r[i] = v[i+n]
		case signed:
			r[i] = v[63]
		default:
			r[i].kind = bitZero
		}
	}
	return r
}

func (v bitvec) and(w bitvec) (r bitvec) {
	for i := range r {
		a, b := v[i], w[i]
		switch {
		case a.kind == bitZero || b.kind == bitZero:
			r[i].kind = bitZero
		case a.kind == bitOne:
			r[i] = b
		case b.kind == bitOne:
			r[i] = a
		case a == b:
			r[i] = a
		}
	}
	return r
}

func (v bitvec) or(w bitvec) (r bitvec) {
	for i := range r {
		a, b := v[i], w[i]
		switch {
		case a.kind == bitOne || b.kind == bitOne:
			r[i].kind = bitOne
		case a.kind == bitZero:
			r[i] = b
		case b.kind == bitZero:
			r[i] = a
		case a == b:
			r[i] = a
		}
	}
	return r
}

func (v bitvec) xor(w bitvec) (r bitvec) {
	for i := range r {
		a, b := v[i], w[i]
		switch {
		case a.kind == bitZero:
			r[i] = b
		case b.kind == bitZero:
			r[i] = a
		case a.kind == bitOne && b.kind == bitOne:
			r[i].kind = bitZero
		case a == b && a.kind == bitFrom:
			r[i].kind = bitZero
		}
	}
	return r
}

func disjoint(v, w bitvec) bool {
	for i := range v {
		if v[i].kind != bitZero && w[i].kind != bitZero {
			return false
		}
	}
	return true
}

var unknownBits bitvec

// bits of an integer term; s (may be nil) gives what is known about ranges.
func (k *ai) bits(s *astate, t *T) bitvec {
	if n, ok := t.intVal(); ok {
		return constBits(n)
	}
	v := k.bitsOf(s, t)
	if s != nil && t.typ != nil && isInteger(t.typ) {
		if r := k.rangeOf(s, t); r.lo >= 0 && r.hi < math.MaxInt64 {
			for i := bits.Len64(uint64(r.hi)); i < 64; i++ {
				v[i] = vbit{kind: bitZero}
			}
		}
	}
	return v
}

func (k *ai) bitsOf(s *astate, t *T) bitvec {
	fit := func(v bitvec) bitvec {
		if t.typ != nil && isInteger(t.typ) {
			return v.fit(t.typ)
		}
		return v
	}
	pow2 := func(n int64) (int, bool) {
		if n > 0 && n&(n-1) == 0 {
			return bits.TrailingZeros64(uint64(n)), true
		}
		return 0, false
	}
	switch t.op {
	case "conv":
		if t.args[0].typ != nil && isInteger(t.args[0].typ) {
			return fit(k.bits(s, t.args[0]))
		}
	case "&", "|", "^", "+":
		r := k.bits(s, t.args[0])
		for _, a := range t.args[1:] {
			b := k.bits(s, a)
			switch t.op {
			case "&":
				r = r.and(b)
			case "|":
				r = r.or(b)
			case "^":
				r = r.xor(b)
			case "+":
				if !disjoint(r, b) {
					return k.atomBits(t)
				}
				r = r.or(b)
			}
		}
		return fit(r)
	case "<<", ">>":
		n, ok := t.args[1].intVal()
		if !ok || n < 0 || n > 63 {
			break
		}
		if t.op == "<<" {
			return fit(k.bits(s, t.args[0]).shl(int(n)))
		}
		signed := t.typ != nil && isInteger(t.typ) && t.typ.Underlying().(*types.Basic).Info()&types.IsUnsigned == 0
		return fit(k.bits(s, t.args[0]).shr(int(n), signed))
	case "*":
		if len(t.args) == 2 {
			for i := range t.args {
				if n, ok := t.args[i].intVal(); ok {
					if sh, ok := pow2(n); ok {
						return fit(k.bits(s, t.args[1-i]).shl(sh))
					}
				}
			}
		}
	case "/", "%":
		// of something that is not negative
		if n, ok := t.args[1].intVal(); ok && s != nil && k.rangeOf(s, t.args[0]).lo >= 0 {
			if sh, ok := pow2(n); ok {
				if t.op == "/" {
					return k.bits(s, t.args[0]).shr(sh, false)
				}
				return k.bits(s, t.args[0]).and(constBits(n - 1))
			}
		}
	case "lin":
		p := k.poly(t)
		if p.c0 < 0 {
			return k.atomBits(t)
		}
		r := constBits(p.c0)
		var as []*T
		for a := range p.m {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			sh, ok := pow2(p.m[a])
			if !ok {
				return k.atomBits(t)
			}
			b := k.bits(s, a).shl(sh)
			if !disjoint(r, b) {
				return k.atomBits(t)
			}
			r = r.or(b)
		}
		return r
	case "rd":
		n := kindSize(t.s)
		ver, _ := t.args[2].strVal()
		r := constBits(0)
		u8 := types.Typ[types.Uint8]
		for j := 0; j < n; j++ {
			b := k.mk(&T{op: "load", s: ver, typ: u8, args: []*T{k.idx(t.args[0], k.add(t.args[1], k.num(int64(j))), u8)}})
			sh := 8 * j
			if t.s[0] == 'b' {
				sh = 8 * (n - 1 - j)
			}
			r = r.or(k.atomBits(b).shl(sh))
		}
		return r
	}
	return k.atomBits(t)
}

func (k *ai) atomBits(t *T) (v bitvec) {
	w := 64
	if t.typ != nil {
		if !isInteger(t.typ) {
			return unknownBits
		}
		w = intSize(t.typ) * 8
	}
	if w == 0 {
		return unknownBits
	}
	for i := 0; i < w; i++ {
		v[i] = vbit{bitFrom, t, int8(i)}
	}
	if t.typ == nil {
		return v
	}
	return v.fit(t.typ)
}

// known: no bit is unknown.
func (v bitvec) known() bool {
	for _, b := range v {
		if b.kind == bitUnknown {
			return false
		}
	}
	return true
}

// show describes the vector as runs.
func (v bitvec) show(w int) string {
	out := ""
	for i := 0; i < w; {
		j := i + 1
		b := v[i]
		for j < w {
			c := v[j]
			if c.kind != b.kind || b.kind == bitFrom && (c.src != b.src || int(c.n) != int(b.n)+j-i) {
				break
			}
			j++
		}
		s := ""
		switch b.kind {
		case bitFrom:
			s = fmt.Sprintf("%s[%d..%d]", b.src, b.n, int(b.n)+j-i-1)
		default:
			s = fmt.Sprintf("%s*%d", b, j-i)
		}
		if out != "" {
			out += " "
		}
		out += s
		i = j
	}
	return out
}

// bytesRead recognises a value that is n little-endian (or big-endian) bytes
// at base[off:], sign or zero extended.
func (k *ai) bytesRead(s *astate, t *T) (base, off *T, kind string, signed, ok bool) {
	v := k.bits(s, t)
	byteAt := func(p int) *T { // the byte bits p..p+7 are
		b := v[p]
		if b.kind != bitFrom || b.n != 0 || b.src.op != "load" || b.src.args[0].op != "idx" || intSize(b.src.typ) != 1 {
			return nil
		}
		for i := 1; i < 8; i++ {
			if v[p+i] != (vbit{bitFrom, b.src, int8(i)}) {
				return nil
			}
		}
		return b.src
	}
	var bs []*T
	for n := 0; n < 8; n++ {
		b := byteAt(8 * n)
		if b == nil {
			break
		}
		bs = append(bs, b)
	}
	n := len(bs)
	if n != 1 && n != 2 && n != 4 && n != 8 {
		return
	}
	for i := 8 * n; i < 64; i++ {
		switch {
		case v[i].kind == bitZero && !signed:
		case v[i] == v[8*n-1] && (signed || i == 8*n):
			signed = true
		default:
			return
		}
	}
	order := "le"
	lo := bs[0].args[0]
	if n > 1 {
		if d, okd := k.sub(bs[1].args[0].args[1], lo.args[1]).intVal(); okd && d == -1 {
			order = "be"
			lo = bs[n-1].args[0]
		}
	}
	for i, b := range bs {
		j := int64(i)
		if order == "be" {
			j = int64(n - 1 - i)
		}
		if b.args[0].args[0] != lo.args[0] || b.s != bs[0].s || k.sub(b.args[0].args[1], lo.args[1]) != k.num(j) {
			return
		}
	}
	return lo.args[0], lo.args[1], fmt.Sprintf("%s%d", order, n), signed, true
}
