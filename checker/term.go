package main

// Hash-consed value terms: the value-numbering domain of the abstract
// interpreter in ai.go. Integer sums and products are kept in a polynomial
// normal form, constants are folded, pure operations on equal operands are
// the same term.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// T is a term. Operators:
//
//	const nil other   constants; other: a value different from every constant
//	sym               an unknown value (s names it)
//	lin               c0 + sum coef[i]*args[i]
//	mul + - & | ^ ...  operations not in normal form
//	not eq lt         boolean operations
//	conv              an integer conversion that may change the value (s: type)
//	iface tuple agg closure func global alloc mkslice mkmap
//	fld idx slice     addresses and slices (fld: s is the field name)
//	load              contents of an address nothing is known about
//	len cap index field extract assert isType res call append ...
type T struct {
	id   int
	op   string
	s    string
	typ  types.Type
	args []*T
	coef []int64
	c0   int64
	cv   constant.Value
	v    ssa.Value // function, global or site
	in   ssa.Instruction
	fid  int
	hdr  *ssa.BasicBlock
}

type terms struct {
	tab map[string]*T
	all []*T
}

func (k *terms) mk(t *T) *T {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('\x00')
	sb.WriteString(t.s)
	sb.WriteByte('\x00')
	for i, a := range t.args {
		fmt.Fprintf(&sb, "%d", a.id)
		if t.coef != nil {
			fmt.Fprintf(&sb, "*%d", t.coef[i])
		}
		sb.WriteByte(',')
	}
	if t.c0 != 0 {
		fmt.Fprintf(&sb, "+%d", t.c0)
	}
	if t.cv != nil {
		fmt.Fprintf(&sb, "=%d:%s", t.cv.Kind(), t.cv.ExactString())
	}
	key := sb.String()
	if o, ok := k.tab[key]; ok {
		return o
	}
	t.id = len(k.all) + 1
	k.all = append(k.all, t)
	k.tab[key] = t
	return t
}

func (k *terms) op(op string, typ types.Type, args ...*T) *T {
	return k.mk(&T{op: op, typ: typ, args: args})
}

func (k *terms) ops(op, s string, typ types.Type, args ...*T) *T {
	return k.mk(&T{op: op, s: s, typ: typ, args: args})
}

func (k *terms) cst(c constant.Value, typ types.Type) *T {
	if c.Kind() == constant.Float || c.Kind() == constant.Int {
		if i := constant.ToInt(c); i.Kind() == constant.Int && isInteger(typ) {
			c = i
		}
	}
	return k.mk(&T{op: "const", cv: c, typ: typ})
}

func (k *terms) num(n int64) *T    { return k.cst(constant.MakeInt64(n), types.Typ[types.Int]) }
func (k *terms) str(s string) *T   { return k.cst(constant.MakeString(s), types.Typ[types.String]) }
func (k *terms) boolean(b bool) *T { return k.cst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (k *terms) null() *T          { return k.op("nil", nil) }
func (k *terms) other(s string) *T { return k.ops("other", s, nil) }
func (k *terms) sym(s string, typ types.Type) *T {
	return k.ops("sym", s, typ)
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// intRange of an integer type.
func intRange(t types.Type) (lo, hi int64, ok bool) {
	if t == nil {
		return
	}
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32, true
	case types.Int, types.Int64, types.UntypedInt:
		return math.MinInt64, math.MaxInt64, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true // upper end saturated
	}
	return
}

func (t *T) isConst() bool { return t.op == "const" || t.op == "nil" }

// intVal: the value of an integer constant.
func (t *T) intVal() (int64, bool) {
	if t.op != "const" || t.cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.cv)
}

func (t *T) strVal() (string, bool) {
	if t.op != "const" || t.cv.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.cv), true
}

func (t *T) boolVal() (v, ok bool) {
	if t.op != "const" || t.cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.cv), true
}

func wrap(c constant.Value, typ types.Type) constant.Value {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return c
	}
	bits := map[types.BasicKind]uint{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32, types.Int: 64, types.Int64: 64, types.Uint: 64, types.Uint64: 64, types.Uintptr: 64}[b.Kind()]
	if bits == 0 {
		return c
	}
	mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
	// c mod 2^bits, into [0, 2^bits)
	m := constant.BinaryOp(mod, token.SUB, constant.MakeInt64(1))
	u := constant.BinaryOp(c, token.AND, m)
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, bits-1)
		if constant.Compare(u, token.GEQ, half) {
			u = constant.BinaryOp(u, token.SUB, mod)
		}
	}
	return u
}

// ---- polynomial normal form -----------------------------------------------

type poly struct {
	m  map[*T]int64
	c0 int64
}

func (k *terms) poly(t *T) poly {
	if n, ok := t.intVal(); ok {
		return poly{map[*T]int64{}, n}
	}
	if t.op == "lin" {
		p := poly{map[*T]int64{}, t.c0}
		for i, a := range t.args {
			p.m[a] = t.coef[i]
		}
		return p
	}
	return poly{map[*T]int64{t: 1}, 0}
}

func (p poly) add(q poly, f int64) poly {
	r := poly{map[*T]int64{}, p.c0 + f*q.c0}
	for a, c := range p.m {
		r.m[a] = c
	}
	for a, c := range q.m {
		r.m[a] += f * c
		if r.m[a] == 0 {
			delete(r.m, a)
		}
	}
	return r
}

func (k *terms) ofPoly(p poly, typ types.Type) *T {
	if len(p.m) == 0 {
		return k.cst(constant.MakeInt64(p.c0), typ)
	}
	var as []*T
	for a := range p.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && p.c0 == 0 && p.m[as[0]] == 1 {
		return as[0]
	}
	t := &T{op: "lin", typ: typ, c0: p.c0, coef: []int64{}}
	for _, a := range as {
		t.args = append(t.args, a)
		t.coef = append(t.coef, p.m[a])
	}
	return k.mk(t)
}

func (k *terms) add(x, y *T) *T { return k.ofPoly(k.poly(x).add(k.poly(y), 1), x.typ) }
func (k *terms) sub(x, y *T) *T { return k.ofPoly(k.poly(x).add(k.poly(y), -1), x.typ) }

func factors(t *T) []*T {
	if t.op == "mul" {
		return t.args
	}
	return []*T{t}
}

func (k *terms) mul(x, y *T, typ types.Type) *T {
	p, q := k.poly(x), k.poly(y)
	r := poly{map[*T]int64{}, p.c0 * q.c0}
	for a, c := range p.m {
		r = r.add(poly{map[*T]int64{a: c * q.c0}, 0}, 1)
		for b, d := range q.m {
			fs := append(append([]*T{}, factors(a)...), factors(b)...)
			sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
			r = r.add(poly{map[*T]int64{k.op("mul", typ, fs...): c * d}, 0}, 1)
		}
	}
	for b, d := range q.m {
		r = r.add(poly{map[*T]int64{b: d * p.c0}, 0}, 1)
	}
	for a, c := range r.m {
		if c == 0 {
			delete(r.m, a)
		}
	}
	return k.ofPoly(r, typ)
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Int32, types.Uintptr, types.UntypedInt:
		return true
	}
	return false
}

// bin builds x op y of operand type typ.
func (k *terms) bin(op token.Token, x, y *T, typ types.Type) *T {
	switch op {
	case token.EQL:
		return k.eq(x, y)
	case token.NEQ:
		return k.not(k.eq(x, y))
	case token.LSS:
		return k.lt(x, y)
	case token.GTR:
		return k.lt(y, x)
	case token.LEQ:
		return k.not(k.lt(y, x))
	case token.GEQ:
		return k.not(k.lt(x, y))
	}
	if x.op == "const" && y.op == "const" {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := y.intVal(); ok && n >= 0 && n < 200 {
				return k.cst(wrap(constant.Shift(x.cv, op, uint(n)), typ), typ)
			}
		case token.QUO:
			if isInteger(typ) {
				if constant.Sign(y.cv) != 0 {
					return k.cst(wrap(constant.BinaryOp(x.cv, token.QUO_ASSIGN, y.cv), typ), typ)
				}
			} else if constant.Sign(y.cv) != 0 {
				return k.cst(constant.BinaryOp(x.cv, op, y.cv), typ)
			}
		case token.REM:
			if constant.Sign(y.cv) != 0 {
				return k.cst(wrap(constant.BinaryOp(x.cv, op, y.cv), typ), typ)
			}
		default:
			return k.cst(wrap(constant.BinaryOp(x.cv, op, y.cv), typ), typ)
		}
	}
	if isInteger(typ) && wide(typ) {
		switch op {
		case token.ADD:
			return k.add(x, y)
		case token.SUB:
			return k.sub(x, y)
		case token.MUL:
			return k.mul(x, y, typ)
		case token.SHL:
			if n, ok := y.intVal(); ok && n >= 0 && n < 40 {
				return k.mul(x, k.num(1<<uint(n)), typ)
			}
		}
	}
	if isInteger(typ) && op == token.AND_NOT && y.op == "const" {
		return k.bin(token.AND, x, k.cst(wrap(constant.UnaryOp(token.XOR, y.cv, 0), typ), typ), typ)
	}
	if isInteger(typ) && (op == token.AND || op == token.OR || op == token.XOR || op == token.ADD || op == token.MUL) {
		return k.acOp(op, x, y, typ)
	}
	if n, ok := y.intVal(); ok && n == 0 && (op == token.SHL || op == token.SHR || op == token.SUB) {
		return x
	}
	if op == token.ADD && isStringT(typ) {
		if s, ok := x.strVal(); ok && s == "" {
			return y
		}
		if s, ok := y.strVal(); ok && s == "" {
			return x
		}
		return k.op("concat", typ, x, y)
	}
	return k.op(op.String(), typ, x, y)
}

// acOp: an associative commutative operation, flattened, its constants
// folded.
func (k *terms) acOp(op token.Token, x, y *T, typ types.Type) *T {
	var as []*T
	var c *T
	var add func(t *T)
	add = func(t *T) {
		if t.op == op.String() {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "const" {
			if c == nil {
				c = t
			} else {
				c = k.cst(wrap(constant.BinaryOp(c.cv, op, t.cv), typ), typ)
			}
			return
		}
		as = append(as, t)
	}
	add(x)
	add(y)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	// x^x = 0, x&x = x|x = x
	if op != token.ADD && op != token.MUL {
		var bs []*T
		for i := 0; i < len(as); i++ {
			if i+1 < len(as) && as[i] == as[i+1] {
				if op == token.XOR {
					i++
					continue
				}
				continue
			}
			bs = append(bs, as[i])
		}
		as = bs
	}
	if c != nil {
		n, _ := c.intVal()
		neutral := n == 0 && (op == token.OR || op == token.XOR || op == token.ADD) || n == 1 && op == token.MUL
		if n == 0 && (op == token.AND || op == token.MUL) {
			return k.cst(constant.MakeInt64(0), typ)
		}
		if !neutral {
			as = append(as, c)
		}
	}
	switch len(as) {
	case 0:
		if c != nil {
			return c
		}
		return k.cst(constant.MakeInt64(0), typ)
	case 1:
		return as[0]
	}
	return k.op(op.String(), typ, as...)
}

func (k *terms) not(x *T) *T {
	if b, ok := x.boolVal(); ok {
		return k.boolean(!b)
	}
	if x.op == "not" {
		return x.args[0]
	}
	return k.op("not", types.Typ[types.Bool], x)
}

func (k *terms) eq(x, y *T) *T {
	if b, ok := y.boolVal(); ok {
		if b {
			return x
		}
		return k.not(x)
	}
	if b, ok := x.boolVal(); ok {
		if b {
			return y
		}
		return k.not(y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return k.op("eq", types.Typ[types.Bool], x, y)
}

func (k *terms) lt(x, y *T) *T { return k.op("lt", types.Typ[types.Bool], x, y) }

// ---- printing ---------------------------------------------------------------

func (t *T) String() string { return t.show(0) }

func (t *T) show(d int) string {
	if d > 12 {
		return "..."
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.show(d+1))
	}
	switch t.op {
	case "const":
		return t.cv.ExactString()
	case "nil":
		return "nil"
	case "other":
		return "<other " + t.s + ">"
	case "sym":
		return t.s
	case "lin":
		var p []string
		for i, a := range as {
			switch t.coef[i] {
			case 1:
				p = append(p, a)
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.coef[i], a))
			}
		}
		if t.c0 != 0 {
			p = append(p, strconv.FormatInt(t.c0, 10))
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "mul":
		return strings.Join(as, "*")
	case "not":
		return "!" + as[0]
	case "eq":
		return "(" + as[0] + " == " + as[1] + ")"
	case "lt":
		return "(" + as[0] + " < " + as[1] + ")"
	case "conv":
		return t.s + "(" + as[0] + ")"
	case "fld":
		return as[0] + "." + t.s
	case "idx":
		return as[0] + "[" + as[1] + "]"
	case "load":
		return "*" + as[0]
	case "slice":
		return as[0] + "[" + strings.Join(as[1:], ":") + "]"
	case "func", "global":
		return t.s
	case "alloc", "mkslice", "mkmap", "closure":
		return t.op + "#" + strconv.Itoa(t.id)
	}
	n := t.op
	if t.s != "" {
		n += ":" + t.s
	}
	if i := strings.IndexByte(n, '@'); i > 0 {
		n = n[:i]
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// walkT visits t and all its subterms once.
func walkT(t *T, f func(*T) bool) {
	seen := map[*T]bool{}
	var v func(*T)
	v = func(x *T) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			v(a)
		}
	}
	v(t)
}
