package main

// Error-flow analysis (C01, C02).
//
// For every call that can fail (its last result is an error) a path-sensitive
// typestate walk follows the control-flow graph from the call under the
// assumption "this call's error is not nil". The abstract state is the set H
// of values and memory cells that hold that error (or an error made from it),
// plus the path's resolution of phi nodes to constants. Branches that H
// decides are pruned; nothing else is. The obligation is discharged when every
// remaining path ends in a reported failure: a return whose error operand is
// in H (or is certainly non-nil), a process exit with a non-zero status, a
// panic, or the error being left in the object's error field that its Err
// method reports. Helpers that take the error are summarised the same way.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type hkind uint8

const (
	hRaw     hkind = 1 // the very error of the failing call
	hDerived hkind = 2 // some other certainly non-nil error
)

type estate struct {
	b     *ssa.BasicBlock
	i     int
	prev  *ssa.BasicBlock
	h     map[ssa.Value]hkind
	cells map[string]cellVal
	alias map[ssa.Value]ssa.Value
	bools map[ssa.Value]bool // values a branch has decided on this path
	from  *estate
	note  string
}

type cellVal struct {
	h hkind     // 0: not an error we know
	c ssa.Value // known constant, or nil
}

func (s *estate) clone() *estate {
	n := *s
	n.h = map[ssa.Value]hkind{}
	for k, v := range s.h {
		n.h[k] = v
	}
	n.cells = map[string]cellVal{}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.alias = map[ssa.Value]ssa.Value{}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	n.bools = map[ssa.Value]bool{}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	n.from = s
	n.note = ""
	return &n
}

func (s *estate) key() string {
	var ks []string
	for v, k := range s.h {
		ks = append(ks, fmt.Sprintf("h%s%d", v.Name(), k))
	}
	for c, v := range s.cells {
		cs := ""
		if v.c != nil {
			cs = v.c.String()
		}
		ks = append(ks, fmt.Sprintf("c%s=%d%s", c, v.h, cs))
	}
	for a, v := range s.alias {
		ks = append(ks, fmt.Sprintf("a%s=%s", a.Name(), valID(v)))
	}
	for a, v := range s.bools {
		ks = append(ks, fmt.Sprintf("b%s=%v", a.Name(), v))
	}
	sort.Strings(ks)
	pb := -1
	if s.prev != nil {
		pb = s.prev.Index
	}
	return fmt.Sprintf("%d.%d.%d|%s", s.b.Index, s.i, pb, strings.Join(ks, ","))
}

func valID(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return "const " + c.String()
	}
	return v.Name()
}

// exitDesc describes how a walked function can come back to its caller.
type exitDesc struct {
	nonnil []bool          // per result: certainly a non-nil error
	consts []*ssa.Const    // per result: known constant
	cells  map[string]bool // "p<i>.<field>" parameter-rooted cells holding the error
	ok     bool            // judged as reported
}

type ewalk struct {
	w          *World
	ec         *errChecker
	fn         *ssa.Function
	src        ssa.CallInstruction // nil in summaries
	srcLoad    ssa.Value           // source that is a load (Err accessors)
	reader     bool
	depth      int
	exits      []exitDesc
	bad        *estate
	badWhy     string
	steps      int
	sentinel   bool        // some path ended on a sentinel comparison
	parsed     []ssa.Value // other results of a parse call
	usedParsed bool
	testedErr  bool
}

type errChecker struct {
	w        *World
	mayExit  map[*ssa.Function]bool
	sums     map[string]*sumRes
	busy     map[string]bool
	readers  map[*ssa.Function]bool
	reachTok map[*ssa.Function]bool
	stores   map[*ssa.Function]map[string]bool // error fields a function may store (class keys)
}

type sumRes struct {
	exits   []exitDesc
	unknown bool
	exit0   bool
}

func newErrChecker(w *World) *errChecker {
	ec := &errChecker{w: w, sums: map[string]*sumRes{}, busy: map[string]bool{}}
	ec.mayExit = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range w.allFns {
			if ec.mayExit[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Panic); ok {
						ec.mayExit[f] = true
					}
					if c, ok := in.(*ssa.Call); ok {
						if isExitCall(c) != exitNone {
							ec.mayExit[f] = true
						} else if g := c.Call.StaticCallee(); g != nil && ec.mayExit[g] {
							ec.mayExit[f] = true
						}
					}
				}
			}
			if ec.mayExit[f] {
				ch = true
			}
		}
	}
	ec.findReaders()
	tok := w.method("", "JapaneseTokenizer", "Tokenize")
	ec.reachTok = map[*ssa.Function]bool{}
	if tok != nil {
		for _, f := range w.allFns {
			if w.reachable([]*ssa.Function{f})[tok] {
				ec.reachTok[f] = true
			}
		}
	}
	return ec
}

type exitKind int

const (
	exitNone  exitKind = iota
	exitCode           // os.Exit(arg)
	exitFatal          // log.Fatal and friends
)

func isExitCall(c *ssa.Call) exitKind {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return exitNone
	}
	switch f.Pkg.Pkg.Path() {
	case "os", "syscall":
		if f.Name() == "Exit" {
			return exitCode
		}
	case "log":
		if strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic") {
			return exitFatal
		}
	}
	return exitNone
}

// findReaders computes which functions may return io.EOF as their normal end.
func (ec *errChecker) findReaders() {
	ec.readers = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range ec.w.allFns {
			if ec.readers[f] || errResult(f.Signature) < 0 {
				continue
			}
			ei := errResult(f.Signature)
			for _, b := range f.Blocks {
				ret, ok := lastInstr(b).(*ssa.Return)
				if !ok || len(ret.Results) <= ei {
					continue
				}
				if ec.fromReader(ret.Results[ei], map[ssa.Value]bool{}) {
					ec.readers[f] = true
					ch = true
					break
				}
			}
		}
	}
}

func lastInstr(b *ssa.BasicBlock) ssa.Instruction {
	if len(b.Instrs) == 0 {
		return nil
	}
	return b.Instrs[len(b.Instrs)-1]
}

func (ec *errChecker) fromReader(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if ec.fromReader(e, seen) {
				return true
			}
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return ec.isReaderCall(c)
		}
	case *ssa.Call:
		return ec.isReaderCall(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
				return true
			}
			// a local cell
			if a, ok := v.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a && ec.fromReader(st.Val, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

var readerNames = map[string]bool{
	"Read": true, "ReadSlice": true, "ReadLine": true, "ReadString": true, "ReadBytes": true,
	"ReadByte": true, "ReadRune": true, "ReadFull": true, "ReadAt": true, "ReadAtLeast": true, "Token": true,
}

func (ec *errChecker) isReaderCall(c ssa.CallInstruction) bool {
	com := c.Common()
	if f := com.StaticCallee(); f != nil {
		if ec.w.inModule(f) {
			return ec.readers[f]
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" {
			return false
		}
		return readerNames[f.Name()]
	}
	if com.IsInvoke() {
		return readerNames[com.Method.Name()]
	}
	return false
}

// ---- the walk ------------------------------------------------------------

// resolve follows phi aliases on this path.
func (s *estate) resolve(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		n, ok := s.alias[v]
		if !ok {
			return v
		}
		v = n
	}
	return v
}

func (k *ewalk) hOf(s *estate, v ssa.Value) hkind {
	v = s.resolve(v)
	if h, ok := s.h[v]; ok {
		return h
	}
	switch v := v.(type) {
	case *ssa.Extract:
		if _, ok := v.Tuple.(*ssa.Call); ok {
			if h, ok := s.h[v.Tuple]; ok && isErrorType(v.Type()) {
				return h
			}
		}
	case *ssa.ChangeInterface:
		return k.hOf(s, v.X)
	case *ssa.MakeInterface:
		if isErrorType(v.Type()) {
			if _, isPtr := v.X.Type().Underlying().(*types.Pointer); !isPtr {
				return hDerived
			}
			if _, ok := v.X.(*ssa.Alloc); ok {
				return hDerived
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && k.w.sentinelGlobal(g) {
				return hDerived
			}
		}
	}
	return 0
}

// sentinelGlobal: a package-level error made once by errors.New and friends.
func (w *World) sentinelGlobal(g *ssa.Global) bool {
	if !isErrorType(g.Type().(*types.Pointer).Elem()) {
		return false
	}
	if !w.modPkg[g.Pkg.Pkg] {
		return true // io.EOF, bufio.ErrBufferFull, ...
	}
	v := w.globValue(g)
	c, ok := v.(*ssa.Call)
	return ok && makesError(c)
}

// makesError: calls whose error result is never nil.
func makesError(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	return false
}

func (k *ewalk) cellKey(s *estate, addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return "a:" + a.Name()
	case *ssa.FreeVar:
		return "f:" + a.Name()
	case *ssa.Global:
		return "g:" + a.String()
	case *ssa.FieldAddr:
		b := k.baseKey(s, a.X)
		if b == "" {
			return ""
		}
		return fmt.Sprintf("%s.%d", b, a.Field)
	}
	return ""
}

func (k *ewalk) baseKey(s *estate, v ssa.Value) string {
	v = s.resolve(v)
	switch b := v.(type) {
	case *ssa.Parameter:
		return "p:" + b.Name()
	case *ssa.FieldAddr:
		return k.cellKey(s, b)
	case *ssa.UnOp:
		if b.Op == token.MUL {
			c := k.cellKey(s, b.X)
			if c != "" {
				return "*" + c
			}
		}
		return ""
	case *ssa.Alloc:
		return "a:" + b.Name()
	case *ssa.FreeVar:
		return "f:" + b.Name()
	case *ssa.Global:
		return "g:" + b.String()
	}
	return "v:" + v.Name()
}

// truth evaluates a boolean on this path: 1 true, -1 false, 0 unknown.
// sent reports that cond compares the raw error with a sentinel: +1 the true
// edge means equal, -1 the false edge means equal.
func (k *ewalk) truth(s *estate, v ssa.Value) (t int, sent int) {
	v = s.resolve(v)
	if bv, ok := s.bools[v]; ok {
		if bv {
			return 1, 0
		}
		return -1, 0
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return 1, 0
			}
			return -1, 0
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			t, st := k.truth(s, v.X)
			return -t, -st
		}
		if v.Op == token.MUL {
			if c := k.cellKey(s, v.X); c != "" {
				if cv, ok := s.cells[c]; ok && cv.c != nil {
					return k.truth(s, cv.c)
				}
			}
		}
	case *ssa.BinOp:
		if v.Op != token.EQL && v.Op != token.NEQ {
			x, okx := s.constOf(k, v.X)
			y, oky := s.constOf(k, v.Y)
			if okx && oky && x.Value != nil && y.Value != nil {
				switch v.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ:
					if constant.Compare(x.Value, v.Op, y.Value) {
						return 1, 0
					}
					return -1, 0
				}
			}
			return 0, 0
		}
		sign := 1
		if v.Op == token.NEQ {
			sign = -1
		}
		x, y := s.resolve(v.X), s.resolve(v.Y)
		if isNilConst(x) {
			x, y = y, x
		}
		if isNilConst(y) {
			if k.valH(s, x) != 0 {
				return -sign, 0
			}
			if isNilConst(x) || k.cellNil(s, x) {
				return sign, 0
			}
			return 0, 0
		}
		hx, hy := k.valH(s, x), k.valH(s, y)
		if isErrorType(x.Type()) {
			if sentinelName(y) != "" && hx == hRaw {
				if k.acceptsSentinel(sentinelName(y)) {
					return 0, sign
				}
				return 0, 0
			}
			if sentinelName(x) != "" && hy == hRaw {
				if k.acceptsSentinel(sentinelName(x)) {
					return 0, sign
				}
				return 0, 0
			}
			return 0, 0
		}
		cx, okx := s.constOf(k, x)
		cy, oky := s.constOf(k, y)
		if okx && oky && cx.Value != nil && cy.Value != nil && cx.Value.Kind() == cy.Value.Kind() {
			eq := constant.Compare(cx.Value, token.EQL, cy.Value)
			if eq == (sign == 1) {
				return 1, 0
			}
			return -1, 0
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "Is" && len(v.Call.Args) == 2 {
			if k.valH(s, v.Call.Args[0]) == hRaw && k.acceptsSentinel(sentinelName(s.resolve(v.Call.Args[1]))) {
				return 0, 1
			}
		}
	}
	return 0, 0
}

// valH: does v hold a non-nil error here (values and loaded cells)?
func (k *ewalk) valH(s *estate, v ssa.Value) hkind {
	if h := k.hOf(s, v); h != 0 {
		return h
	}
	return 0
}

func (k *ewalk) cellNil(s *estate, v ssa.Value) bool {
	_ = s
	_ = v
	return false
}

func (s *estate) constOf(k *ewalk, v ssa.Value) (*ssa.Const, bool) {
	v = s.resolve(v)
	c, ok := v.(*ssa.Const)
	return c, ok
}

func sentinelName(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && isErrorType(g.Type().(*types.Pointer).Elem()) {
			return g.Pkg.Pkg.Path() + "." + g.Name()
		}
	}
	return ""
}

func (k *ewalk) acceptsSentinel(n string) bool {
	switch n {
	case "io.EOF":
		return k.reader
	case "bufio.ErrBufferFull":
		return k.reader && k.src != nil && calleeName(k.src) == "ReadSlice"
	}
	return false
}

func calleeName(c ssa.CallInstruction) string {
	if f := c.Common().StaticCallee(); f != nil {
		return f.Name()
	}
	if c.Common().IsInvoke() {
		return c.Common().Method.Name()
	}
	return ""
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// redefine drops what is known about v because its instruction runs again.
func (s *estate) redefine(v ssa.Value) {
	for a, t := range s.alias {
		if t == v {
			if h, ok := s.h[v]; ok {
				s.h[a] = h
			}
			if b, ok := s.bools[v]; ok {
				s.bools[a] = b
			}
			delete(s.alias, a)
		}
	}
	delete(s.h, v)
	delete(s.bools, v)
	delete(s.alias, v)
}

const maxSteps = 60000

// run explores from the start states; it fills exits / bad.
func (k *ewalk) run(starts ...*estate) {
	seen := map[string]bool{}
	work := starts
	for len(work) > 0 && (k.bad == nil || len(k.parsed) > 0 && k.steps < maxSteps) {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		key := s.key()
		if seen[key] {
			continue
		}
		seen[key] = true
		k.steps++
		if k.steps > maxSteps {
			k.fail(s, "undecided: too many paths")
			return
		}
		work = append(work, k.step(s)...)
	}
}

func (k *ewalk) fail(s *estate, why string) {
	if k.bad == nil {
		k.bad = s
		k.badWhy = why
	}
}

// step runs one block from s.i and returns successor states.
func (k *ewalk) step(s0 *estate) []*estate {
	s := s0.clone()
	for ; s.i < len(s.b.Instrs); s.i++ {
		in := s.b.Instrs[s.i]
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				s.redefine(v)
			}
		}
		if len(k.parsed) > 0 && in == ssa.Instruction(k.src) {
			k.fail(s, "the loop goes on to the next attempt and the error is lost")
			return nil
		}
		if len(k.parsed) > 0 && !k.usedParsed {
			k.checkParsedUse(s, in)
		}
		switch in := in.(type) {
		case *ssa.Phi:
			// handled at block entry
		case *ssa.Store:
			c := k.cellKey(s, in.Addr)
			if c == "" {
				break
			}
			h := k.valH(s, in.Val)
			var cv ssa.Value
			if cc, ok := s.constOf(k, in.Val); ok {
				cv = cc
			}
			// kill cells below a overwritten pointer or struct
			for o := range s.cells {
				if o == c || strings.HasPrefix(o, c+".") || strings.HasPrefix(o, "*"+c+".") {
					delete(s.cells, o)
				}
			}
			if h != 0 || cv != nil && trackable(in.Val.Type()) {
				s.cells[c] = cellVal{h, cv}
			}
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if c := k.cellKey(s, in.X); c != "" {
					if cv, ok := s.cells[c]; ok {
						if cv.h != 0 {
							s.h[in] = cv.h
						} else if cv.c != nil {
							s.alias[in] = cv.c
						}
					}
				}
			}
		case *ssa.Extract:
			if cs, ok := in.Tuple.(*ssa.Call); ok {
				if h, ok := s.h[cs]; ok && isErrorType(in.Type()) {
					s.h[in] = h
				}
			}
		case *ssa.MakeInterface, *ssa.ChangeInterface:
			v := in.(ssa.Value)
			if ci, ok := in.(*ssa.ChangeInterface); ok {
				if h := k.valH(s, ci.X); h != 0 {
					s.h[v] = h
				}
			} else if mi := in.(*ssa.MakeInterface); isErrorType(mi.Type()) {
				if h := k.hOf(s, v); h != 0 {
					s.h[v] = h
				}
			}
		case *ssa.Send:
			if k.valH(s, in.X) != 0 {
				k.exits = append(k.exits, exitDesc{ok: true})
				return nil
			}
		case *ssa.MapUpdate:
		case *ssa.Call:
			if stop := k.call(s, in); stop {
				return nil
			}
		case *ssa.Defer, *ssa.Go:
		case *ssa.RunDefers:
			k.runDefers(s)
		case *ssa.Panic:
			return nil
		case *ssa.Return:
			k.ret(s, in)
			return nil
		case *ssa.Jump:
			return []*estate{k.enter(s, s.b.Succs[0])}
		case *ssa.If:
			t, sent := k.truth(s, in.Cond)
			if k.errTest(s, in.Cond) {
				k.testedErr = true
			}
			var out []*estate
			for e := 0; e < 2; e++ {
				want := 1
				if e == 1 {
					want = -1
				}
				if t == -want {
					continue
				}
				if sent == want {
					k.sentinel = true
					continue // a legitimate end of input
				}
				if t == 0 && e == k.ignoreEdge(in.Cond) {
					continue
				}
				n := s.clone()
				n.note = k.w.posOf(in)
				if t == 0 && sent == 0 {
					rv := s.resolve(in.Cond)
					if _, ok := rv.(*ssa.Const); !ok {
						// remember pure tests of parameters and of earlier results
						if _, isCall := rv.(*ssa.Call); isCall || isParamVal(rv) {
							n.bools[rv] = e == 0
						}
					}
				}
				out = append(out, k.enter(n, s.b.Succs[e]))
			}
			return out
		}
	}
	return nil
}

func isParamVal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter:
		return true
	}
	return false
}

func trackable(t types.Type) bool {
	if isErrorType(t) {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

func (k *ewalk) errTest(s *estate, cond ssa.Value) bool {
	if b, ok := s.resolve(cond).(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		return k.valH(s, b.X) != 0 || k.valH(s, b.Y) != 0
	}
	return false
}

// enter moves s to block t, resolving t's phis for this edge.
func (k *ewalk) enter(s *estate, t *ssa.BasicBlock) *estate {
	n := s.clone()
	n.note = s.note
	pi := -1
	for i, p := range t.Preds {
		if p == s.b {
			pi = i
			// both edges of an If may lead to t: choose by occurrence is
			// irrelevant unless phi operands differ; SSA has critical edges
			// split for that in practice
			break
		}
	}
	type upd struct {
		phi *ssa.Phi
		val ssa.Value
		h   hkind
	}
	var us []upd
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := phi.Edges[pi]
		r := s.resolve(e)
		us = append(us, upd{phi, r, k.valH(s, e)})
	}
	for _, u := range us {
		n.redefine(u.phi)
	}
	for _, u := range us {
		if u.val == ssa.Value(u.phi) {
			if u.h != 0 {
				n.h[u.phi] = u.h
			}
			if b, ok := s.bools[u.phi]; ok {
				n.bools[u.phi] = b
			}
			continue
		}
		_, isConst := u.val.(*ssa.Const)
		switch {
		case isConst && (trackable(u.phi.Type())):
			n.alias[u.phi] = u.val
		case isErrorType(u.phi.Type()):
			if u.h != 0 {
				n.h[u.phi] = u.h
			} else {
				n.alias[u.phi] = u.val
			}
		case isBool(u.phi.Type()):
			n.alias[u.phi] = u.val
		}
	}
	// aliases to a phi redefined above were handled by redefine
	n.prev = s.b
	n.b = t
	n.i = 0
	for n.i < len(t.Instrs) {
		if _, ok := t.Instrs[n.i].(*ssa.Phi); !ok {
			break
		}
		n.i++
	}
	n.prev = nil // phis are resolved; the predecessor no longer matters
	return n
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// call handles a call on a failing path; true: the path ends here.
func (k *ewalk) call(s *estate, c *ssa.Call) bool {
	switch isExitCall(c) {
	case exitFatal:
		return true
	case exitCode:
		a, ok := s.constOf(k, c.Call.Args[0])
		if ok && a.Value != nil && constant.Sign(a.Value) != 0 {
			return true
		}
		if ok {
			k.fail(s, "the process exits with status 0 at "+k.w.posOf(c))
		} else {
			k.fail(s, "the process exits with a status that may be 0 at "+k.w.posOf(c))
		}
		return true
	}
	if makesError(c) {
		s.h[c] = hDerived
		return false
	}
	// a parse whose failure only selects the next attempt on the same input
	if k.src != nil && k.isParse(k.src) && c != k.src && errResult(c.Call.Signature()) >= 0 && !makesError(c) {
		r := inputRoot(k.src.Common().Args[0])
		for _, a := range c.Call.Args {
			if inputRoot(a) == r {
				return true
			}
		}
	}
	// the same accessor asked again
	if k.src != nil && c != k.src && calleeName(k.src) == "Err" && calleeName(c) == "Err" && recvOf(c) == recvOf(k.src) && recvOf(c) != nil {
		return true
	}
	if c.Call.IsInvoke() {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		// a closure kept in a variable
		return false
	}
	var hp []int
	for i, a := range c.Call.Args {
		if k.valH(s, a) != 0 {
			hp = append(hp, i)
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "errors" && f.Name() == "Join" {
		s.h[c] = hDerived // conservative enough: only used with H operands below
		if len(hp) == 0 {
			delete(s.h, c)
		}
	}
	if !k.w.inModule(f) || len(f.Blocks) == 0 {
		if len(hp) > 0 && errResult(f.Signature) >= 0 && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "errors") {
			s.h[c] = hDerived
		}
		return false
	}
	if len(hp) == 0 && !k.ec.mayExit[f] {
		return false
	}
	if k.depth > 6 {
		return false
	}
	sr := k.ec.summary(f, hp, k)
	if sr.unknown {
		return false
	}
	if sr.exit0 {
		k.fail(s, "the process may exit with status 0 in "+k.w.fname(f))
		return true
	}
	if len(sr.exits) == 0 {
		return true // never returns
	}
	if len(hp) == 0 {
		return false
	}
	n := f.Signature.Results().Len()
	for i := 0; i < n; i++ {
		nn := true
		var cst *ssa.Const
		same := true
		for j, e := range sr.exits {
			if i >= len(e.nonnil) || !e.nonnil[i] {
				nn = false
			}
			var ec *ssa.Const
			if i < len(e.consts) {
				ec = e.consts[i]
			}
			if j == 0 {
				cst = ec
			} else if !sameConst(cst, ec) {
				same = false
			}
		}
		var target ssa.Value = c
		if n > 1 {
			target = nil
			for _, r := range *c.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index == i {
					target = x
				}
			}
		}
		if target == nil {
			continue
		}
		if nn && isErrorType(f.Signature.Results().At(i).Type()) {
			if n == 1 {
				s.h[c] = hDerived
			} else {
				s.h[c] = hDerived // Extract of an error type picks it up
			}
		} else if same && cst != nil && n == 1 && trackable(c.Type()) {
			s.alias[c] = cst
		}
	}
	// cells the helper filled
	if len(sr.exits) > 0 {
		for cell := range sr.exits[0].cells {
			all := true
			for _, e := range sr.exits {
				if !e.cells[cell] {
					all = false
				}
			}
			if !all {
				continue
			}
			for i, p := range f.Params {
				pre := "p:" + p.Name()
				if strings.HasPrefix(cell, pre+".") && i < len(c.Call.Args) {
					base := k.baseKey(s, c.Call.Args[i])
					if base != "" {
						s.cells[base+strings.TrimPrefix(cell, pre)] = cellVal{h: hDerived}
					}
				}
			}
		}
	}
	return false
}

func sameConst(a, b *ssa.Const) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Value == nil || b.Value == nil {
		return a.Value == b.Value
	}
	return a.Value.Kind() == b.Value.Kind() && constant.Compare(a.Value, token.EQL, b.Value)
}

// summary walks f with the given parameters holding the error.
func (ec *errChecker) summary(f *ssa.Function, hp []int, k *ewalk) *sumRes {
	key := fmt.Sprintf("%s|%v|%v", ec.w.fnKey(f), hp, k.reader)
	if r, ok := ec.sums[key]; ok {
		return r
	}
	if ec.busy[key] {
		return &sumRes{unknown: true}
	}
	ec.busy[key] = true
	defer delete(ec.busy, key)
	n := &ewalk{w: ec.w, ec: ec, fn: f, depth: k.depth + 1, reader: k.reader, src: nil}
	s := newState(f)
	for _, i := range hp {
		if i < len(f.Params) {
			s.h[f.Params[i]] = hRaw
		}
	}
	n.run(s)
	r := &sumRes{exits: n.exits}
	if n.bad != nil {
		if strings.Contains(n.badWhy, "status") {
			r.exit0 = true
		} else {
			r.unknown = true
		}
	}
	ec.sums[key] = r
	return r
}

func newState(f *ssa.Function) *estate {
	return &estate{b: f.Blocks[0], h: map[ssa.Value]hkind{}, cells: map[string]cellVal{}, alias: map[ssa.Value]ssa.Value{}, bools: map[ssa.Value]bool{}}
}

// runDefers applies deferred closures that may overwrite a captured error.
func (k *ewalk) runDefers(s *estate) {
	for _, b := range k.fn.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			mc, ok := d.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			g, ok := mc.Fn.(*ssa.Function)
			if !ok || len(g.Blocks) == 0 {
				continue
			}
			var bound []int
			for i, bv := range mc.Bindings {
				c := k.cellKey(s, bv)
				if c != "" && s.cells[c].h != 0 {
					bound = append(bound, i)
				}
			}
			if len(bound) == 0 {
				continue
			}
			n := &ewalk{w: k.w, ec: k.ec, fn: g, depth: k.depth + 1, reader: k.reader}
			ns := newState(g)
			for _, i := range bound {
				ns.cells["f:"+g.FreeVars[i].Name()] = cellVal{h: s.cells[k.cellKey(s, mc.Bindings[i])].h}
			}
			n.run(ns)
			for _, i := range bound {
				keep := n.bad == nil
				for _, e := range n.exits {
					if !e.cells["f:"+g.FreeVars[i].Name()] {
						keep = false
					}
				}
				if !keep {
					delete(s.cells, k.cellKey(s, mc.Bindings[i]))
				}
			}
		}
	}
}

// ret judges a return on a failing path.
func (k *ewalk) ret(s *estate, r *ssa.Return) {
	e := exitDesc{cells: map[string]bool{}}
	for _, v := range r.Results {
		nn := isErrorType(v.Type()) && k.valH(s, v) != 0
		c, _ := s.constOf(k, v)
		e.nonnil = append(e.nonnil, nn)
		e.consts = append(e.consts, c)
	}
	for c, v := range s.cells {
		if v.h != 0 {
			e.cells[c] = true
		}
	}
	ei := errResult(k.fn.Signature)
	if ei >= 0 && ei < len(e.nonnil) && e.nonnil[ei] {
		e.ok = true
	}
	if !e.ok {
		// left in an error field of the receiver that Err reports, or in a
		// variable captured from the enclosing function
		for c := range e.cells {
			if k.recorded(c) {
				e.ok = true
			}
		}
	}
	k.exits = append(k.exits, e)
	if k.src == nil && k.srcLoad == nil {
		return
	}
	if !e.ok {
		pos := k.w.posOf(r)
		if ei >= 0 {
			k.fail(s, "the function returns at "+pos+" with an error result that may be nil")
		} else {
			k.fail(s, "the function returns at "+pos+" without reporting it")
		}
	}
}

// recorded: cell is a field of a type with an Err method, or a captured
// variable.
func (k *ewalk) recorded(cell string) bool {
	if strings.HasPrefix(cell, "f:") && !strings.Contains(cell, ".") {
		return true
	}
	recv := k.fn.Signature.Recv()
	if recv != nil && len(k.fn.Params) > 0 {
		p := "p:" + k.fn.Params[0].Name() + "."
		if strings.HasPrefix(cell, p) && hasErrMethod(recv.Type()) {
			return true
		}
	}
	return false
}

func hasErrMethod(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	if _, ok := t.Underlying().(*types.Interface); !ok {
		if _, isPtr := t.(*types.Pointer); !isPtr {
			ms = types.NewMethodSet(types.NewPointer(t))
		}
	}
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		if m.Name() == "Err" {
			sig := m.Type().(*types.Signature)
			return sig.Params().Len() == 0 && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
		}
	}
	return false
}

func recvOf(c ssa.CallInstruction) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		return com.Value
	}
	if f := com.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(com.Args) > 0 {
		return com.Args[0]
	}
	return nil
}

// inputRoot strips slicing and conversions.
func inputRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (k *ewalk) isParse(c ssa.CallInstruction) bool { return isParseCall(c) }

func isParseCall(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strconv" && errResult(f.Signature) >= 0
}

func (k *ewalk) checkParsedUse(s *estate, in ssa.Instruction) {
	for _, op := range in.Operands(nil) {
		for _, p := range k.parsed {
			if *op == p {
				switch x := in.(type) {
				case *ssa.BinOp:
					switch x.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
						continue
					}
				case *ssa.DebugRef:
					continue
				}
				k.usedParsed = true
			}
		}
	}
}

// ignoreEdge returns the successor index (0/1) of a branch on the user's -f
// flag that means "ignore", or -1.
func (k *ewalk) ignoreEdge(cond ssa.Value) int {
	if k.src == nil {
		return -1
	}
	f := k.src.Common().StaticCallee()
	if f == nil || !k.ec.reachTok[f] {
		return -1
	}
	neg := false
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		break
	}
	if !isBool(cond.Type()) {
		return -1
	}
	os := k.w.origins(cond)
	if len(os) == 0 {
		return -1
	}
	for _, o := range os {
		if o != "flag:f" {
			return -1
		}
	}
	if neg {
		return 1
	}
	return 0
}
