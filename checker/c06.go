package main

// C06: whatever a call leaves in the tokenizer is discarded before a later
// call reads it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "points-to and mod analysis; interprocedural must-reset-before-read dataflow", checkHistory)
}

// states of a field that survives calls
const (
	hDirty    = 0 // may hold what an earlier call left
	hReplaced = 1 // a fresh value was stored
	hCleared  = 2 // emptied in place: older copies of the slice are empty too
)

type hstate string // one byte per field

func (s hstate) with(i int, x byte) hstate {
	b := []byte(s)
	b[i] = x
	return hstate(b)
}

func joinH(a, b hstate) hstate {
	o := []byte(a)
	for i := range o {
		o[i] = min(o[i], b[i])
	}
	return hstate(o)
}

type halias struct {
	f     int  // field
	off   int  // a slice of it from this index on
	dirty bool // copied before the field was reset
}

type hist struct {
	w      *World
	p      *pta
	r      *Report
	home   map[int32]bool
	fields []ploc
	ctxs   map[*ssa.Function][]int
	memo   map[string]hstate
	quiet  int
	depth  int
	seen   map[string]bool
}

func (h *hist) fieldName(i int) string {
	l := h.fields[i]
	o := h.p.objs[l.o]
	t := o.site.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	name := "value"
	if n := namedOf(t); n != nil {
		name = n.Obj().Name()
	}
	for _, s := range strings.Split(strings.Trim(l.path, "."), ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || s == "" {
			break
		}
		var k int
		fmt.Sscan(s, &k)
		name += "." + st.Field(k).Name()
		t = st.Field(k).Type()
	}
	return name
}

func (h *hist) fieldType(l ploc) types.Type {
	o := h.p.objs[l.o]
	t := o.site.Type()
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	for _, s := range strings.Split(strings.Trim(l.path, "."), ".") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || s == "" {
			break
		}
		var k int
		fmt.Sscan(s, &k)
		t = st.Field(k).Type()
	}
	return t
}

func (h *hist) isContainer(i int) bool {
	switch h.fieldType(h.fields[i]).Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// locs: the surviving fields addr may denote, and whether it denotes nothing else.
func (h *hist) locs(f *ssa.Function, addr ssa.Value) (fs []int, only bool) {
	if _, ok := addr.(*ssa.FieldAddr); !ok {
		if _, ok := addr.Type().Underlying().(*types.Pointer); !ok {
			return nil, false
		}
	}
	only = true
	all := map[ploc]bool{}
	for _, c := range h.ctxs[f] {
		for l := range h.p.get(c, addr, "") {
			l.dyn = 0
			all[l] = true
		}
	}
	for l := range all {
		hit := false
		for i, q := range h.fields {
			if q.o == l.o && (q.path == l.path || strings.HasPrefix(q.path, l.path+".") || l.path == "" && q.path != "") {
				fs = append(fs, i)
				hit = true
			}
		}
		if !hit {
			only = false
		}
	}
	sort.Ints(fs)
	return fs, only && len(all) == 1
}

func constInt(v ssa.Value) (int, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	n, ok := constant.Int64Val(constant.ToInt(c.Value))
	return int(n), ok
}

// emptySlice: a value that carries nothing over.
func emptySlice(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Slice:
		if v.High != nil {
			if n, ok := constInt(v.High); ok && n <= 1 {
				return true
			}
		}
		_, ok := v.X.(*ssa.Alloc)
		return ok
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && emptySlice(v.Call.Args[0])
	}
	return false
}

// emptied: a value with no elements.
func emptied(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if v.High != nil {
			n, ok := constInt(v.High)
			return ok && n == 0
		}
		if a, ok := v.X.(*ssa.Alloc); ok {
			at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return ok && at.Len() == 0
		}
	}
	return false
}

// linear: v = base + n.
func linear(v ssa.Value) (ssa.Value, int) {
	if b, ok := v.(*ssa.BinOp); ok {
		if n, ok := constInt(b.Y); ok {
			switch b.Op {
			case token.ADD:
				x, m := linear(b.X)
				return x, m + n
			case token.SUB:
				x, m := linear(b.X)
				return x, m - n
			}
		}
		if n, ok := constInt(b.X); ok && b.Op == token.ADD {
			x, m := linear(b.Y)
			return x, m + n
		}
	}
	if n, ok := constInt(v); ok {
		return nil, n
	}
	return v, 0
}

type hframe struct {
	h     *hist
	f     *ssa.Function
	alias map[ssa.Value]halias
}

// aliasOf resolves v to (a slice of) a surviving field.
func (fr *hframe) aliasOf(v ssa.Value) (halias, bool) {
	if a, ok := fr.alias[v]; ok {
		return a, true
	}
	if s, ok := v.(*ssa.Slice); ok && s.High == nil {
		if a, ok := fr.aliasOf(s.X); ok {
			if s.Low == nil {
				return a, true
			}
			if n, ok := constInt(s.Low); ok {
				a.off += n
				return a, true
			}
		}
	}
	return halias{}, false
}

// lenOf: v is len of (a slice of) a surviving field.
func (fr *hframe) lenOf(v ssa.Value) (halias, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return halias{}, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return halias{}, false
	}
	return fr.aliasOf(c.Call.Args[0])
}

// clears: edge e of in is the exit of a loop that empties every element (but
// the first, where the sentinel is) of the returned field.
func (fr *hframe) clears(in *ssa.If, e int) (int, bool) {
	hd := in.Block()
	loop := loopBlocks(hd)
	if len(loop) == 0 || loop[hd.Succs[e]] || !loop[hd.Succs[1-e]] {
		return 0, false
	}
	for b := range loop {
		if b == hd {
			continue
		}
		for _, s := range b.Succs {
			if !loop[s] {
				return 0, false
			}
		}
	}
	cmp, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return 0, false
	}
	// normal form: stays in the loop while x op y
	op, x, y := cmp.Op, cmp.X, cmp.Y
	if e == 0 {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		default:
			return 0, false
		}
	}
	idxOf := func(v ssa.Value) (*ssa.Phi, int) {
		b, n := linear(v)
		p, _ := b.(*ssa.Phi)
		if p == nil || p.Block() != hd {
			return nil, 0
		}
		return p, n
	}
	phi, c := idxOf(x)
	if phi == nil {
		if phi, c = idxOf(y); phi == nil {
			return 0, false
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	var start ssa.Value
	step := 0
	for i, ed := range phi.Edges {
		if loop[hd.Preds[i]] {
			b, n := linear(ed)
			if b != ssa.Value(phi) || step != 0 && step != n {
				return 0, false
			}
			step = n
		} else if start != nil && start != ed {
			return 0, false
		} else {
			start = ed
		}
	}
	if start == nil {
		return 0, false
	}
	// the tested value v = phi + c runs over lo .. hi
	var a halias
	var lo, hiOff int // hi = len(a) + hiOff
	bb, bn := linear(y)
	sb, sn := linear(start)
	switch {
	case step == 1 && sb == nil:
		l, ok := fr.lenOf(bb)
		if !ok {
			return 0, false
		}
		a = l
		lo = sn + c
		switch op {
		case token.LSS, token.NEQ:
			hiOff = bn - 1
		case token.LEQ:
			hiOff = bn
		default:
			return 0, false
		}
	case step == -1 && bb == nil:
		l, ok := fr.lenOf(sb)
		if !ok {
			return 0, false
		}
		a = l
		hiOff = sn + c
		switch op {
		case token.GEQ:
			lo = bn
		case token.GTR, token.NEQ:
			lo = bn + 1
		default:
			return 0, false
		}
	default:
		return 0, false
	}
	// stores of nothing to element phi + d
	covers := map[*ssa.BasicBlock]bool{}
	skip := func(from *ssa.BasicBlock, k int) bool { return false }
	for b := range loop {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := st.Addr.(*ssa.IndexAddr)
			if !ok || !emptied(st.Val) {
				continue
			}
			q, ok := fr.aliasOf(ia.X)
			if !ok || q.f != a.f {
				continue
			}
			p2, d := linear(ia.Index)
			if p2 != ssa.Value(phi) {
				continue
			}
			// index in the field: value + (d-c) + q.off
			sh := d - c + q.off
			if lo+sh > 1 || hiOff-a.off+sh < -1 {
				continue
			}
			covers[b] = true
			skip = func(from *ssa.BasicBlock, k int) bool {
				return sentinelEdge(from, k, phi, d+q.off)
			}
		}
	}
	if len(covers) == 0 {
		return 0, false
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{hd.Succs[1-e]}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if b == hd {
			return 0, false
		}
		if seen[b] || covers[b] {
			continue
		}
		seen[b] = true
		for k, s := range b.Succs {
			if !skip(b, k) {
				work = append(work, s)
			}
		}
	}
	return a.f, true
}

// sentinelEdge: edge k of b is taken only for the first element (phi+d == 0).
func sentinelEdge(b *ssa.BasicBlock, k int, phi *ssa.Phi, d int) bool {
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, n := linear(c.X)
	m, ok := constInt(c.Y)
	if x != ssa.Value(phi) || !ok {
		return false
	}
	m += d - n // compares the index with m
	switch c.Op {
	case token.EQL:
		return m == 0 && k == 0
	case token.NEQ:
		return m == 0 && k == 1
	case token.LSS:
		return m <= 1 && k == 0
	case token.LEQ:
		return m <= 0 && k == 0
	case token.GTR:
		return m <= 0 && k == 1
	case token.GEQ:
		return m <= 1 && k == 1
	}
	return false
}

func refs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if r := v.Referrers(); r != nil {
		for _, x := range *r {
			if _, ok := x.(*ssa.DebugRef); !ok {
				out = append(out, x)
			}
		}
	}
	return out
}

// harmlessElem: the uses of the address of an element read nothing from it.
func harmlessElem(ia *ssa.IndexAddr) bool {
	for _, u := range refs(ia) {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr != ssa.Value(ia) {
				return false
			}
		case *ssa.UnOp:
			if !harmlessList(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// harmlessList: the uses of a leftover list discard what is in it.
func harmlessList(v ssa.Value) bool {
	for _, x := range refs(v) {
		switch x := x.(type) {
		case *ssa.Slice:
			if !emptied(x) && !harmlessList(x) {
				return false
			}
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "clear" && b.Name() != "cap" && !(b.Name() == "len" && boundsOnly(x)) {
				return false
			}
		case *ssa.IndexAddr:
			for _, y := range refs(x) {
				st, ok := y.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(x) {
					return false
				}
				if _, ok := st.Val.(*ssa.Const); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// boundsOnly: a length is only used to bound a loop.
func boundsOnly(v ssa.Value) bool {
	for _, x := range refs(v) {
		switch x := x.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
				for _, y := range refs(x) {
					in, ok := y.(*ssa.If)
					if !ok || len(loopBlocks(in.Block())) == 0 {
						return false
					}
				}
			case token.SUB:
				if !boundsOnly(x) {
					return false
				}
			default:
				return false
			}
		case *ssa.Phi:
			if len(loopBlocks(x.Block())) == 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sizesOnly: a length only bounds loops, is compared with a computed size, or
// sizes and indexes lists.
func sizesOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for _, x := range refs(v) {
		switch x := x.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				other := x.X
				if other == v {
					other = x.Y
				}
				if _, ok := other.(*ssa.Const); !ok {
					continue
				}
				for _, y := range refs(x) {
					in, ok := y.(*ssa.If)
					if !ok || len(loopBlocks(in.Block())) == 0 {
						return false
					}
				}
			default:
				if !sizesOnly(x, seen) {
					return false
				}
			}
		case *ssa.Phi, *ssa.Convert:
			if !sizesOnly(x.(ssa.Value), seen) {
				return false
			}
		case *ssa.MakeSlice, *ssa.IndexAddr, *ssa.Slice:
		default:
			return false
		}
	}
	return true
}

// frame analyses f from state in and returns the state at its returns.
func (h *hist) frame(f *ssa.Function, in hstate, alias map[ssa.Value]halias) hstate {
	key := fmt.Sprintf("%p|%s|", f, string(in))
	for i, p := range f.Params {
		if a, ok := alias[p]; ok {
			key += fmt.Sprintf("%d=%v;", i, a)
		}
	}
	if h.quiet == 0 {
		key += "!"
	}
	if s, ok := h.memo[key]; ok {
		return s
	}
	h.memo[key] = in // recursion: nothing is reset
	if h.depth > 60 {
		return in
	}
	h.depth++
	defer func() { h.depth-- }()
	fr := &hframe{h, f, map[ssa.Value]halias{}}
	for k, v := range alias {
		fr.alias[k] = v
	}
	// loads alias the field for as long as the function runs
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fs, _ := h.locs(f, u.X); len(fs) == 1 && h.isContainer(fs[0]) && types.Identical(u.Type().Underlying(), h.fieldType(h.fields[fs[0]]).Underlying()) {
					fr.alias[u] = halias{f: fs[0]}
				}
			}
		}
	}
	states := map[*ssa.BasicBlock]hstate{f.Blocks[0]: in}
	var out hstate
	has := false
	run := func(report bool) {
		if !report {
			h.quiet++
			defer func() { h.quiet-- }()
		}
		has = false
		for _, b := range f.DomPreorder() {
			s, ok := states[b]
			if !ok {
				continue
			}
			for _, x := range b.Instrs {
				s = fr.step(s, x)
			}
			switch last := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return:
				if has {
					out = joinH(out, s)
				} else {
					out, has = s, true
				}
			case *ssa.If:
				for k, t := range b.Succs {
					s2 := s
					if i, ok := fr.clears(last, k); ok {
						s2 = s2.with(i, hCleared)
					}
					fr.flow(states, t, s2)
				}
				continue
			}
			for _, t := range b.Succs {
				fr.flow(states, t, s)
			}
		}
	}
	for n := 0; ; n++ {
		before := fmt.Sprint(len(states))
		for _, b := range f.Blocks {
			before += "|" + string(states[b])
		}
		run(false)
		after := fmt.Sprint(len(states))
		for _, b := range f.Blocks {
			after += "|" + string(states[b])
		}
		if before == after || n > 50 {
			break
		}
	}
	if h.quiet == 0 {
		run(true)
	}
	if !has {
		out = in
		for i := range h.fields {
			out = out.with(i, hCleared) // does not return
		}
	}
	h.memo[key] = out
	return out
}

func (fr *hframe) flow(states map[*ssa.BasicBlock]hstate, t *ssa.BasicBlock, s hstate) {
	if o, ok := states[t]; ok {
		s = joinH(o, s)
	}
	states[t] = s
}

func (fr *hframe) bad(f int, at ssa.Instruction, what string) {
	h := fr.h
	if h.quiet > 0 {
		return
	}
	k := fmt.Sprintf("%d%p", f, at)
	if h.seen[k] {
		return
	}
	h.seen[k] = true
	h.r.add(Finding{Key: "stale:" + h.fieldName(f) + ":" + h.w.fname(fr.f), Pos: h.w.posOf(at), Rule: "read-before-reset",
		Msg: fmt.Sprintf("%s %s %s, which may still hold what an earlier call left there", h.w.fname(fr.f), what, h.fieldName(f))})
}

func (fr *hframe) step(s hstate, in ssa.Instruction) hstate {
	h := fr.h
	fresh := func(a halias) bool {
		return s[a.f] == hCleared || s[a.f] == hReplaced && !a.dirty
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return s
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		if a, ok := fr.alias[x]; ok {
			a.dirty = s[a.f] == hDirty
			fr.alias[x] = a
			if h.quiet == 0 {
				h.r.count("reads of surviving fields", 1)
			}
			return s
		}
		fs, _ := h.locs(fr.f, x.X)
		for _, i := range fs {
			if h.quiet == 0 {
				h.r.count("reads of surviving fields", 1)
				h.r.oblige(fmt.Sprintf("%s: %s reads %s", h.w.posOf(in), h.w.fname(fr.f), h.fieldName(i)))
			}
			if s[i] == hDirty && len(refs(x)) > 0 {
				fr.bad(i, x, "reads")
			}
		}
		return s
	case *ssa.Store:
		fs, only := h.locs(fr.f, x.Addr)
		if len(fs) > 0 {
			if a, ok := fr.aliasOf(x.Val); ok && !(len(fs) == 1 && fs[0] == a.f) && !fresh(a) {
				fr.bad(a.f, x, "keeps a copy of")
			}
			for _, i := range fs {
				if !only {
					continue
				}
				if !h.isContainer(i) {
					s = s.with(i, hReplaced)
				} else if emptySlice(x.Val) && s[i] != hCleared {
					s = s.with(i, hReplaced)
				} else if _, same := fr.growth(x.Val, i); !same {
					if a, ok := fr.aliasOf(x.Val); ok && a.f == i {
						continue
					}
					if s[i] == hDirty {
						s = s.with(i, hReplaced)
					}
				}
			}
			return s
		}
		if a, ok := fr.aliasOf(x.Val); ok && !fresh(a) {
			fr.bad(a.f, x, "keeps a copy of")
		}
		return s
	case *ssa.IndexAddr:
		if a, ok := fr.aliasOf(x.X); ok && !fresh(a) && !harmlessElem(x) {
			fr.bad(a.f, x, "uses an element of")
		}
		return s
	case *ssa.Slice:
		if a, ok := fr.aliasOf(x.X); ok && !fresh(a) {
			if !emptySlice(x) {
				if _, ok := fr.aliasOf(x); !ok {
					fr.bad(a.f, x, "uses")
				}
			}
		}
		return s
	case *ssa.BinOp:
		for _, v := range []ssa.Value{x.X, x.Y} {
			if a, ok := fr.aliasOf(v); ok && !fresh(a) {
				_ = a // slices and maps are only compared with nil
			}
		}
		return s
	case *ssa.MapUpdate:
		if a, ok := fr.aliasOf(x.Value); ok && !fresh(a) {
			fr.bad(a.f, x, "keeps a copy of")
		}
		return s
	case ssa.CallInstruction:
		return fr.call(s, x, fresh)
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if *o == nil {
			continue
		}
		if a, ok := fr.aliasOf(*o); ok && !fresh(a) {
			fr.bad(a.f, in, "uses")
		}
	}
	return s
}

// growth: v is append(field i, ...).
func (fr *hframe) growth(v ssa.Value, i int) (halias, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return halias{}, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return halias{}, false
	}
	a, ok := fr.aliasOf(c.Call.Args[0])
	return a, ok && a.f == i
}

func (fr *hframe) call(s hstate, c ssa.CallInstruction, fresh func(halias) bool) hstate {
	h := fr.h
	com := c.Common()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		for k, v := range com.Args {
			a, ok := fr.aliasOf(v)
			if !ok {
				continue
			}
			switch b.Name() {
			case "cap", "delete":
				continue
			case "clear":
				if _, isMap := v.Type().Underlying().(*types.Map); isMap || a.off <= 1 {
					if _, def := c.(*ssa.Defer); !def {
						s = s.with(a.f, hCleared)
					}
				}
				continue
			case "len":
				cv := c.(*ssa.Call)
				if !fresh(a) && !sizesOnly(cv, map[ssa.Value]bool{}) {
					fr.bad(a.f, c, "uses the length of")
				}
				if _, isMap := v.Type().Underlying().(*types.Map); !isMap {
					fr.lenFlow(a.f, cv, map[ssa.Value]bool{})
				}
				continue
			case "append":
				if k == 0 {
					own := true
					for _, u := range refs(c.Value()) {
						st, ok := u.(*ssa.Store)
						if !ok {
							own = false
							break
						}
						fs, only := h.locs(fr.f, st.Addr)
						if !only || len(fs) != 1 || fs[0] != a.f {
							own = false
						}
					}
					if own {
						continue
					}
				}
			}
			if !fresh(a) {
				fr.bad(a.f, c, "uses")
			}
		}
		return s
	}
	gs := h.w.callees(c)
	if _, ok := c.(*ssa.Go); ok {
		gs = nil
	}
	_, deferred := c.(*ssa.Defer)
	var known []*ssa.Function
	for _, g := range gs {
		if h.p.analysable(g) && len(h.ctxs[g]) > 0 {
			known = append(known, g)
		}
	}
	for _, v := range com.Args {
		if a, ok := fr.aliasOf(v); ok && !fresh(a) && (len(known) == 0 || deferred) {
			fr.bad(a.f, c, "passes on")
		}
	}
	if deferred || len(known) == 0 {
		return s
	}
	var out hstate
	for n, g := range known {
		al := map[ssa.Value]halias{}
		off := 0
		if com.IsInvoke() {
			off = 1
		}
		for k, v := range com.Args {
			if a, ok := fr.aliasOf(v); ok && k+off < len(g.Params) {
				a.dirty = a.dirty && s[a.f] != hCleared
				al[g.Params[k+off]] = a
			}
		}
		o := h.frame(g, s, al)
		if n == 0 {
			out = o
		} else {
			out = joinH(out, o)
		}
	}
	return out
}

// lenFlow: the length of a list that is emptied but not shortened depends on
// earlier calls; it must not become part of what this call computes.
func (fr *hframe) lenFlow(f int, v ssa.Value, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	for _, u := range refs(v) {
		switch u := u.(type) {
		case *ssa.BinOp:
			switch u.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				fr.lenFlow(f, u, seen)
			}
		case *ssa.Phi, *ssa.Convert, *ssa.ChangeType:
			fr.lenFlow(f, u.(ssa.Value), seen)
		case *ssa.Store:
			if u.Val == v {
				fr.bad(f, u, "stores the length of")
			}
		case *ssa.Return:
			fr.bad(f, u, "returns the length of")
		case *ssa.MakeInterface:
			fr.lenFlow(f, u, seen)
		case ssa.CallInstruction:
			for _, g := range fr.h.w.callees(u) {
				if !fr.h.w.inModule(g) {
					continue
				}
				off := 0
				if u.Common().IsInvoke() {
					off = 1
				}
				for k, a := range u.Common().Args {
					if a == v && k+off < len(g.Params) {
						(&hframe{fr.h, g, fr.alias}).lenFlow(f, g.Params[k+off], seen)
					}
				}
			}
		}
	}
}

// reach: objects reachable from set s, not through the fields in cut.
func (p *pta) reach(s pset, cut map[string]bool) map[int32]bool {
	out := map[int32]bool{}
	var work []int32
	for l := range s {
		work = append(work, l.o)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if o == sharedObj || o == foreignObj || out[o] {
			continue
		}
		out[o] = true
		for path := range p.memOf[o] {
			if cut[fmt.Sprintf("%d%s", o, path)] {
				continue
			}
			for l := range p.mem[pmem{o, path}] {
				work = append(work, l.o)
			}
		}
	}
	return out
}

func checkHistory(w *World, r *Report) {
	r.Explanation = "Phase 1 runs the points-to analysis over the tokenizer's constructors: the memory the tokenizer owns. Phase 2 adds every exported method of the tokenizer: each location of that memory they write is a field that survives calls. From the entry of each method, with all of these fields holding leftovers, an interprocedural must-dataflow follows every path: a field may be read only after it was replaced by a fresh value or, being a list, emptied (element 0, the beginning-of-sentence sentinel, aside) by a loop over all its elements, clear or truncation; its former length may not enter a result. Nothing shared between tokenizers is written, and no list that is kept and reused is part of a result."
	tok := w.typ("", "JapaneseTokenizer")
	var ctors, methods []*ssa.Function
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg != tok.Obj().Pkg() || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" {
			continue
		}
		isM := f.Signature.Recv() != nil && namedOf(f.Signature.Recv().Type()) == tok
		if isM {
			methods = append(methods, f)
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if namedOf(f.Signature.Results().At(i).Type()) == tok {
				ctors = append(ctors, f)
				break
			}
		}
	}
	if len(ctors) == 0 || len(methods) == 0 {
		panic("no constructor or no method of the tokenizer")
	}
	for _, f := range ctors {
		r.count("constructors", 1)
		historyOf(w, r, tok, f, methods)
	}
	r.Counts["methods"] = len(methods)
	r.floor("functions", 30)
	r.floor("methods", 1)
	r.floor("surviving fields", 1)
}

// historyOf analyses the tokenizers one constructor makes.
func historyOf(w *World, r *Report, tok *types.Named, ctor *ssa.Function, methods []*ssa.Function) {
	p := newPTA(w, 4)
	ctors := []*ssa.Function{ctor}
	recv := pset{}
	for _, f := range ctors {
		p.enter(f, 0)
		for i, prm := range f.Params {
			for _, lf := range p.leaves(prm.Type()) {
				p.bind(f, 0, i, lf, one(ploc{o: sharedObj}))
			}
		}
	}
	p.solve()
	for _, f := range ctors {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if namedOf(f.Signature.Results().At(i).Type()) == tok {
				for l := range p.rets[pnode{0, f, fmt.Sprintf("#%d", i)}] {
					recv[l] = struct{}{}
				}
			}
		}
	}
	born := p.reach(recv, nil)
	if len(born) == 0 {
		panic("the tokenizer owns no memory")
	}
	built := map[string]bool{}
	for _, x := range p.fns {
		built[fmt.Sprintf("%p%d", x.f, x.ctx)] = true
	}
	old := map[string]bool{}
	for k := range p.writes {
		old[k] = true
	}
	for _, f := range methods {
		p.enter(f, 0)
		for i, prm := range f.Params {
			for _, lf := range p.leaves(prm.Type()) {
				s := one(ploc{o: foreignObj})
				if i == 0 {
					s = recv
				}
				p.bind(f, 0, i, lf, s)
			}
		}
	}
	p.solve()
	h := &hist{w: w, p: p, r: r, ctxs: map[*ssa.Function][]int{}, memo: map[string]hstate{}, seen: map[string]bool{}}
	for _, x := range p.fns {
		if !built[fmt.Sprintf("%p%d", x.f, x.ctx)] {
			h.ctxs[x.f] = append(h.ctxs[x.f], x.ctx)
		}
	}
	r.Counts["functions"] = max(r.Counts["functions"], len(h.ctxs))
	var wr []pwrite
	for _, x := range p.sortedWrites() {
		k := fmt.Sprintf("%p%d%s", x.at, x.loc.o, x.loc.path)
		if old[k] {
			continue
		}
		wr = append(wr, x)
		if p.objs[x.loc.o].kind == oShared {
			r.add(Finding{Key: "shared:" + w.fname(x.fn), Pos: w.posOf(x.at), Rule: "remembers",
				Msg: fmt.Sprintf("%s %s memory that outlives the call (%s)", w.fname(x.fn), x.what, describeTarget(w, x.at))})
		}
	}
	// fields that survive: written locations of the tokenizer's own memory,
	// lists and maps being named by the field that holds them
	cut := map[string]bool{}
	for {
		home := p.reach(recv, cut)
		for o := range home {
			if !born[o] {
				delete(home, o)
			}
		}
		h.home = home
		set := map[ploc]bool{}
		var root func(o int32, path string, n int)
		root = func(o int32, path string, n int) {
			if n > 10 {
				return
			}
			if i := strings.IndexAny(path, "[{*"); i > 0 && path[0] == '.' { // an array inside a struct
				path = path[:i]
			}
			if path != "" && path[0] == '.' {
				set[ploc{o: o, path: path}] = true
				return
			}
			found := false
			for c := range home {
				for q := range p.memOf[c] {
					for l := range p.mem[pmem{c, q}] {
						if l.o == o {
							found = true
							root(c, q, n+1)
						}
					}
				}
			}
			if !found {
				set[ploc{o: o, path: path}] = true
			}
		}
		for _, x := range wr {
			if home[x.loc.o] {
				root(x.loc.o, x.loc.path, 0)
			}
		}
		h.fields = nil
		for l := range set {
			h.fields = append(h.fields, l)
		}
		sort.Slice(h.fields, func(i, j int) bool {
			a, b := h.fields[i], h.fields[j]
			if a.o != b.o {
				return a.o < b.o
			}
			return a.path < b.path
		})
		grew := false
		for i, l := range h.fields {
			k := fmt.Sprintf("%d%s", l.o, l.path)
			if !h.isContainer(i) && !cut[k] {
				cut[k] = true
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	for i := range h.fields {
		r.oblige("survives: " + h.fieldName(i))
		r.count("surviving fields", 1)
	}
	// lists that are kept must not be handed out
	out := pset{}
	for _, f := range methods {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			for _, lf := range p.leaves(f.Signature.Results().At(i).Type()) {
				for l := range p.rets[pnode{0, f, fmt.Sprintf("#%d%s", i, lf)}] {
					out[l] = struct{}{}
				}
			}
		}
	}
	given := p.reach(out, nil)
	for i, l := range h.fields {
		if !h.isContainer(i) || !h.loaded(l) {
			continue
		}
		for c := range p.mem[pmem{l.o, l.path}] {
			if given[c.o] && p.objs[c.o].kind == oAlloc {
				pos := w.pos(p.objs[c.o].site.Pos())
				r.add(Finding{Key: "handed-out:" + h.fieldName(i), Pos: pos, Rule: "reused-result",
					Msg: fmt.Sprintf("the memory of %s is kept for later calls and is part of a result as well", h.fieldName(i))})
			}
		}
	}
	in := hstate(strings.Repeat(string(rune(hDirty)), len(h.fields)))
	for _, f := range methods {
		h.frame(f, in, nil)
	}
}

// loaded: some method reads l.
func (h *hist) loaded(l ploc) bool {
	for f, cs := range h.ctxs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					continue
				}
				for _, c := range cs {
					for q := range h.p.get(c, u.X, "") {
						if q.o == l.o && q.path == l.path && len(refs(u)) > 0 {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
