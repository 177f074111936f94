package main

// C14: narrow dictionary fields never wrap around silently.

import (
	"fmt"
	"go/token"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "abstract interpretation: interval and bit facts at every narrowing conversion and on every path that goes on without it", checkNarrow)
}

// narrowing: a conversion to an 8- or 16-bit integer from a wider one.
func narrowing(in ssa.Instruction) (*ssa.Convert, bool) {
	cv, ok := in.(*ssa.Convert)
	if !ok || !isInteger(cv.X.Type()) || !isInteger(cv.Type()) {
		return nil, false
	}
	n := intSize(cv.Type())
	return cv, (n == 1 || n == 2) && n < intSize(cv.X.Type())
}

type narrowSite struct {
	fits    int
	consts  map[int64]string
	varying bool
}

type passedOver struct {
	x    *T
	lo   int64
	err  bool
	who  string
	at   string
	path []string
}

// partKey: a value some bits of which a function stores.
type partKey struct {
	fn  *ssa.Function
	src *T
}

// lowPart: the lower bits of a value are stored in fn; miss are its other bits.
type lowPart struct {
	fn   *ssa.Function
	miss []vbit
	f    Finding
}

// returnedWith: the narrowed value is only returned, and the error with it.
func returnedWith(cv *ssa.Convert, e *T) bool {
	if cv.Referrers() == nil {
		return false
	}
	n := 0
	for _, u := range *cv.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			x, ok := u.Results[len(u.Results)-1].(*ssa.Extract)
			if !ok || x.Tuple != e.in.(ssa.Value) || x.Index != int(e.c0) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// onlyCompared: the narrowed value is compared, as to find out whether it is
// the same, and not used otherwise.
func onlyCompared(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	n := 0
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if u.Op != token.EQL && u.Op != token.NEQ {
				return false
			}
			n++
		case *ssa.Convert:
			if !onlyCompared(u) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

func checkNarrow(w *World, r *Report) {
	dict := w.spkg[w.rel("dictionary")]
	inDict := func(f *ssa.Function) bool { return f.Pkg == dict || f.Parent() != nil && f.Parent().Pkg == dict }
	// the functions that build or write dictionaries
	has := transitively(w, func(in ssa.Instruction) bool {
		_, ok := narrowing(in)
		return ok && inDict(in.Parent())
	})
	var roots []*ssa.Function
	for _, f := range w.allFns {
		if !inDict(f) || !has[f] || !isExportedAPI(f) {
			continue
		}
		recv := ""
		if rv := f.Signature.Recv(); rv != nil {
			if n := namedOf(rv.Type()); n != nil {
				recv = n.Obj().Name()
			}
		}
		switch {
		case recv == "DictionaryBuilder" || strings.HasPrefix(recv, "PosTable"):
		case (recv == "Grammar" || recv == "DoubleArrayLexicon") && strings.HasPrefix(f.Name(), "Write"):
		default:
			continue
		}
		roots = append(roots, f)
	}
	only := w.withLeaves(has)
	minHi := int64(math.MaxInt16) // the smallest of the upper limits
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cv, ok := narrowing(in); ok && inDict(f) {
					if _, hi, _ := intRange(cv.Type()); hi < minHi {
						minHi = hi
					}
				}
			}
		}
	}
	nonNeg := map[string]bool{} // field classes assumed not negative
	var findings map[string]Finding
	sites := map[*ssa.Convert]*narrowSite{}
	var all map[*ssa.Convert]map[*T]int64
	var passed []passedOver
	convs := 0
	var parts map[partKey]map[int]bool // the bits of a value a function stores
	var low []lowPart

	newK := func(report func(s *astate, key, at, msg string)) *ai {
		errOf := map[*T]*T{}
		k := newAI(w, aclient{})
		k.keepFact = func(s *astate, t *T) bool {
			if b, ok := s.bnd[t]; ok && b.lo > minHi {
				return true
			}
			keep := false
			walkT(t, func(x *T) bool {
				for v, e := range errOf {
					keep = keep || e == x || v == x
				}
				return !keep
			})
			return keep
		}
		k.only = only
		k.model = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
			if callee == nil {
				if rs := c.Common().Signature().Results(); c.Common().IsInvoke() && rs.Len() == 1 && isInteger(rs.At(0).Type()) {
					ok := false
					for _, g := range w.callees(c) {
						ok = nonNegResult(w, g, map[*ssa.Function]bool{})
						if !ok {
							break
						}
					}
					if ok && (len(args) == 0 || args[0].op != "iface") {
						res := k.opaque(s, s.top(), c, callee, args)
						k.bound(s, res[0], ival{lo: 0, hi: math.MaxInt64})
						return res, true
					}
				}
				return nil, false
			}
			switch callee.RelString(nil) {
			case "strconv.ParseInt", "strconv.ParseUint":
				n, ok := args[2].intVal()
				if !ok || n < 1 || n > 63 {
					return nil, false
				}
				v := k.mk(&T{op: "res", s: callee.RelString(nil), typ: callee.Signature.Results().At(0).Type(), args: args, in: c})
				e := k.mk(&T{op: "res", s: callee.RelString(nil), typ: callee.Signature.Results().At(1).Type(), args: args, in: c, c0: 1})
				errOf[v] = e
				return []*T{v, e}, true
			}
			return nil, false
		}
		// what is known about x, parsed numbers included
		know := func(s *astate, x *T) ival {
			n := s.clone(k)
			walkT(x, func(y *T) bool {
				if y.op == "load" && y.args[0].op == "fld" && nonNeg[y.args[0].s] {
					k.bound(n, y, ival{lo: 0, hi: math.MaxInt64})
				}
				if y.op == "load" && y.args[0].op == "idx" && y.args[0].args[0].op == "alloc" {
					if al, ok := y.args[0].args[0].v.(*ssa.Alloc); ok {
						if iv, ok := arrayOf(al); ok {
							k.bound(n, y, iv)
						}
					}
				}
				if e, ok := errOf[y]; ok && k.nonNil(s, e) == -1 {
					b, _ := y.args[2].intVal()
					if y.s == "strconv.ParseInt" {
						k.bound(n, y, ival{lo: -1 << uint(b-1), hi: 1<<uint(b-1) - 1})
					} else {
						k.bound(n, y, ival{lo: 0, hi: 1<<uint(b) - 1})
					}
				}
				return true
			})
			return k.rangeOf(n, x)
		}
		k.cl.conv = func(k *ai, s *astate, x *T, in *ssa.Convert) {
			if _, ok := narrowing(in); !ok || !inDict(in.Parent()) {
				return
			}
			if onlyCompared(in) {
				return
			}
			convs++
			st := sites[in]
			if st == nil {
				st = &narrowSite{consts: map[int64]string{}}
				sites[in] = st
			}
			lo, hi, _ := intRange(in.Type())
			isLen := x.op == "len"
			if p := k.poly(x); !isLen && len(p.m) == 1 {
				for a := range p.m {
					isLen = a.op == "len"
				}
			}
			if intSize(in.Type()) == 2 && lo == 0 && !isLen {
				lo, hi = math.MinInt16, math.MaxInt16 // read back as int16
			}
			if n, ok := x.intVal(); ok {
				if n != 0 {
					st.consts[n] = w.fname(s.stack[0].fn)
				}
			} else {
				st.varying = true
				if all[in] == nil {
					all[in] = map[*T]int64{}
				}
				all[in][x] = hi
			}
			iv := know(s, x)
			if e, ok := errOf[x]; ok && k.nonNil(s, e) == 0 && returnedWith(in, e) {
				// up to the caller, who gets the error as well
				n := s.clone(k)
				if k.assume(n, k.eq(e, k.null()), true) {
					iv = know(n, x)
				}
			}
			if v := k.bits(s, x); v[63].kind == bitZero && iv.lo < 0 {
				iv.lo = 0
			}
			v := k.bits(s, x)
			for i := 0; i < intSize(in.Type())*8; i++ {
				if v[i].kind == bitFrom && v[i].src != nil {
					key := partKey{in.Parent(), v[i].src}
					if parts[key] == nil {
						parts[key] = map[int]bool{}
					}
					parts[key][int(v[i].n)] = true
				}
			}
			if iv.lo >= lo && iv.hi <= hi {
				st.fits++
				return
			}
			// its bits fit
			n := intSize(in.Type()) * 8
			if lo < 0 {
				n-- // the sign
			}
			ok := true
			for i := n; i < 64; i++ {
				if v[i].kind != bitZero {
					ok = false
				}
			}
			if ok {
				st.fits++
				return
			}
			if x.op == "load" && x.args[0].op == "fld" && iv.hi <= hi && !nonNeg[x.args[0].s] {
				report(s, "?"+x.args[0].s, "", "")
				return
			}
			rng := "anything"
			if iv.lo != math.MinInt64 || iv.hi != math.MaxInt64 {
				rng = fmt.Sprintf("from %d to %d", iv.lo, iv.hi)
				if iv.hi == math.MaxInt64 {
					rng = fmt.Sprintf("at least %d", iv.lo)
				} else if iv.lo == math.MinInt64 {
					rng = fmt.Sprintf("at most %d", iv.hi)
				}
			}
			if lo == 0 && n == 8 && iv.lo < 0 && iv.lo >= -128 && iv.hi <= 127 && v[0].kind == bitFrom && v[0].n >= 8 {
				// the upper byte of a signed number
				st.fits++
				return
			}
			if lo == 0 && n == 8 && iv.lo < 0 && iv.lo >= math.MinInt32 && iv.hi <= math.MaxInt32 {
				// the lower byte of a signed one: the others may be stored separately
				m := n
				for iv.lo < -1<<uint(m) || iv.hi >= 1<<uint(m) {
					m++
				}
				var miss []vbit
				for i := n; i <= m; i++ {
					miss = append(miss, v[i])
				}
				low = append(low, lowPart{in.Parent(), miss, Finding{Key: "wrap:" + w.fname(in.Parent()), Rule: "narrow", Pos: w.posOf(in), Msg: fmt.Sprintf("%s is stored as %s without its upper bits, which nothing else stores (in %s, called from %s)", niceT(x), in.Type(), w.fname(in.Parent()), w.fname(s.stack[0].fn))}})
				return
			}
			if lo == 0 && iv.lo >= 0 {
				// the rest may be stored separately
				var miss []vbit
				for i := n; i < 64 && iv.hi>>uint(i) != 0; i++ {
					miss = append(miss, v[i])
				}
				if len(miss) <= 32 {
					low = append(low, lowPart{in.Parent(), miss, Finding{Key: "wrap:" + w.fname(in.Parent()), Rule: "narrow", Pos: w.posOf(in), Msg: fmt.Sprintf("%s is stored as %s without its upper bits, which nothing else stores (in %s, called from %s)", niceT(x), in.Type(), w.fname(in.Parent()), w.fname(s.stack[0].fn))}})
					return
				}
			}
			report(s, "wrap:"+w.fname(in.Parent()), w.posOf(in), fmt.Sprintf("%s is stored as %s, but may be %s (in %s, called from %s)", niceT(x), in.Type(), rng, w.fname(in.Parent()), w.fname(s.stack[0].fn)))
		}
		over := func(s *astate, at string) {
			var ks []*T
			for t := range s.bnd {
				ks = append(ks, t)
			}
			sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
			for _, t := range ks {
				if lo := s.bnd[t].lo; lo > minHi {
					passed = append(passed, passedOver{x: t, lo: lo, who: w.fname(s.top().fn), at: at, path: k.trail(s)})
				}
			}
			for v, e := range errOf {
				if k.nonNil(s, e) == 1 {
					passed = append(passed, passedOver{x: v, err: true, who: w.fname(s.top().fn), at: at, path: k.trail(s)})
				}
			}
		}
		k.cl.store = func(k *ai, s *astate, addr, val *T, in ssa.Instruction) {
			if !inDict(in.Parent()) || !isInteger(val.typ) || k.rangeOf(s, val).lo >= 0 || addr.op != "fld" && addr.op != "idx" {
				return
			}
			var from string
			walkT(val, func(x *T) bool {
				if c, ok := x.in.(ssa.CallInstruction); ok && x.op == "res" && intSize(x.typ) <= 2 {
					for _, g := range w.callees(c) {
						if has[g] {
							from = w.fname(g)
						}
					}
				}
				return from == ""
			})
			if from != "" {
				report(s, "negative:"+w.fname(in.Parent()), w.posOf(in), fmt.Sprintf("%s stores the result of %s without making sure that it is not negative: -1 stands for a number that does not fit", w.fname(in.Parent()), from))
			}
		}
		k.cl.ret = func(k *ai, s *astate, fn *ssa.Function, call ssa.CallInstruction, res []*T) {
			// what the function that stores a length found out about it does
			// not matter to its callers
			if has[fn] {
				arg := map[*T]bool{}
				for _, a := range call.Common().Args {
					arg[k.val(s, s.stack[len(s.stack)-2], a)] = true
				}
				for t := range s.bnd {
					if s.bnd[t].lo <= minHi && (arg[t] || t.op == "len" && arg[t.args[0]]) {
						delete(s.bnd, t)
					}
				}
				for t := range s.facts {
					if t.op == "res" || t.op == "eq" && isStringT(t.args[0].typ) || t.op == "eq" && isStringT(t.args[1].typ) {
						delete(s.facts, t)
					}
				}
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			over(s, w.posOf(h.Instrs[0]))
		}
		k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
			if kind != aReturn || len(res) == 0 {
				return
			}
			if rs := at.Parent().Signature.Results(); rs.Len() == 1 && isInteger(rs.At(0).Type()) {
				// a negative number stands for an error
				if k.rangeOf(s, res[0]).hi >= 0 {
					over(s, w.posOf(at))
				}
				return
			}
			if e := res[len(res)-1]; at.Parent().Signature.Results().Len() > 0 && isErrorType(at.Parent().Signature.Results().At(len(res)-1).Type()) && k.nonNil(s, e) != 1 {
				over(s, w.posOf(at))
			}
		}
		return k
	}
	run := func() {
		findings = map[string]Finding{}
		passed = nil
		all = map[*ssa.Convert]map[*T]int64{}
		sites = map[*ssa.Convert]*narrowSite{}
		convs = 0
		parts, low = map[partKey]map[int]bool{}, nil
		for _, f := range roots {
			f := f
			k := newK(func(s *astate, key, at, msg string) {
				if _, ok := findings[key+at]; !ok {
					findings[key+at] = Finding{Key: key, Rule: "narrow", Pos: at, Msg: msg, Path: nil}
				}
			})
			passed = nil
			k.run(f, nil)
			if k.gaveUp {
				findings["steps"+w.fname(f)] = Finding{Key: "steps:" + w.fname(f), Rule: "narrow", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " has more paths than are followed"}
			}
			for _, p := range passed {
				for cv, xs := range all {
					for x, hi := range xs {
						if x == p.x && (p.err || p.lo > hi) {
							key := "silent:" + p.who
							findings[key+p.at] = Finding{Key: key, Rule: "narrow", Pos: p.at, Msg: fmt.Sprintf("%s goes on without an error when %s does not fit the field that stores it (%s)", p.who, niceT(x), w.posOf(cv)), Path: p.path}
						}
					}
				}
			}
		}
	}
	for i := 0; i < 5; i++ {
		run()
		for _, l := range low {
			for _, n := range l.miss {
				if n.kind != bitZero && (n.kind != bitFrom || !parts[partKey{l.fn, n.src}][int(n.n)]) {
					findings[l.f.Key+l.f.Pos] = l.f
				}
			}
		}
		grown := false
		for _, f := range findings {
			if strings.HasPrefix(f.Key, "?") && !nonNeg[f.Key[1:]] {
				nonNeg[f.Key[1:]] = true
				grown = true
			}
		}
		if !grown {
			break
		}
	}
	for key, f := range findings {
		if strings.HasPrefix(f.Key, "?") {
			delete(findings, key)
		}
	}
	// the assumption about fields, where they are stored
	if len(nonNeg) > 0 {
		storing := map[*ssa.Function]bool{}
		for cls := range nonNeg {
			for _, st := range w.index().fst[cls] {
				if inDict(st.Parent()) {
					storing[st.Parent()] = true
				}
			}
		}
		for _, f := range w.entries(storing) {
			if !inDict(f) {
				continue
			}
			r.oblige("numbers stored by " + w.fname(f) + " are not negative")
			k := newK(func(s *astate, key, at, msg string) {})
			k.cl.back, k.cl.exit = nil, nil
			k.cl.store = func(k *ai, s *astate, addr, val *T, in ssa.Instruction) {
				if addr.op != "fld" || !nonNeg[addr.s] {
					return
				}
				r.count("stores to fields assumed not negative", 1)
				if k.rangeOf(s, val).lo >= 0 || val.op == "load" && val.args[0].op == "fld" && nonNeg[val.args[0].s] {
					return
				}
				if v := k.bits(s, val); v[63].kind == bitZero {
					return
				}
				key := "negative:" + w.fname(in.Parent())
				findings[key+w.posOf(in)] = Finding{Key: key, Rule: "narrow", Pos: w.posOf(in), Msg: fmt.Sprintf("%s, stored in %s by %s, may be negative or have wrapped around", niceT(val), addr.s[strings.LastIndex(addr.s, "/")+1:], w.fname(in.Parent()))}
			}
			k.run(f, nil)
		}
	}
	for cv, st := range sites {
		r.oblige("conversion at " + w.posOf(cv) + " in " + w.fname(cv.Parent()))
		for n, who := range st.consts {
			if st.varying {
				key := "clamped:" + w.fname(cv.Parent())
				findings[key+w.posOf(cv)] = Finding{Key: key, Rule: "narrow", Pos: w.posOf(cv), Msg: fmt.Sprintf("%s (from %s) stores the constant %d for a value of its input: it is cut down instead of rejected", w.fname(cv.Parent()), who, n)}
			}
		}
	}
	var keys []string
	for key := range findings {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		r.add(findings[key])
	}
	r.count("functions that build or write dictionaries", len(roots))
	r.count("narrowing conversions decided", len(sites))
	r.count("conversion contexts", convs)
	r.floor("narrowing conversions decided", 10)
}

// niceT shortens a term for a message.
func niceT(x *T) string {
	s := x.String()
	s = strings.ReplaceAll(s, "github.com/msnoigrs/gosudachi/", "")
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

// nonNegResult: the function returns lengths or constants that are not
// negative.
func nonNegResult(w *World, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || len(f.Blocks) == 0 {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		rt, ok := lastInstr(b).(*ssa.Return)
		if !ok {
			continue
		}
		if len(rt.Results) != 1 {
			return false
		}
		switch v := rt.Results[0].(type) {
		case *ssa.Const:
			if v.Value == nil || v.Int64() < 0 {
				return false
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() != "len" {
					return false
				}
				continue
			}
			gs := w.callees(v)
			if len(gs) == 0 {
				return false
			}
			for _, g := range gs {
				if !nonNegResult(w, g, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// arrayOf: what the numbers in a local array may be, if only parsed ones and
// constants are put there.
func arrayOf(al *ssa.Alloc) (ival, bool) {
	iv := ival{}
	for _, u := range *al.Referrers() {
		switch u := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.IndexAddr:
			for _, x := range *u.Referrers() {
				switch x := x.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.Store:
					if x.Addr != u {
						return iv, false
					}
					switch v := x.Val.(type) {
					case *ssa.Const:
						if v.Value == nil {
							return iv, false
						}
						n := v.Int64()
						iv.lo, iv.hi = min(iv.lo, n), max(iv.hi, n)
					case *ssa.Extract:
						// also the number given with an error is in range
						c, ok := v.Tuple.(*ssa.Call)
						if !ok || v.Index != 0 || c.Call.StaticCallee() == nil || c.Call.StaticCallee().RelString(nil) != "strconv.ParseInt" {
							return iv, false
						}
						n, ok := c.Call.Args[2].(*ssa.Const)
						if !ok || n.Int64() < 1 || n.Int64() > 63 {
							return iv, false
						}
						b := uint(n.Int64() - 1)
						iv.lo, iv.hi = min(iv.lo, -1<<b), max(iv.hi, 1<<b-1)
					default:
						return iv, false
					}
				default:
					return iv, false
				}
			}
		default:
			return iv, false
		}
	}
	return iv, true
}
