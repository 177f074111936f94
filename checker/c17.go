package main

// C17: a lattice node connects only to its cheapest allowed predecessor.

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "abstract interpretation (loop induction over an arbitrary predecessor; who may write the links; order of insertion and connection)", checkConnect)
}

type conHyp struct {
	acc string // where the best total is kept: "mem" or a phi's name
	own bool   // it includes the node's own cost
}

type conState struct {
	l       listLoop
	has     bool
	b0      *T // the best predecessor so far
	t0      map[string]*T
	initB   *T
	initT   map[string]*T
	r       *T // the node whose links are written
	stB     *T // last value stored to its bestPreviousNode
	stT     *T
	conn    *T // the connection cost looked up in this round
	connArg *T
	ready   bool
	// part 2
	linked *T
}

func (d *conState) clone() *conState {
	n := *d
	return &n
}

func checkConnect(w *World, r *Report) {
	nodeT := w.typ("", "LatticeNode")
	latT := w.typ("", "Lattice")
	insert := w.must(w.method("", "Lattice", "Insert"), "Lattice.Insert")
	getCost := w.must(w.method("dictionary", "Grammar", "GetConnectCost"), "Grammar.GetConnectCost")
	nc := func(f string) string { return w.modpath + ".LatticeNode." + f }
	cBest, cTotal, cConn, cOwn := nc("bestPreviousNode"), nc("totalCost"), nc("isConnectedToBOS"), nc("cost")
	fidx := func(t types.Type, name string) int {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		panic(fmt.Sprintf("%s has no field %s", t, name))
	}
	inhC, ok := w.spkg[w.rel("dictionary")].Pkg.Scope().Lookup("InhibitedConnection").(*types.Const)
	if !ok {
		panic("no constant dictionary.InhibitedConnection")
	}
	inhT := func(k *ai) *T { return k.cst(inhC.Val(), types.Typ[types.Int16]) }
	isNodeList := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && namedOf(sl.Elem()) == nodeT
	}
	strip := func(x *T) *T {
		// widening only
		for x.op == "conv" || x.op == "cast" {
			b, ok := x.typ.Underlying().(*types.Basic)
			if !ok || b.Kind() != types.Int && b.Kind() != types.Int64 && b.Kind() != types.Int32 && b.Kind() != types.Int16 {
				return x
			}
			x = x.args[0]
		}
		return x
	}
	ldf := func(k *ai, s *astate, x *T, name string) *T {
		i := fidx(nodeT, name)
		return k.load(s, k.fld(x, nodeT, i), nodeT.Underlying().(*types.Struct).Field(i).Type())
	}
	// x is a load of the named field of node n
	isFld := func(x *T, n *T, cls string) bool {
		return x.op == "load" && x.args[0].op == "fld" && x.args[0].s == cls && x.args[0].args[0] == n
	}
	// ---- who writes the links
	rootsOf := map[*ssa.Function]bool{}
	loopsOverNodes := transitively(w, func(in ssa.Instruction) bool {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok || !isNodeList(ia.X.Type()) {
			return false
		}
		_, isC := ia.Index.(*ssa.Const)
		return !isC
	})
	ix := w.index()
	var climb func(f *ssa.Function, seen map[*ssa.Function]bool)
	climb = func(f *ssa.Function, seen map[*ssa.Function]bool) {
		if seen[f] {
			return
		}
		seen[f] = true
		if loopsOverNodes[f] || len(ix.args[f]) == 0 {
			rootsOf[f] = true
			return
		}
		for _, c := range ix.args[f] {
			climb(c.Parent(), seen)
		}
	}
	// the sentence-start node: a node made where a Lattice is made
	makesLattice := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok && namedOf(al.Type()) == latT && al.Heap {
					makesLattice[f] = true
				}
			}
		}
	}
	for _, cls := range []string{cBest, cTotal, cConn} {
		for _, st := range ix.fst[cls] {
			if c, ok := st.Val.(*ssa.Const); ok && cls == cBest && c.IsNil() && !loopsOverNodes[st.Parent()] {
				continue // taking a link away
			}
			if al, ok := addrBase(st.Addr).(*ssa.Alloc); ok && al.Heap && cls == cConn && makesLattice[st.Parent()] {
				continue // decided below
			}
			climb(st.Parent(), map[*ssa.Function]bool{})
		}
	}
	var roots []*ssa.Function
	for _, f := range w.allFns {
		if rootsOf[f] {
			roots = append(roots, f)
		}
	}
	newK := func() *ai {
		k := newAI(w, aclient{})
		k.keep = true
		k.cl.clone = func(d any) any { return d.(*conState).clone() }
		k.cl.key = func(d any) string {
			x := d.(*conState)
			id := func(t *T) int {
				if t == nil {
					return -1
				}
				return t.id
			}
			m := ""
			for _, n := range namesOf(x.t0) {
				m += fmt.Sprint(n, x.t0[n].id, ",")
			}
			return fmt.Sprint(x.has, id(x.b0), m, id(x.r), id(x.stB), id(x.stT), id(x.conn), id(x.connArg), x.ready, id(x.linked))
		}
		return k
	}
	for _, f := range roots {
		f := f
		who := w.fname(f)
		r.oblige("links written by " + who)
		r.count("functions that link nodes", 1)
		seen := map[string]bool{}
		bad := func(k *ai, s *astate, key, at, msg string) {
			if seen[key+at] {
				return
			}
			seen[key+at] = true
			r.add(Finding{Key: key + ":" + who, Rule: "connect", Pos: at, Msg: who + " " + msg, Path: k.trail(s)})
		}
		k := newK()
		var hyps []conHyp
		first := true
		rounds, ends := 0, 0
		filter := func(s *astate, at, key, msg string, ok func(h conHyp) bool) {
			var keep []conHyp
			for _, h := range hyps {
				if ok(h) {
					keep = append(keep, h)
				}
			}
			if len(keep) == 0 {
				bad(k, s, key, at, msg)
				return
			}
			hyps = keep
		}
		elem := func(s *astate, x *T) bool {
			d := s.data.(*conState)
			return x != nil && x.op == "load" && x.args[0].op == "idx" && x.args[0].args[0] == d.l.list && k.equal(s, x.args[0].args[1], k.index(d.l)) == 1
		}
		ofElem := func(s *astate, x *T, cls string) bool {
			return x.op == "load" && x.args[0].op == "fld" && x.args[0].s == cls && elem(s, x.args[0].args[0])
		}
		phiOf := func(h *ssa.BasicBlock, p func(t types.Type) bool) []*ssa.Phi {
			var ps []*ssa.Phi
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if p(phi.Type()) {
					ps = append(ps, phi)
				}
			}
			return ps
		}
		isNodePtr := func(t types.Type) bool {
			_, ok := t.Underlying().(*types.Pointer)
			return ok && namedOf(t) == nodeT
		}
		loopStores := func(h *ssa.BasicBlock) map[string]bool {
			m := map[string]bool{}
			for b := range k.loop(h) {
				for _, in := range b.Instrs {
					k.instrClasses(in, func(c string) { m[c] = true })
				}
			}
			return m
		}
		// loops over the predecessors: those in which a connection cost is looked up
		looksUp := transitively(w, func(in ssa.Instruction) bool {
			c, ok := in.(ssa.CallInstruction)
			return ok && c.Common().StaticCallee() == getCost
		})
		isConnLoop := func(h *ssa.BasicBlock) bool {
			for b := range k.loop(h) {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && (g == getCost || looksUp[g]) {
							return true
						}
					}
				}
			}
			return false
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			d := s.data.(*conState)
			if a.op != "fld" {
				return
			}
			switch a.s {
			case cBest, cTotal, cConn:
				if d.r != nil && d.r != a.args[0] {
					bad(k, s, "two", w.posOf(in), fmt.Sprintf("writes the links of %s and of %s", d.r, a.args[0]))
				}
				d.r = a.args[0]
				if a.s == cBest {
					d.stB = v
				} else if a.s == cTotal {
					d.stT = v
				}
			}
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*conState)
			if !isConnLoop(h) {
				return
			}
			l, ok := k.listLoopOf(s, h, isNodePtr)
			if !ok {
				return
			}
			d.l, d.has, d.conn, d.connArg = l, true, nil, nil
			d.t0, d.initT = map[string]*T{}, map[string]*T{}
			d.b0, d.initB = nil, nil
			sc := loopStores(h)
			fr := s.top()
			entry := func(phi *ssa.Phi) *T {
				for i, pb := range h.Preds {
					if pb == fr.pred {
						return k.val(s, fr, phi.Edges[i])
					}
				}
				return nil
			}
			if sc[cBest] {
				if d.r == nil {
					bad(k, s, "stale", w.pos(h.Parent().Pos()), "can start from the predecessor an earlier call left in the node")
					return
				}
				d.b0, d.initB = ldf(k, s, d.r, "bestPreviousNode"), d.stB
			} else if ps := phiOf(h, isNodePtr); len(ps) == 1 {
				d.b0, d.initB = fr.env[ps[0]], entry(ps[0])
			}
			if sc[cTotal] {
				if d.r == nil {
					bad(k, s, "stale", w.pos(h.Parent().Pos()), "can start from the cost an earlier call left in the node")
					return
				}
				d.t0["mem"], d.initT["mem"] = ldf(k, s, d.r, "totalCost"), d.stT
			}
			for _, p := range phiOf(h, isInteger) {
				if t := fr.env[p]; t != l.phi && t.op == "sym" && t.hdr == h {
					d.t0[p.Name()], d.initT[p.Name()] = t, entry(p)
				}
			}
			if first {
				first = false
				for _, n := range namesOf(d.t0) {
					hyps = append(hyps, conHyp{n, false}, conHyp{n, true})
				}
			}
			at := w.pos(h.Parent().Pos())
			switch {
			case d.b0 == nil || len(d.t0) == 0:
				bad(k, s, "shape", at, "does not keep a best predecessor and its cost while it goes through the predecessors")
			case d.initB == nil || k.nonNil(s, d.initB) != -1:
				bad(k, s, "stale", at, "can start from a predecessor that is not among those it is to choose from")
			}
		}
		maxInit := func(d *conState, h conHyp) bool {
			t := d.initT[h.acc]
			if t == nil {
				return false
			}
			n, ok := t.intVal()
			return ok && n == math.MaxInt64
		}
		// x = the total of the predecessor + connection cost (+ own cost)
		isCost := func(s *astate, x *T, own bool) bool {
			d := s.data.(*conState)
			p := k.poly(x)
			if p.c0 != 0 {
				return false
			}
			n := map[string]int{}
			for t, c := range p.m {
				u := strip(t)
				switch {
				case c != 1:
					return false
				case ofElem(s, t, cTotal):
					n["t"]++
				case d.conn != nil && u == d.conn:
					n["c"]++
				case d.r != nil && isFld(u, d.r, cOwn):
					n["o"]++
				case u.op == "load" && u.args[0].op == "fld" && u.args[0].s == cOwn && d.r == nil && u.args[0].args[0] == d.connArg:
					n["o"]++
				default:
					return false
				}
			}
			o := 0
			if own {
				o = 1
			}
			return n["t"] == 1 && n["c"] == 1 && n["o"] == o
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*conState)
			if !d.has || d.l.h != h || d.b0 == nil {
				return
			}
			rounds++
			r.count("rounds over predecessors", 1)
			at := w.pos(h.Parent().Pos())
			if d.l.list == nil {
				bad(k, s, "list", at, "changes the list of predecessors while going through it")
				return
			}
			if !k.stepsByOne(s, d.l) {
				bad(k, s, "step", at, "does not go on with the next predecessor")
			}
			fr := s.top()
			next := func(phi *ssa.Phi) *T {
				for i, pb := range h.Preds {
					if pb == fr.pred {
						return k.val(s, fr, phi.Edges[i])
					}
				}
				return nil
			}
			sc := loopStores(h)
			var b1 *T
			t1 := map[string]*T{}
			if sc[cBest] {
				b1 = ldf(k, s, d.r, "bestPreviousNode")
			} else {
				b1 = next(phiOf(h, isNodePtr)[0])
			}
			if sc[cTotal] {
				t1["mem"] = ldf(k, s, d.r, "totalCost")
			}
			for _, p := range phiOf(h, isInteger) {
				if d.t0[p.Name()] != nil {
					t1[p.Name()] = next(p)
				}
			}
			// what is known about the predecessor
			linked := 0
			for t, v := range s.facts {
				if ofElem(s, t, cConn) {
					if v {
						linked = 1
					} else {
						linked = -1
					}
				}
			}
			inhib := 0
			if d.conn != nil {
				inhib = k.equal(s, d.conn, inhT(k))
			}
			// what a cheaper-or-not fact says: any difference that is bounded
			switch {
			case elem(s, b1):
				if linked != 1 {
					bad(k, s, "unreachable", at, "can link to a predecessor not known to be reachable from the beginning")
				}
				if inhib != -1 {
					bad(k, s, "inhibited", at, "can link to a predecessor although the connection may be inhibited")
				}
				filter(s, at, "total", fmt.Sprintf("links to a predecessor with a total of %v: not the predecessor's total plus the cost of the connection", t1), func(h conHyp) bool {
					return t1[h.acc] != nil && isCost(s, t1[h.acc], h.own)
				})
				filter(s, at, "dearer", "can link to a predecessor not known to be as cheap as the best so far", func(h conHyp) bool {
					return t1[h.acc] != nil && (k.nonNil(s, d.b0) == -1 || k.rangeOf(s, k.sub(t1[h.acc], d.t0[h.acc])).hi <= 0)
				})
			case b1 == d.b0:
				if linked == -1 || inhib == 1 {
					filter(s, at, "lost", "changes the best cost without changing the predecessor", func(h conHyp) bool { return t1[h.acc] == d.t0[h.acc] })
					return
				}
				filter(s, at, "missed", "can pass over a reachable predecessor with an allowed connection that is not known to cost more than the best so far", func(h conHyp) bool {
					if t1[h.acc] != d.t0[h.acc] {
						return false
					}
					if k.nonNil(s, d.b0) != 1 && !maxInit(d, h) {
						return false
					}
					if d.conn == nil {
						return false
					}
					// the cost of this one, as the path may have compared it
					el := k.elemAt(s, d.l.list, k.index(d.l))
					c := k.add(ldf(k, s, el, "totalCost"), k.convert(s, d.conn, types.Typ[types.Int16], types.Typ[types.Int]))
					if h.own {
						c = k.add(c, k.convert(s, ldf(k, s, d.connArg, "cost"), types.Typ[types.Int16], types.Typ[types.Int]))
					}
					return k.rangeOf(s, k.sub(c, d.t0[h.acc])).lo >= 0
				})
			default:
				bad(k, s, "link", at, fmt.Sprintf("can link to %s, which is not the predecessor whose turn it is", b1))
			}
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*conState)
			if callee == getCost {
				res := k.mk(&T{op: "res", s: "connectcost", typ: types.Typ[types.Int16], args: args})
				if d.has {
					L, R := strip(args[1]), strip(args[2])
					okL := ofElem(s, L, nc("rightId"))
					okR := R.op == "load" && R.args[0].op == "fld" && R.args[0].s == nc("leftId") && !elem(s, R.args[0].args[0])
					if !okL || !okR {
						bad(k, s, "ids", w.posOf(c), fmt.Sprintf("looks the connection up with %s and %s, not with the predecessor's right id and the node's left id", L, R))
					} else {
						d.connArg = R.args[0].args[0]
						d.conn = res
					}
				}
				return []*T{res}, true, false
			}
			return nil, false, true
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			d := s.data.(*conState)
			pos := w.posOf(at)
			if d.r == nil {
				return // did not link anything
			}
			ends++
			begin := ldf(k, s, d.r, "Begin")
			isList := func(x *T) bool {
				return x != nil && x.op == "load" && x.args[0].op == "idx" && k.equal(s, x.args[0].args[1], begin) == 1 &&
					x.args[0].args[0].op == "load" && x.args[0].args[0].args[0].op == "fld" && x.args[0].args[0].args[0].s == w.modpath+".Lattice.endLists"
			}
			bF, tF, cF := ldf(k, s, d.r, "bestPreviousNode"), ldf(k, s, d.r, "totalCost"), ldf(k, s, d.r, "isConnectedToBOS")
			if !d.has {
				// nothing ends there
				empty := false
				for t := range s.bnd {
					walkT(t, func(y *T) bool {
						if y.op == "len" && isList(y.args[0]) && k.rangeOf(s, y).hi <= 0 {
							empty = true
						}
						return true
					})
				}
				if !empty || k.nonNil(s, bF) != -1 || k.truth(s, cF) != -1 {
					bad(k, s, "skipped", pos, "can leave a node without having looked at its predecessors")
				}
				return
			}
			if !isList(d.l.list) {
				bad(k, s, "begin", pos, fmt.Sprintf("takes the predecessors from %s, which are not those that end where the node begins", d.l.list))
			} else if !k.gone(s, &d.l, d.l.list) {
				bad(k, s, "rest", pos, "can stop before all predecessors have been looked at")
			}
			if d.connArg != nil && d.connArg != d.r {
				bad(k, s, "node", pos, fmt.Sprintf("looks up the connections of %s but links %s", d.connArg, d.r))
			}
			if bF != d.b0 {
				bad(k, s, "other", pos, fmt.Sprintf("leaves the node linked to %s, not to the best predecessor", bF))
				return
			}
			for _, v := range []bool{true, false} {
				c := s.clone(k)
				if !k.assume(c, k.eq(d.b0, k.null()), !v) {
					continue
				}
				want := -1
				if v {
					want = 1
				}
				if k.truth(c, cF) != want {
					bad(k, s, "reachable", pos, fmt.Sprintf("leaves the node marked as reachable by %s, not exactly if it has a predecessor", cF))
				}
			}
			if k.nonNil(s, d.b0) != -1 {
				filter(s, pos, "sum", fmt.Sprintf("leaves %s as the node's total cost", tF), func(h conHyp) bool {
					x := k.sub(tF, d.t0[h.acc])
					if h.own {
						n, ok := x.intVal()
						return ok && n == 0
					}
					return isFld(strip(x), d.r, cOwn)
				})
			}
		}
		k.run(f, func(s *astate) { s.data = &conState{} })
		if k.gaveUp || ends == 0 || rounds == 0 {
			r.add(Finding{Key: "shape:" + who, Rule: "connect", Pos: w.pos(f.Pos()), Msg: fmt.Sprintf("%s writes a node's links, but was not recognised as choosing them among its predecessors (%d rounds, %d ends)", who, rounds, ends)})
		}
	}
	r.floor("functions that link nodes", 1)
	r.floor("rounds over predecessors", 3)

	// ---- insertion: into the list of the node's end, at its begin, and linked
	{
		who := w.fname(insert)
		r.oblige("insertion by " + who)
		k := newK()
		linkers := rootsOf
		ends := 0
		seen := map[string]bool{}
		bad := func(s *astate, key, at, msg string) {
			if !seen[key+at] {
				seen[key+at] = true
				r.add(Finding{Key: key + ":" + who, Rule: "insert", Pos: at, Msg: who + " " + msg, Path: k.trail(s)})
			}
		}
		var ints []*ssa.Parameter
		var node, recv *ssa.Parameter
		for i, p := range insert.Params {
			switch {
			case i == 0:
				recv = p
			case isInteger(p.Type()):
				ints = append(ints, p)
			case namedOf(p.Type()) == nodeT:
				node = p
			}
		}
		if len(ints) != 2 || node == nil {
			panic("Lattice.Insert has other parameters than (begin, end, node)")
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*conState)
			if linkers[callee] {
				for i, p := range callee.Params {
					if i > 0 && namedOf(p.Type()) == nodeT {
						d.linked = args[i]
					}
				}
				n := s.top().env[node]
				if len(s.stack) > 1 {
					n = s.stack[0].env[node]
				}
				if d.linked == n {
					if k.equal(s, ldf(k, s, n, "Begin"), s.stack[0].env[ints[0]]) != 1 {
						bad(s, "early", w.posOf(c), "links the node before it is known where it begins")
					}
				}
				// it writes the links only (checked above)
				return nil, true, false
			}
			return nil, false, true
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			if a.op == "idx" && isNodeList(in.(*ssa.Store).Val.Type()) && v.op != "append1" {
				bad(s, "list", w.posOf(in), fmt.Sprintf("makes %s the nodes that end somewhere", v))
			}
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			ends++
			d := s.data.(*conState)
			pos := w.posOf(at)
			env := s.stack[0].env
			n, b, e := env[node], env[ints[0]], env[ints[1]]
			if !rootsOf[insert] && d.linked != n {
				bad(s, "unlinked", pos, "can leave the node without linking it to a predecessor")
			}
			if k.equal(s, ldf(k, s, n, "Begin"), b) != 1 || k.equal(s, ldf(k, s, n, "End"), e) != 1 {
				bad(s, "range", pos, "can leave the node with another range than it was given")
			}
			fi := fidx(latT, "endLists")
			ft := latT.Underlying().(*types.Struct).Field(fi).Type()
			lists := k.load(s, k.fld(env[recv], latT, fi), ft)
			l := k.elemAt(s, lists, e)
			if l.op != "append1" || l.args[len(l.args)-1] != n || len(l.args) != 2 || l.args[0].op != "load" || l.args[0].args[0].op != "idx" || k.equal(s, l.args[0].args[0].args[1], e) != 1 {
				bad(s, "list", pos, fmt.Sprintf("leaves %s as the nodes that end there: not those there were and the new one", l))
			}
		}
		k.run(insert, func(s *astate) {
			s.data = &conState{}
			for _, p := range insert.Params {
				k.val(s, s.top(), p)
			}
		})
		if k.gaveUp || ends == 0 {
			r.add(Finding{Key: "gaveup:" + who, Rule: "insert", Pos: w.pos(insert.Pos()), Msg: who + " could not be followed to its ends"})
		}
	}

	// ---- nobody else adds nodes to the lists
	onlyInsert := func(f *ssa.Function) bool {
		// every way to f leads through Insert
		seen := map[*ssa.Function]bool{}
		var up func(g *ssa.Function) bool
		up = func(g *ssa.Function) bool {
			if g == insert || seen[g] {
				return true
			}
			seen[g] = true
			if isExportedAPI(g) || len(ix.args[g]) == 0 {
				return false
			}
			for _, c := range ix.args[g] {
				if !up(c.Parent()) {
					return false
				}
			}
			return true
		}
		return up(f)
	}
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath {
			continue
		}
		stores := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !isNodeList(st.Val.Type()) {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isNodeList(elemType(ia.X.Type())) {
					stores++
				}
			}
		}
		if stores == 0 {
			continue
		}
		r.oblige("lists of nodes changed by " + w.fname(f))
		r.count("functions that change the lists of nodes", 1)
		if onlyInsert(f) {
			continue
		}
		k := newAI(w, aclient{})
		seen := map[string]bool{}
		bos := 0
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			if a.op != "idx" || !isNodeList(in.(*ssa.Store).Val.Type()) || len(s.stack) > 1 {
				return
			}
			n := k.lenOf(s, v)
			ok := v.op == "nil" || k.rangeOf(s, n).hi <= 0
			x := v
			for x.op == "slice" {
				x = x.args[0]
			}
			if x.op == "load" && x.args[0] == a && v.op == "slice" {
				ok = true // part of what was there
			}
			if one, isN := n.intVal(); isN && one == 1 && makesLattice[f] && isAllocT(root(a)) && k.equal(s, a.args[1], k.num(0)) == 1 {
				ok = true // the sentence-start node
				bos++
			}
			if !ok && !seen[w.posOf(in)] {
				seen[w.posOf(in)] = true
				r.add(Finding{Key: "adds:" + w.fname(f), Rule: "insert", Pos: w.posOf(in), Msg: fmt.Sprintf("%s makes %s the nodes that end somewhere, without inserting them", w.fname(f), v), Path: k.trail(s)})
			}
		}
		k.run(f, nil)
		if k.gaveUp {
			r.add(Finding{Key: "gaveup:" + w.fname(f), Rule: "insert", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " could not be followed to its ends"})
		}
	}
	r.floor("functions that change the lists of nodes", 3)

	// ---- the sentence-start node is the only one reachable by itself
	for _, f := range w.allFns {
		if !makesLattice[f] {
			continue
		}
		r.oblige("sentence start made by " + w.fname(f))
		k := newAI(w, aclient{})
		ends := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || len(res) == 0 || !isAllocT(res[0]) {
				return
			}
			ends++
			fi := fidx(latT, "endLists")
			ft := latT.Underlying().(*types.Struct).Field(fi).Type()
			lists := k.load(s, k.fld(res[0], latT, fi), ft)
			l := k.elemAt(s, lists, k.num(0))
			n, ok := k.lenOf(s, l).intVal()
			msg := ""
			if !ok || n != 1 {
				msg = "does not start with exactly one node"
			} else {
				b := k.elemAt(s, l, k.num(0))
				if k.truth(s, ldf(k, s, b, "isConnectedToBOS")) != 1 {
					msg = "starts with a node that is not reachable"
				}
				if t, ok := ldf(k, s, b, "totalCost").intVal(); !ok || t != 0 {
					msg = "starts with a node that already costs something"
				}
				p := strip(ldf(k, s, b, "rightId"))
				if !strings.Contains(p.String(), "BosParameter") {
					msg = fmt.Sprintf("starts with a node whose right id is %s", p)
				}
			}
			if msg != "" {
				r.add(Finding{Key: "bos:" + w.fname(f), Rule: "connect", Pos: w.posOf(at), Msg: "a lattice made by " + w.fname(f) + " " + msg, Path: k.trail(s)})
			}
		}
		k.run(f, nil)
		if ends == 0 || k.gaveUp {
			r.add(Finding{Key: "bos:" + w.fname(f), Rule: "connect", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " was not recognised as making a lattice"})
		}
	}

	checkLatticeOrder(w, r, insert, rootsOf)
}

func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func namesOf(m map[string]*T) []string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

type ordState struct {
	h     *ssa.BasicBlock // the loop over the positions
	depth int
	eos   bool
	end   map[*T]*T // where the nodes made here begin
}

// checkLatticeOrder: the positions are visited from left to right, nodes are
// inserted at the position whose turn it is, and the end of the sentence is
// linked after all of them and before the best path is asked for.
func checkLatticeOrder(w *World, r *Report, insert *ssa.Function, linkers map[*ssa.Function]bool) {
	tok := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	best := w.must(w.method("", "Lattice", "GetBestPath"), "Lattice.GetBestPath")
	nodeT, latT := w.typ("", "LatticeNode"), w.typ("", "Lattice")
	r.oblige("order of insertion in " + w.fname(tok))
	insReach := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == insert
	})
	linkReach := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && linkers[c.Common().StaticCallee()]
	})
	bestReach := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == best
	})
	k := newAI(w, aclient{})
	k.keep = true
	k.only = map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if f == insert || linkers[f] || f == best || f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath {
			continue
		}
		if insReach[f] || linkReach[f] || bestReach[f] {
			k.only[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldClass(fa.X.Type(), fa.Field) == w.modpath+".Lattice.eosNode" {
						k.only[f] = true
					}
				}
			}
		}
	}
	k.cl.clone = func(d any) any {
		n := *d.(*ordState)
		n.end = map[*T]*T{}
		for a, b := range d.(*ordState).end {
			n.end[a] = b
		}
		return &n
	}
	k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
		if a.op == "fld" && a.s == w.modpath+".LatticeNode.Begin" && isAllocT(a.args[0]) {
			s.data.(*ordState).end[a.args[0]] = v
		}
	}
	k.cl.key = func(d any) string {
		x := d.(*ordState)
		b := -1
		if x.h != nil {
			b = x.h.Index
		}
		return fmt.Sprint(b, x.depth, x.eos, len(x.end))
	}
	seen := map[string]bool{}
	bad := func(s *astate, key, at, msg string) {
		if !seen[key+at] {
			seen[key+at] = true
			r.add(Finding{Key: key + ":Tokenize", Rule: "order", Pos: at, Msg: msg, Path: k.trail(s)})
		}
	}
	fld := func(s *astate, x *T, t types.Type, name string) *T {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return k.load(s, k.fld(x, t, i), st.Field(i).Type())
			}
		}
		panic(name)
	}
	// the index of the position whose turn it is
	pos := func(s *astate) *T {
		d := s.data.(*ordState)
		if d.h == nil || len(s.stack) < d.depth {
			return nil
		}
		fr := s.stack[d.depth-1]
		for _, in := range d.h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := fr.env[phi]
			if !isInteger(phi.Type()) || t == nil || t.op != "sym" || t.hdr != d.h {
				continue
			}
			if g := k.rangeOf(s, t); g.lo == 0 || g.lo == -1 {
				return k.add(t, k.num(-g.lo))
			}
		}
		return nil
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*ordState)
		ins := false
		for b := range k.loop(h) {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && (g == insert || insReach[g]) {
						ins = true
					}
				}
			}
		}
		if !ins || d.h != nil && (len(s.stack) > d.depth || k.loop(d.h)[h]) {
			return
		}
		d.h, d.depth = h, len(s.stack)
	}
	rounds := 0
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*ordState)
		if d.h != h {
			return
		}
		p := pos(s)
		if p == nil {
			bad(s, "positions", w.pos(h.Parent().Pos()), "the loop that inserts nodes does not count the positions from 0")
			return
		}
		rounds++
		r.count("rounds over positions", 1)
		fr := s.top()
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			t := fr.env[phi]
			for i, pb := range h.Preds {
				if pb == fr.pred && isInteger(phi.Type()) {
					if n, ok := k.sub(p, t).intVal(); ok && n >= 0 && n <= 1 {
						if st, ok := k.sub(k.val(s, fr, phi.Edges[i]), t).intVal(); !ok || st != 1 {
							bad(s, "step", w.pos(h.Parent().Pos()), "the loop that inserts nodes does not go on with the next position")
						}
					}
				}
			}
		}
	}
	makers := map[*ssa.Function]bool{}
	makerOf := func(y *T) *ssa.Function {
		c, ok := y.in.(ssa.CallInstruction)
		if !ok || c.Common().StaticCallee() == nil || !w.inModule(c.Common().StaticCallee()) {
			return nil
		}
		f := c.Common().StaticCallee()
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if sl, ok := rs.At(i).Type().Underlying().(*types.Slice); ok && namedOf(sl.Elem()) == nodeT {
				return f
			}
		}
		return nil
	}
	inserts, links, bests := 0, 0, 0
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*ordState)
		switch {
		case callee == insert:
			inserts++
			r.count("insertions on paths", 1)
			d.eos = false
			p := pos(s)
			if p == nil {
				bad(s, "where", w.posOf(c), "a node is inserted outside the loop over the positions")
				return nil, false, false
			}
			b, n := args[1], args[3]
			ok := k.equal(s, b, p) == 1
			if !ok && b.op == "load" && b.args[0].op == "fld" && b.args[0].s == w.modpath+".LatticeNode.Begin" && b.args[0].args[0] == n {
				// a node made for this position
				walkT(n, func(y *T) bool {
					if y.op == "res" {
						for _, a := range y.args {
							if g := makerOf(y); g != nil && intTerm(a) && k.equal(s, a, p) == 1 {
								ok = true
								makers[g] = true
							}
						}
					}
					return true
				})
			}
			if !ok {
				bad(s, "where", w.posOf(c), fmt.Sprintf("a node is inserted at %s, which is not known to be the position whose turn it is: nodes it should be linked to may not be there yet", b))
			}
			return nil, false, false
		case linkers[callee]:
			links++
			l := args[0]
			e := fld(s, l, latT, "eosNode")
			for i, p := range callee.Params {
				if i > 0 && namedOf(p.Type()) == nodeT && args[i] != e {
					return nil, false, false
				}
			}
			d.eos = true
			p := pos(s)
			if d.h == nil || p == nil {
				bad(s, "early", w.posOf(c), "the end of the sentence is linked before anything was inserted")
				return nil, true, false
			}
			// (the insertions in between write to other nodes' ranges)
			end := d.end[e]
			if end == nil {
				end = fld(s, e, nodeT, "Begin")
			}
			if k.rangeOf(s, k.sub(end, p)).hi > 0 {
				bad(s, "early", w.posOf(c), "the end of the sentence can be linked before all positions up to it have been visited")
			}
			return nil, true, false
		case callee == best:
			bests++
			if !d.eos {
				bad(s, "unlinked", w.posOf(c), "the best path can be asked for before the end of the sentence was linked")
			}
			return nil, false, false
		}
		return nil, false, true
	}
	k.run(tok, func(s *astate) { s.data = &ordState{end: map[*T]*T{}} })
	if k.gaveUp || inserts == 0 || links == 0 || bests == 0 || rounds == 0 {
		r.add(Finding{Key: "shape:Tokenize", Rule: "order", Pos: w.pos(tok.Pos()), Msg: fmt.Sprintf("Tokenize was not recognised as inserting nodes position by position and linking the end (%d insertions, %d links, %d rounds)", inserts, links, rounds)})
	}
	// the functions that make nodes for a position let them begin there
	for _, f := range w.allFns {
		if !makers[f] {
			continue
		}
		f := f
		r.oblige("nodes made for a position by " + w.fname(f))
		k := newAI(w, aclient{})
		k.keep = true
		type mk struct {
			l   listLoop
			has bool
		}
		k.cl.clone = func(d any) any { n := *d.(*mk); return &n }
		k.cl.key = func(d any) string { return fmt.Sprint(*d.(*mk)) }
		var off *ssa.Parameter
		for _, p := range f.Params {
			if isInteger(p.Type()) {
				off = p
			}
		}
		isNode := func(t types.Type) bool { return namedOf(t) == nodeT }
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if l, ok := k.listLoopOf(s, h, isNode); ok {
				*s.data.(*mk) = mk{l, true}
			}
		}
		seen := map[string]bool{}
		bad := func(s *astate, key, at, msg string) {
			if !seen[key+at] {
				seen[key+at] = true
				r.add(Finding{Key: key + ":" + w.fname(f), Rule: "order", Pos: at, Msg: w.fname(f) + " " + msg, Path: k.trail(s)})
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*mk)
			if !d.has || d.l.h != h || d.l.list == nil || off == nil {
				return
			}
			r.count("rounds over made nodes", 1)
			n := k.elemAt(s, d.l.list, k.index(d.l))
			for i := 0; i < nodeT.Underlying().(*types.Struct).NumFields(); i++ {
				if fd := nodeT.Underlying().(*types.Struct).Field(i); fd.Name() == "Begin" {
					if k.equal(s, k.load(s, k.fld(n, nodeT, i), fd.Type()), s.stack[0].env[off]) != 1 {
						bad(s, "begin", w.pos(f.Pos()), "can leave a node that does not begin where it was asked to")
					}
				}
			}
			if !k.stepsByOne(s, d.l) {
				bad(s, "begin", w.pos(f.Pos()), "does not go on with the next node")
			}
		}
		ends := 0
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			return nil, false, callee != nil && callee.Signature.Results().Len() <= 1
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || k.nonNil(s, res[len(res)-1]) == 1 && isErrorType(f.Signature.Results().At(len(res)-1).Type()) {
				return
			}
			ends++
			d := s.data.(*mk)
			if k.rangeOf(s, k.lenOf(s, res[0])).hi <= 0 {
				return
			}
			if !d.has || d.l.list != res[0] || !k.gone(s, &d.l, res[0]) {
				bad(s, "begin", w.posOf(at), "can return nodes that do not all begin where it was asked to")
			}
		}
		k.run(f, func(s *astate) {
			s.data = &mk{}
			for _, p := range f.Params {
				k.val(s, s.top(), p)
			}
		})
		if ends == 0 || k.gaveUp || off == nil {
			r.add(Finding{Key: "shape:" + w.fname(f), Rule: "order", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " was not recognised as making nodes for a position"})
		}
	}
	r.floor("insertions on paths", 3)
}
