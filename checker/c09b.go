package main

// C09: looking words up by their columns, lists of units, part-of-speech ids.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isFinder: a function that gives the id of the word with some columns.
func isFinder(f *ssa.Function) bool {
	if f == nil || f.Signature.Results().Len() != 1 || !isBasic(f.Signature.Results().At(0).Type(), types.Int32) {
		return false
	}
	str, pos, n := 0, 0, f.Signature.Params().Len()
	for i := 0; i < n; i++ {
		switch t := f.Signature.Params().At(i).Type(); {
		case isStrT(t):
			str++
		case isBasic(t, types.Int16):
			pos++
		}
	}
	return str == 2 && pos == 1 && n == 3
}

var wordKeys = []string{"Surface", "PosId", "ReadingForm"}

// findersOf: what the functions that look a word up compare.
func (x *columns) findersOf() {
	w := x.w
	var fs []*ssa.Function
	for _, f := range w.allFns {
		if f.Synthetic == "" && len(f.Blocks) > 0 && w.inModule(f) && f.Signature.Recv() != nil && isFinder(f) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return w.fname(fs[i]) < w.fname(fs[j]) })
	// those that compare fields first, then those that only pass on
	for round := 0; round < 3; round++ {
		for _, f := range fs {
			if x.finders[f] == nil {
				x.finder(f, round == 2)
			}
		}
	}
	x.r.floor("functions looking a word up by its columns", 3)
}

func (x *columns) finder(f *ssa.Function, last bool) {
	w := x.w
	who := w.fname(f)
	winfo := w.typ("dictionary", "WordInfo")
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	type found struct {
		key, at, msg string
		path         []string
	}
	var probs []found
	bad := func(s *astate, key, at, msg string) {
		probs = append(probs, found{key, at, who + " " + msg, k.trail(s)})
	}
	par := map[string]int{} // field -> parameter
	set := func(fl string, i int) bool {
		if j, ok := par[fl]; ok {
			return i == j
		}
		par[fl] = i
		return true
	}
	// the word infos a path has looked at
	type fst struct{ wis, ids map[*T]*T }
	cp := func(m map[*T]*T) map[*T]*T {
		n := map[*T]*T{}
		for a, b := range m {
			n[a] = b
		}
		return n
	}
	k.cl.clone = func(d any) any { x := d.(*fst); return &fst{cp(x.wis), cp(x.ids)} }
	k.cl.key = func(d any) string { x := d.(*fst); return mapKey(x.wis) + "/" + mapKey(x.ids) }
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee == nil {
			return nil, false, true
		}
		d := s.data.(*fst)
		sig := callee.Signature
		if w.inModule(callee) && isFinder(callee) && callee != f {
			p := x.finders[callee]
			if p == nil {
				bad(s, "unknown:"+w.fname(callee), w.posOf(ci), "looks a word up with "+w.fname(callee)+", of which it is not known what it compares")
				return nil, false, false
			}
			for _, fl := range wordKeys {
				a := args[p[fl]]
				i := -1
				for j, q := range f.Params {
					if v := k.val(s, s.stack[0], q); v == a || fl == "PosId" && isBasic(q.Type(), types.Int16) && (unconv(a, 2) == unconv(v, 2) || hasTerm(a, v)) {
						i = j
					}
				}
				if i < 0 || !set(fl, i) {
					bad(s, "pass:"+fl, w.posOf(ci), fmt.Sprintf("passes %s to %s as the %s to look for", shortT(a), w.fname(callee), fl))
				}
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			d.ids[res[0]] = nil
			return res, true, false
		}
		if w.inModule(callee) && sig.Results().Len() == 1 && isPtrTo(sig.Results().At(0).Type(), winfo) {
			res := k.opaque(s, s.top(), ci, callee, args)
			for i, p := range callee.Params {
				if isBasic(p.Type(), types.Int32) {
					d.wis[res[0]] = args[i]
				}
			}
			return res, true, false
		}
		return nil, false, true
	}
	// the infos: those got from calls, and those of elements of a list
	infos := func(s *astate) map[*T]*T {
		out := cp(s.data.(*fst).wis)
		look := func(t *T) {
			walkT(t, func(t *T) bool {
				if t.typ != nil && isPtrTo(t.typ, winfo) && t.op == "load" && t.args[0].op == "fld" {
					b := t.args[0].args[0]
					for b.op == "load" && b.args[0].op != "idx" && len(b.args[0].args) > 0 {
						b = b.args[0].args[0]
					}
					if b.op == "load" && b.args[0].op == "idx" {
						out[t] = b.args[0].args[1]
					}
				}
				return true
			})
		}
		for t := range s.facts {
			look(t)
		}
		for t := range s.bnd {
			look(t)
		}
		return out
	}
	field := func(s *astate, wi *T, name string) *T { return k.getField(s, wi, winfo, name) }
	cmp := func(s *astate, wi *T, name string) (i int, v int) {
		for j, q := range f.Params {
			a, b := field(s, wi, name), k.val(s, s.stack[0], q)
			if !types.Identical(a.typ.Underlying(), q.Type().Underlying()) {
				continue
			}
			if v := k.same(s, a, b); v != 0 {
				return j, v
			}
		}
		return -1, 0
	}
	heads := 0
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		if s.top().fn != f {
			return
		}
		heads++
		for wi := range infos(s) {
			for _, fl := range wordKeys {
				if _, v := cmp(s, wi, fl); v == -1 {
					return
				}
			}
		}
		// a lookup that found nothing, or one not tried
		for id := range s.data.(*fst).ids {
			if k.rangeOf(s, unconv(id, 4)).hi < 0 {
				return
			}
		}
		if len(s.data.(*fst).ids) == 0 && len(infos(s)) == 0 {
			return // C10 says which are passed over
		}
		bad(s, "pass-over", w.pos(f.Pos()), "passes over a word without knowing that it differs from the one looked for")
	}
	compared := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		v := res[0]
		if k.rangeOf(s, unconv(v, 4)).hi < 0 {
			return
		}
		for id := range s.data.(*fst).ids {
			if hasTerm(v, id) {
				compared++
				return
			}
		}
		n := 0
		for wi, id := range infos(s) {
			if !hasTerm(v, unconv(id, 8)) && v != id && !hasPhi(v, id) {
				continue
			}
			n++
			for _, fl := range wordKeys {
				if i, c := cmp(s, wi, fl); c != 1 || !set(fl, i) {
					bad(s, "compare:"+fl, w.posOf(at), fmt.Sprintf("returns a word without knowing that its %s is the one looked for", fl))
				}
			}
			compared++
		}
		if n == 0 {
			bad(s, "other", w.posOf(at), fmt.Sprintf("returns %s, not a word it has compared", shortT(v)))
		}
	}
	k.run(f, func(s *astate) {
		s.data = &fst{map[*T]*T{}, map[*T]*T{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
	})
	seen := map[int]string{}
	for _, fl := range wordKeys {
		i, ok := par[fl]
		if !ok {
			probs = append(probs, found{"key:" + fl, w.pos(f.Pos()), who + " does not look at " + fl, nil})
			continue
		}
		if o := seen[i]; o != "" {
			probs = append(probs, found{"keys:" + fl, w.pos(f.Pos()), fmt.Sprintf("%s compares one value with %s and %s", who, o, fl), nil})
		}
		seen[i] = fl
	}
	if k.gaveUp {
		probs = append(probs, found{"gaveup", w.pos(f.Pos()), who + " could not be analysed completely", nil})
	}
	if len(probs) > 0 && !last {
		return // a function it needs may not have been looked at yet
	}
	x.r.oblige(who + " looks a word up by surface, part of speech and reading")
	x.r.count("functions looking a word up by its columns", 1)
	x.finders[f] = par
	done := map[string]bool{}
	for _, p := range probs {
		if !done[p.key] {
			done[p.key] = true
			x.r.add(Finding{Key: "find:" + who + ":" + p.key, Rule: x.rule, Pos: p.at, Msg: p.msg, Path: p.path})
		}
	}
}

func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedOf(p.Elem()) == n
}

// hasPhi: v is made of the number that id is.
func hasPhi(v, id *T) bool {
	id = unconv(id, 8)
	if id.op == "lin" || id.op == "poly" {
		for _, a := range id.args {
			if hasTerm(v, a) {
				return true
			}
		}
	}
	return false
}

type unitState struct {
	cols, err *T
	src       *T // what the columns are of
	pos       map[*T][]*T
	found     map[*T]string // id -> what is wrong with it, or ""
	acc       map[*ssa.Phi]*T
	in        map[*ssa.BasicBlock]*listLoop
	st        map[*T]bool
}

func (d *unitState) clone() any {
	n := *d
	n.pos, n.found, n.in = map[*T][]*T{}, map[*T]string{}, map[*ssa.BasicBlock]*listLoop{}
	for a, b := range d.pos {
		n.pos[a] = b
	}
	for a, b := range d.found {
		n.found[a] = b
	}
	for a, b := range d.in {
		n.in[a] = b
	}
	return &n
}

func (d *unitState) key() string {
	id := func(t *T) int {
		if t == nil {
			return 0
		}
		return t.id
	}
	var ps []string
	for a, b := range d.pos {
		ps = append(ps, fmt.Sprint(a.id, len(b)))
	}
	for a, b := range d.found {
		ps = append(ps, fmt.Sprint(a.id, b))
	}
	for a, b := range d.in {
		ps = append(ps, fmt.Sprint(a.Index, b.phi.id))
	}
	sort.Strings(ps)
	return fmt.Sprint(id(d.cols), id(d.err), id(d.src), ps)
}

// units: the functions that turn a column into a list of references.
func (x *columns) units() {
	w := x.w
	dt := w.typ("dictionary", "DictionaryBuilder")
	n := 0
	for _, f := range w.allFns {
		if f.Synthetic != "" || len(f.Blocks) == 0 || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != dt {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 2 && isInt32s(res.At(0).Type()) && paramOf(f, isStrT) != nil {
			n++
			x.unitsOf(f)
		}
	}
	if n == 0 {
		panic("no function makes references from a column")
	}
	x.r.floor("units followed to a reference", 1)
}

func (x *columns) unitsOf(f *ssa.Function) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + " makes one reference of each unit of its column, in order")
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	info := paramOf(f, isStrT)
	var text *T
	k.cl.clone = func(d any) any { return d.(*unitState).clone() }
	k.cl.key = func(d any) string { return d.(*unitState).key() }
	words := func(t *T) bool {
		if t == nil || !isRes(t, "strings.Split") || strings.Contains(t.s, "strings.SplitN") || len(t.args) != 2 || t.args[0] != text {
			return false
		}
		sep, ok := t.args[1].strVal()
		return ok && sep == "/"
	}
	x.lineLoads(k, who, func(s *astate, t *T) bool { return t == s.data.(*unitState).cols || words(t) })
	// the unit of the round
	unit := func(s *astate) (*T, *listLoop) {
		for _, l := range s.data.(*unitState).in {
			return k.cl.load(k, s, k.idx(l.list, k.index(*l), types.Typ[types.String]), nil), l
		}
		return nil, nil
	}
	k.cl.call = func(k *ai, s *astate, ci ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*unitState)
		if list, ok := x.posCall(k, s, ci); ok {
			var cs []*T
			if n, isC := k.lenOf(s, list).intVal(); isC && n <= 32 {
				for i := int64(0); i < n; i++ {
					cs = append(cs, k.elemAt(s, list, k.num(i)))
				}
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			d.pos[res[0]] = cs
			return res, true, false
		}
		if callee == nil {
			return nil, false, true
		}
		if x.isReader(callee) {
			res := k.opaque(s, s.top(), ci, callee, args)
			d.cols, d.err = res[0], res[1]
			d.src = nil
			if u, _ := unit(s); u != nil && x.textOf(k, s, args[0], u) {
				d.src = u
			}
			return res, true, false
		}
		if p, ok := x.finders[callee]; ok {
			why := ""
			if d.cols == nil || d.src == nil {
				why = "does not look for the word that the unit describes"
			} else {
				if i, ok := x.column(args[p["Surface"]], d.cols); !ok || i != 0 {
					why = fmt.Sprintf("looks for %s as the surface of a unit, not for its first part", shortT(args[p["Surface"]]))
				}
				if !x.posOf(args[p["PosId"]], d.pos, d.cols, 1) {
					why = fmt.Sprintf("looks for %s as the part of speech of a unit, not for parts 1 to %d", shortT(args[p["PosId"]]), posParts)
				}
				if i, ok := x.column(args[p["ReadingForm"]], d.cols); !ok || i != 1+posParts {
					why = fmt.Sprintf("looks for %s as the reading of a unit, not for part %d", shortT(args[p["ReadingForm"]]), 1+posParts)
				}
			}
			if why != "" {
				x.bad(k, s, "unit:"+who+":find", w.posOf(ci), who+" "+why)
			}
			res := k.opaque(s, s.top(), ci, callee, args)
			d.found[res[0]] = why
			return res, true, false
		}
		return nil, false, true
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		if s.top().fn != f {
			return
		}
		if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && isStrT(t) }); ok && words(l.list) {
			s.data.(*unitState).in[h] = &l
		}
	}
	// grows: which variables get one reference per round
	type track struct{ good, bad int }
	grow := map[*ssa.Phi]*track{}
	fill := map[*T]*track{}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*unitState)
		l := d.in[h]
		if s.top().fn != f || l == nil {
			return
		}
		fr := s.top()
		u, _ := unit(s)
		if !k.stepsByOne(s, *l) {
			x.bad(k, s, "unit:"+who+":step", w.pos(f.Pos()), who+" does not go through the units one by one")
		}
		of := func(v *T) bool {
			ok := false
			walkT(v, func(t *T) bool {
				if t.op == "res" && t.in != nil {
					if _, isF := d.found[t]; isF {
						ok = true
					} else if strings.HasPrefix(t.s, "strconv.") && len(t.args) > 0 {
						a := t.args[0]
						if a == u || (a.op == "slice" || a.op == "res") && len(a.args) > 0 && a.args[0] == u {
							ok = true
						}
						if strings.HasPrefix(t.s, "strconv.ParseInt") {
							if b, isC := t.args[1].intVal(); !isC || b != 10 {
								x.bad(k, s, "unit:"+who+":base", w.pos(f.Pos()), who+" reads the number of a unit in another base than 10")
							}
						}
					}
					return false
				}
				return true
			})
			return ok
		}
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok || !isInt32s(phi.Type()) {
				continue
			}
			tr := grow[phi]
			if tr == nil {
				tr = &track{}
				grow[phi] = tr
			}
			for i, p := range h.Preds {
				if p == fr.pred {
					v := k.val(s, fr, phi.Edges[i])
					if v.op == "append1" && len(v.args) == 2 && v.args[0] == fr.env[phi] && of(v.args[1]) {
						tr.good++
						x.r.count("units followed to a reference", 1)
					} else {
						tr.bad++
					}
				}
			}
		}
		for a, v := range s.mem {
			if a.op == "idx" && a.args[0].op == "mkslice" && isInt32s(a.args[0].typ) && k.equal(s, a.args[1], k.index(*l)) == 1 {
				tr := fill[a.args[0]]
				if tr == nil {
					tr = &track{}
					fill[a.args[0]] = tr
				}
				if of(v) {
					tr.good++
					x.r.count("units followed to a reference", 1)
				} else {
					tr.bad++
				}
			}
		}
	}
	type later struct {
		s   *astate
		v   *T
		at  string
		phi *ssa.Phi
	}
	var late []later
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn || k.nonNil(s, res[1]) != -1 {
			return
		}
		v := res[0]
		d := s.data.(*unitState)
		u, l := unit(s)
		switch {
		case l == nil:
			star := k.same(s, text, k.str("*")) == 1
			empty := v.op == "nil" || k.equal(s, k.lenOf(s, v), k.num(0)) == 1
			if !star || !empty {
				x.bad(k, s, "unit:"+who+":none", w.posOf(at), fmt.Sprintf("%s returns %s without going through the units, for something else than *", who, shortT(v)))
			}
		case !k.gone(s, l, l.list):
			x.bad(k, s, "unit:"+who+":early", w.posOf(at), who+" returns before it has gone through all units")
		default:
			if k.same(s, text, k.str("*")) != -1 {
				x.bad(k, s, "unit:"+who+":star", w.posOf(at), who+" may take * for a unit")
			}
			var phi *ssa.Phi
			for _, in := range l.h.Instrs {
				if p, ok := in.(*ssa.Phi); ok && s.top().env[p] == v {
					phi = p
				}
			}
			late = append(late, later{s, v, w.posOf(at), phi})
		}
		_, _ = u, d
	}
	k.run(f, func(s *astate) {
		s.data = &unitState{pos: map[*T][]*T{}, found: map[*T]string{}, in: map[*ssa.BasicBlock]*listLoop{}}
		for _, p := range f.Params {
			k.val(s, s.top(), p)
		}
		text = k.val(s, s.top(), info)
	})
	if k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
	if len(late) == 0 {
		x.bad(nil, nil, "unit:"+who+":never", w.pos(f.Pos()), who+" never returns the references of a column")
	}
	for _, y := range late {
		ok := false
		if y.phi != nil {
			tr := grow[y.phi]
			start := y.phi.Edges[0]
			for i, p := range y.phi.Block().Preds {
				if !k.loop(y.phi.Block())[p] {
					start = y.phi.Edges[i]
				}
			}
			ok = tr != nil && tr.bad == 0 && tr.good > 0 && noElems(start)
		} else if y.v.op == "mkslice" {
			tr := fill[y.v]
			ok = tr != nil && tr.bad == 0 && tr.good > 0
			if ok {
				ok = y.v.args[0].op == "len" && words(y.v.args[0].args[0])
			}
		}
		if !ok {
			x.bad(k, y.s, "unit:"+who+":list", y.at, fmt.Sprintf("%s returns %s, not one reference for each unit, in order", who, shortT(y.v)))
		}
	}
}

// noElems: v is a slice of no elements.
func noElems(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice:
		c, ok := v.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok {
			if at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				if at.Len() == 0 {
					return true
				}
			}
		}
		if c, ok := v.High.(*ssa.Const); ok {
			return c.Int64() == 0
		}
	}
	return false
}
