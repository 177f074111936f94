package main

// C20: character categories are distinct, complete and consistently used.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "abstract interpretation (constant propagation and value numbering with loop induction) of the category parser, the category lookup, the definition readers and the unknown-word generator", checkCategories)
}

var categoryNames = []string{"DEFAULT", "SPACE", "KANJI", "SYMBOL", "NUMERIC", "ALPHA", "HIRAGANA", "KATAKANA", "KANJINUMERIC", "GREEK", "CYRILLIC", "USER1", "USER2", "USER3", "USER4", "NOOOVBOW"}

func checkCategories(w *World, r *Report) {
	dic := w.spkg[w.rel("dictionary")]
	if dic == nil {
		panic("package dictionary not found")
	}
	// the constants
	bits := map[string]int64{}
	owner := map[int64]string{}
	for _, n := range categoryNames {
		c, ok := dic.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			panic("constant dictionary." + n + " not found")
		}
		v, exact := constant.Int64Val(constant.ToInt(c.Val()))
		r.oblige("category constant " + n)
		r.count("category constants", 1)
		switch {
		case !exact || v <= 0 || v&(v-1) != 0 || v > math.MaxUint32:
			r.add(Finding{Key: "bit:" + n, Rule: "distinct bits", Pos: w.pos(c.Pos()), Msg: fmt.Sprintf("category %s = %d is not a single bit", n, v)})
		case owner[v] != "":
			r.add(Finding{Key: "bit:" + n, Rule: "distinct bits", Pos: w.pos(c.Pos()), Msg: fmt.Sprintf("categories %s and %s are the same bit %d", owner[v], n, v)})
		}
		owner[v] = n
		bits[n] = v
	}

	// the parser
	parse := w.must(w.pkgFunc("dictionary", "GetCategoryType"), "dictionary.GetCategoryType")
	run := func(name string, arg func(k *ai) *T, check func(k *ai, s *astate, res []*T, at string)) {
		k := newAI(w, aclient{})
		k.loadInits("dictionary")
		k.unroll = true
		n := 0
		k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
			if kind == aReturn {
				n++
				check(k, s, res, w.posOf(at))
			}
		}
		k.run(parse, func(s *astate) { s.top().env[parse.Params[0]] = arg(k) })
		if n == 0 || k.gaveUp {
			r.add(Finding{Key: "parse:" + name, Rule: "parser", Pos: w.pos(parse.Pos()), Msg: "no outcome could be determined for the name " + name})
		}
	}
	for _, n := range categoryNames {
		n := n
		r.oblige("GetCategoryType(" + n + ")")
		r.count("category names parsed", 1)
		run(n, func(k *ai) *T { return k.str(n) }, func(k *ai, s *astate, res []*T, at string) {
			v, ok := res[0].intVal()
			if !ok || v != bits[n] || res[1].op != "nil" {
				r.add(Finding{Key: "parse:" + n, Rule: "parser", Pos: at, Msg: fmt.Sprintf("GetCategoryType(%q) can return (%s, %s), not (%s, nil)", n, res[0], res[1], n)})
			}
		})
	}
	r.oblige("GetCategoryType(any other name)")
	run("other", func(k *ai) *T { return k.other("name") }, func(k *ai, s *astate, res []*T, at string) {
		if k.nonNil(s, res[1]) != 1 {
			r.add(Finding{Key: "parse:other", Rule: "parser", Pos: at, Msg: "GetCategoryType of a name that is none of the sixteen can return without an error"})
		}
	})

	checkCategoryLookup(w, r, bits["DEFAULT"])
	checkCategoryReaders(w, r, parse)
	checkOovCategories(w, r)
	checkOovProvidersAsked(w, r)
	checkMasks(w, r, owner)
}

// checkOovProvidersAsked: at a character that may begin a word, whatever its
// categories, tokenization goes through the unknown-word providers.
func checkOovProvidersAsked(w *World, r *Report) {
	tok := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	catTypes := w.must(w.method("", "InputText", "GetCharCategoryTypes"), "InputText.GetCharCategoryTypes")
	provides := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().IsInvoke() && c.Common().Method.Name() == "ProvideOOV"
	}
	reach := transitively(w, provides)
	asks := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if provides(in) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.callees(c) {
					if reach[g] {
						return true
					}
				}
			}
		}
		return false
	}
	for i := 0; i < 15; i++ {
		have, name := int64(1)<<uint(i), categoryNames[i]
		type st struct{ asked, reached bool }
		k := newAI(w, aclient{})
		k.only = reach
		k.cl.clone = func(d any) any {
			if d == nil {
				return &st{}
			}
			n := *d.(*st)
			return &n
		}
		k.cl.key = func(d any) string { return fmt.Sprint(*d.(*st)) }
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*st)
			if callee == catTypes {
				*d = st{asked: true}
				return []*T{k.cst(constant.MakeInt64(have), types.Typ[types.Uint32])}, true, false
			}
			if provides(c) || callee != nil && reach[callee] {
				d.reached = true
				return nil, false, !provides(c) && !d.asked
			}
			return nil, false, true
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*st)
			for b := range k.loop(h) {
				if asks(b) {
					if d.asked {
						d.reached = true
					}
				}
			}
		}
		n := 0
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			if d := s.data.(*st); d.asked {
				n++
				if !d.reached {
					r.add(Finding{Key: "providers:" + name, Rule: "unknown words", Pos: w.pos(h.Parent().Pos()), Msg: "at a character of the category " + name + " tokenization can go on without asking the unknown-word providers", Path: k.trail(s)})
				}
			}
		}
		k.run(tok, func(s *astate) { s.data = &st{} })
		r.oblige("unknown-word providers at a character of the category " + name)
		if k.gaveUp || n == 0 {
			r.add(Finding{Key: "providers:shape", Rule: "unknown words", Pos: w.pos(tok.Pos()), Msg: "where tokenization asks the unknown-word providers could not be determined"})
		}
	}
}

// orLoop: acc is a loop accumulator, 0 at first.
func (k *ai) isOrAccumulator(t *T) bool {
	phi, ok := t.v.(*ssa.Phi)
	if !ok || t.op != "sym" || t.hdr == nil {
		return false
	}
	for i, e := range phi.Edges {
		if t.hdr.Dominates(t.hdr.Preds[i]) {
			continue
		}
		if n, ok := constInt(e); !ok || n != 0 {
			return false
		}
	}
	return true
}

func checkCategoryLookup(w *World, r *Report, def int64) {
	f := w.must(w.method("dictionary", "CharacterCategory", "GetCategoryTypes"), "CharacterCategory.GetCategoryTypes")
	pos := w.pos(f.Pos())
	k := newAI(w, aclient{})
	k.keep = true
	backs, ors := 0, 0
	var cp *T
	bad := func(key, at, msg string) {
		r.add(Finding{Key: "lookup:" + key, Rule: "category lookup", Pos: at, Msg: msg})
	}
	// the accumulators at each generic loop
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		fr := s.top()
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			acc := fr.env[phi]
			if !isUint32(phi.Type()) || !k.isOrAccumulator(acc) {
				continue
			}
			var next *T
			for i, p := range h.Preds {
				if p == fr.pred {
					next = k.val(s, fr, phi.Edges[i])
				}
			}
			backs++
			// is the character inside the element's range on this path?
			in, out, cats := rangeFacts(k, s, cp)
			if next == acc {
				if !out {
					bad("missed", pos, "GetCategoryTypes can pass over a range without having found the character outside it")
				}
				continue
			}
			if next.op == "|" && len(next.args) == 2 && (next.args[0] == acc || next.args[1] == acc) {
				e := next.args[0]
				if e == acc {
					e = next.args[1]
				}
				if in && cats(e) {
					ors++
					continue
				}
			}
			bad("merge", pos, fmt.Sprintf("GetCategoryTypes goes on with %s, which is neither the categories found so far nor those and the categories of a range containing the character", next))
		}
	}
	k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
		if kind != aReturn {
			return
		}
		r.oblige("GetCategoryTypes return at " + w.posOf(at))
		r.count("category lookup returns", 1)
		t := res[0]
		if n, ok := t.intVal(); ok {
			zero := false
			for b, iv := range s.bnd {
				if iv.lo == 0 && iv.hi == 0 && (k.isOrAccumulator(b) || b.op == "len") {
					zero = true
				}
			}
			if n != def || !zero {
				bad("default", w.posOf(at), fmt.Sprintf("GetCategoryTypes can return the constant %d where the character is not known to be in no range", n))
			}
			return
		}
		if !k.isOrAccumulator(t) {
			bad("value", w.posOf(at), fmt.Sprintf("GetCategoryTypes returns %s, which is not the union of the categories of all ranges containing the character", t))
			return
		}
		if rg := k.rangeOf(s, t); rg.lo < 1 {
			bad("zero", w.posOf(at), "GetCategoryTypes can return no category at all: DEFAULT is not substituted")
		}
		// the list was gone through to the end
		if !exhausted(k, s, t) {
			bad("partial", w.posOf(at), "GetCategoryTypes can return before every range has been looked at")
		}
	}
	k.run(f, func(s *astate) { cp = k.val(s, s.top(), f.Params[len(f.Params)-1]) })
	if k.gaveUp || backs == 0 || ors == 0 {
		bad("shape", pos, "GetCategoryTypes was not recognised as collecting the categories of the ranges that contain the character")
	}
}

// rangeFacts: what the path knows about a character and the bounds of one
// list element.
func rangeFacts(k *ai, s *astate, cp *T) (in, out bool, cats func(*T) bool) {
	var elem *T
	lo, hi := "", ""
	note := func(b *T) (string, bool) {
		if b.op != "load" || b.args[0].op != "fld" {
			return "", false
		}
		if elem == nil {
			elem = b.args[0].args[0]
		}
		return b.args[0].s, elem == b.args[0].args[0]
	}
	// differences cp - bound with a known sign
	for d, iv := range s.bnd {
		p := k.poly(d)
		if len(p.m) != 2 || p.m[cp] == 0 {
			continue
		}
		var b *T
		sg := p.m[cp]
		for a, c := range p.m {
			if a != cp {
				b = a
				if c != -sg {
					b = nil
				}
			}
		}
		if b == nil {
			continue
		}
		fn, ok := note(b)
		if !ok {
			continue
		}
		if sg < 0 {
			iv = iv.scale(-1)
		}
		// cp - b in iv
		switch {
		case iv.lo == 0 && iv.hi == math.MaxInt64 || iv.lo == 0 && iv.hi > 1<<31:
			lo = fn
		case iv.hi == 0 && iv.lo < -(1<<31)+1:
			hi = fn
		case iv.hi == -1 || iv.lo == 1:
			out = true
		}
	}
	in = lo != "" && hi != "" && lo != hi
	if in {
		out = false
	}
	return in, out, func(e *T) bool {
		return e.op == "load" && e.args[0].op == "fld" && e.args[0].args[0] == elem && e.args[0].s != lo && e.args[0].s != hi
	}
}

// exhausted: the path left the loop of accumulator t by finding the index not
// below the list's length (or the iterator at its end).
func exhausted(k *ai, s *astate, t *T) bool {
	for d, iv := range s.bnd {
		p := k.poly(d)
		l, ix := 0, 0
		var lc int64
		for a, c := range p.m {
			if a.op == "len" {
				l++
				lc = c
			}
			if a.op == "sym" && a.hdr == t.hdr {
				ix++
			}
		}
		if l == 1 && ix == 1 && len(p.m) == 2 {
			// lc*len - lc*ix: index (+1 in a range loop) >= len
			if lc < 0 {
				// ix - len
				if iv.lo >= -1 && iv.lo > math.MinInt64 {
					return true
				}
			} else if iv.hi <= 1 {
				return true
			}
		}
	}
	return false
}

func isUint32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint32
}

// checkCategoryReaders: definition readers use exactly the parsed category as
// key or add it to the categories of a range.
func checkCategoryReaders(w *World, r *Report, parse *ssa.Function) {
	users := w.index().args[parse]
	fns := map[*ssa.Function]bool{}
	for _, c := range users {
		fns[c.Parent()] = true
	}
	for _, f := range sortedFns(w, fns) {
		f := f
		k := newAI(w, aclient{})
		k.only = map[*ssa.Function]bool{}
		parsed := func(t *T) bool { return t.op == "sym" && strings.HasPrefix(t.s, "category ") }
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee == parse {
				r.count("category parse sites", 1)
				fr := s.top()
				t := k.mk(&T{op: "sym", s: "category " + fr.here(), typ: types.Typ[types.Uint32]})
				return []*T{t, k.mk(&T{op: "sym", s: "parse error " + fr.here(), typ: errorType})}, true, false
			}
			return nil, false, false
		}
		var accs = map[*T]bool{}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			fr := s.top()
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				acc := fr.env[phi]
				if !isUint32(phi.Type()) || !accs[acc] {
					continue
				}
				for i, p := range h.Preds {
					if p == fr.pred {
						next := k.val(s, fr, phi.Edges[i])
						if next != acc && !(next.op == "|" && len(next.args) == 2 && (next.args[0] == acc && parsed(next.args[1]) || next.args[1] == acc && parsed(next.args[0]))) {
							r.add(Finding{Key: "collect:" + w.fname(f), Rule: "definition readers", Pos: w.pos(phi.Pos()), Msg: fmt.Sprintf("the categories collected in %s go on as %s: a parsed category is lost or changed", w.fname(f), next)})
						}
					}
				}
			}
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			for _, in := range h.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && isUint32(phi.Type()) && k.isOrAccumulator(s.top().env[phi]) {
					accs[s.top().env[phi]] = true
				}
			}
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if !isUint32(in.Map.Type().Underlying().(*types.Map).Key()) {
					return
				}
				r.oblige("category key at " + w.posOf(in))
				r.count("category uses in readers", 1)
				if !parsed(a.args[1]) {
					r.add(Finding{Key: "key:" + w.fname(f) + ":" + describeAddr(in.Map), Rule: "definition readers", Pos: w.posOf(in), Msg: fmt.Sprintf("%s files a definition under %s, not under the category parsed from its name", w.fname(f), a.args[1])})
				}
			case *ssa.Store:
				if !isUint32(in.Val.Type()) || a.op != "fld" || v.op == "const" {
					return
				}
				if n, ok := v.intVal(); ok && n == 0 {
					return
				}
				r.oblige("category store at " + w.posOf(in))
				r.count("category uses in readers", 1)
				old := k.load(s, a, in.Val.Type())
				if parsed(v) && in.Val == nil {
					return
				}
				okv := accs[v] || parsed(v) && singleCategoryRecord(w, in)
				if v.op == "|" && len(v.args) == 2 {
					for i := 0; i < 2; i++ {
						if (v.args[i] == old || accs[v.args[i]]) && parsed(v.args[1-i]) {
							okv = true
						}
					}
				}
				// the first of several
				if parsed(v) {
					if n, ok := old.intVal(); ok && n == 0 {
						okv = true
					}
				}
				if !okv {
					r.add(Finding{Key: "store:" + w.fname(f) + ":" + describeAddr(in.Addr), Rule: "definition readers", Pos: w.posOf(in), Msg: fmt.Sprintf("%s stores %s as categories: not the parsed category added to those parsed before", w.fname(f), v)})
				}
			}
		}
		k.run(f, nil)
		if k.gaveUp {
			r.add(Finding{Key: "readers:" + w.fname(f), Rule: "definition readers", Pos: w.pos(f.Pos()), Msg: "the analysis of " + w.fname(f) + " did not end"})
		}
	}
	r.floor("category parse sites", 3)
	r.floor("category uses in readers", 3)
}

// singleCategoryRecord: the field is only ever stored to where its object is
// made.
func singleCategoryRecord(w *World, st *ssa.Store) bool {
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok && len(w.index().fst[fieldClass(fa.X.Type(), fa.Field)]) == 1 && st.Block() == fa.X.(*ssa.Alloc).Block()
}

// checkOovCategories: with a character of given categories, the generator of
// unknown words looks up the definitions of exactly these.
func checkOovCategories(w *World, r *Report) {
	f := w.must(w.method("", "MeCabOovProviderPlugin", "ProvideOOV"), "MeCabOovProviderPlugin.ProvideOOV")
	types_ := w.must(w.method("", "InputText", "GetCharCategoryTypes"), "InputText.GetCharCategoryTypes")
	length := w.must(w.method("", "InputText", "GetCharCategoryContinuousLength"), "InputText.GetCharCategoryContinuousLength")
	pos := w.pos(f.Pos())
	try := func(have int64, name string) {
		type looked struct{ keys map[int64]bool }
		k := newAI(w, aclient{})
		k.unroll = true
		k.limit = 60000
		k.cl.clone = func(d any) any {
			n := looked{map[int64]bool{}}
			if d != nil {
				for a := range d.(looked).keys {
					n.keys[a] = true
				}
			}
			return n
		}
		k.cl.key = func(d any) string {
			var o int64
			for a := range d.(looked).keys {
				o |= a
			}
			return fmt.Sprint(o)
		}
		asked := false
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			switch callee {
			case types_:
				asked = true
				return []*T{k.cst(constant.MakeInt64(have), types.Typ[types.Uint32])}, true, false
			case length:
				t := k.mk(&T{op: "sym", s: "continuous length", typ: types.Typ[types.Int]})
				k.bound(s, t, ival{lo: 1, hi: math.MaxInt64})
				return []*T{t}, true, false
			}
			// helpers of the plugin are followed, the rest is not of interest
			ok := callee != nil && callee.Pkg == f.Pkg && (callee.Parent() != nil || usesUint32Maps(w, callee))
			return nil, false, ok
		}
		k.cl.inst = func(k *ai, s *astate, in ssa.Instruction) {
			l, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			m, ok := l.X.Type().Underlying().(*types.Map)
			if !ok || !isUint32(m.Key()) {
				return
			}
			key := k.val(s, s.top(), l.Index)
			n, ok := key.intVal()
			if !ok {
				r.add(Finding{Key: "oov:key", Rule: "unknown words", Pos: w.posOf(in), Msg: fmt.Sprintf("ProvideOOV looks up definitions under %s; which categories it goes through could not be determined", key)})
				return
			}
			if n&(n-1) != 0 || n == 0 {
				r.add(Finding{Key: "oov:key", Rule: "unknown words", Pos: w.posOf(in), Msg: fmt.Sprintf("for a character of the categories %s, ProvideOOV looks up definitions under %d, which is no single category", name, n)})
			} else if n&have != n {
				r.add(Finding{Key: "oov:extra", Rule: "unknown words", Pos: w.posOf(in), Msg: fmt.Sprintf("for a character of the categories %s, ProvideOOV looks up the definitions of another category (%d)", name, n)})
			}
			s.data.(looked).keys[n] = true
		}
		n := 0
		k.cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
			if kind != aReturn {
				return
			}
			if k.nonNil(s, res[len(res)-1]) == 1 {
				return
			}
			n++
			for b := int64(1); b != 0 && b <= have; b <<= 1 {
				if have&b != 0 && !s.data.(looked).keys[b] {
					r.add(Finding{Key: "oov:" + fmt.Sprint(b), Rule: "unknown words", Pos: w.posOf(at), Msg: fmt.Sprintf("for a character of the categories %s, ProvideOOV can finish without having considered category bit %d", name, b), Path: k.trail(s)})
				}
			}
		}
		k.run(f, func(s *astate) { s.data = looked{map[int64]bool{}} })
		if k.gaveUp || n == 0 || !asked {
			r.add(Finding{Key: "oov:shape", Rule: "unknown words", Pos: pos, Msg: "which categories ProvideOOV goes through could not be determined"})
		}
		r.oblige("ProvideOOV for a character of the categories " + name)
		r.count("category sets given to the unknown-word generator", 1)
	}
	for i := 0; i < 16; i++ {
		try(1<<uint(i), categoryNames[i])
	}
	for i := 0; i < 16; i++ {
		j := (i + 1) % 16
		try(1<<uint(i)|1<<uint(j), categoryNames[i]+","+categoryNames[j])
	}
	// every category is filed under and looked up with the same key: no other
	// generator keeps tables of its own
}

func usesUint32Maps(w *World, f *ssa.Function) bool {
	for g := range w.reachable([]*ssa.Function{f}) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok {
					if m, ok := l.X.Type().Underlying().(*types.Map); ok && isUint32(m.Key()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// checkMasks: a category mask is compared with itself or with nothing.
func checkMasks(w *World, r *Report, owner map[int64]string) {
	get := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		for _, n := range []string{"GetCharCategoryTypes", "GetCharCategoryTypesRange", "GetCategoryTypes"} {
			if f.Name() == n {
				get[f] = true
			}
		}
	}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.BinOp)
				if !ok || c.Op != token.EQL && c.Op != token.NEQ || !isUint32(c.X.Type()) {
					continue
				}
				for _, p := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
					m, ok := p[0].(*ssa.BinOp)
					if !ok || m.Op != token.AND {
						continue
					}
					n, ok := constInt(p[1])
					if !ok {
						continue
					}
					for _, o := range [][2]ssa.Value{{m.X, m.Y}, {m.Y, m.X}} {
						q, ok := constInt(o[1])
						if !ok || owner[int64(q)] == "" {
							continue
						}
						cat := false
						w.trace(o[0], true, func(v ssa.Value) {
							if cl, ok := v.(*ssa.Call); ok && get[cl.Call.StaticCallee()] {
								cat = true
							}
							if u, ok := v.(*ssa.UnOp); ok && isUint32(u.Type()) {
								cat = true
							}
						})
						_ = cat
						r.oblige("category test at " + w.posOf(in))
						r.count("category tests", 1)
						if n != 0 && n != q {
							r.add(Finding{Key: "mask:" + w.fname(f), Rule: "category tests", Pos: w.posOf(in), Msg: fmt.Sprintf("%s tests the category bit %s against %d: the outcome never depends on the character", w.fname(f), owner[int64(q)], n)})
						}
					}
				}
			}
		}
	}
	r.floor("category tests", 5)
}
