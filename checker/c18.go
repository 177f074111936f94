package main

// C18: Tokenize and Morpheme.Split split by the same rules.

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "abstract interpretation (each mode, and a mode different from all constants, through Tokenize and Split; loop induction on the pieces)", checkSplitModes)
}

type splLoop struct {
	listLoop
	fid int
}

type splState struct {
	outer, inner splLoop
	hasOuter     bool
	hasInner     bool
	inits        map[*T]*T
	made         *T // the piece made in this iteration of the inner loop
}

func (d *splState) clone() *splState {
	n := *d
	n.inits = map[*T]*T{}
	for a, b := range d.inits {
		n.inits[a] = b
	}
	return &n
}

func checkSplitModes(w *World, r *Report) {
	tok := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	lsplit := w.must(w.method("", "MorphemeList", "Split"), "MorphemeList.Split")
	msplit := w.must(w.method("", "Morpheme", "Split"), "Morpheme.Split")
	getWI := w.must(w.method("", "LatticeNode", "GetWordInfo"), "LatticeNode.GetWordInfo")
	setWI := w.must(w.method("dictionary", "LexiconSet", "GetWordInfo"), "LexiconSet.GetWordInfo")
	best := w.must(w.method("", "Lattice", "GetBestPath"), "Lattice.GetBestPath")
	nodeT := w.typ("", "LatticeNode")
	listT := w.typ("", "MorphemeList")
	winfo := w.typ("dictionary", "WordInfo")
	unitCls := map[string]string{"A": w.rel("dictionary") + ".WordInfo.AUnitSplit", "B": w.rel("dictionary") + ".WordInfo.BUnitSplit"}
	headCls := w.rel("dictionary") + ".WordInfo.HeadwordLength"
	fidx := func(t types.Type, name string) int {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		panic(fmt.Sprintf("%s has no field %s", t, name))
	}
	fBegin, fEnd, fWordId, fLex := fidx(nodeT, "Begin"), fidx(nodeT, "End"), fidx(nodeT, "wordId"), fidx(nodeT, "lexicon")

	// what may be inlined: the tokenizer's own code that has to do with
	// pieces, lists and nodes
	rec := func(f *ssa.Function) string {
		if f.Signature.Recv() == nil {
			return ""
		}
		if n := namedOf(f.Signature.Recv().Type()); n != nil {
			return n.Obj().Name()
		}
		return ""
	}
	isNodeT := func(t types.Type) bool {
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		n := namedOf(t)
		return n != nil && (n.Obj().Name() == "LatticeNode" || n.Obj().Name() == "MorphemeList" || n.Obj().Name() == "WordInfo")
	}
	heavy := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := c.Common().StaticCallee()
		return g != nil && (g.Name() == "Lookup" && rec(g) == "LexiconSet" || g == best)
	})
	only := map[*ssa.Function]bool{}
	reads := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath || f == best {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if c := fieldClass(fa.X.Type(), fa.Field); c == unitCls["A"] || c == unitCls["B"] {
						direct = true
						reads[f] = true
					}
				}
			}
		}
		ok := direct
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if isNodeT(t) && (!heavy[f] || direct) {
				ok = true
			}
			if sl, isS := t.Underlying().(*types.Slice); isS && types.Identical(sl.Elem(), types.Typ[types.Int32]) {
				ok = true
			}
		}
		if n := rec(f); n == "Morpheme" || n == "MorphemeList" || n == "LatticeNode" {
			ok = true
		}
		if ok {
			only[f] = true
		}
	}
	// and whoever calls such code in this package, up to Tokenize
	for ch := true; ch; {
		ch = false
		for _, f := range w.allFns {
			if reads[f] || f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && reads[c.Common().StaticCallee()] {
						reads[f], only[f], ch = true, true, true
					}
				}
			}
		}
	}
	r.Counts["functions that read unit lists"] = len(reads)

	type splRun struct {
		f    *ssa.Function
		mode string // "*": one that differs from every constant
	}
	run := func(p splRun) {
		name := p.mode
		if name == "*" {
			name = "any other"
		}
		splits := p.mode == "A" || p.mode == "B"
		who := w.fname(p.f) + " in mode " + name
		r.oblige(who)
		r.count("(function, mode) pairs", 1)
		seen := map[string]bool{}
		bad := func(k *ai, s *astate, key, at, msg string) {
			if seen[key+at] {
				return
			}
			seen[key+at] = true
			r.add(Finding{Key: key + ":" + w.fname(p.f) + ":" + name, Rule: "split modes", Pos: at, Msg: who + " " + msg, Path: k.trail(s)})
		}
		k := newAI(w, aclient{})
		k.keep = true
		k.only = only
		k.cl.clone = func(d any) any { return d.(*splState).clone() }
		k.cl.key = func(d any) string {
			x := d.(*splState)
			m := ""
			for _, a := range k.all {
				if b := x.inits[a]; b != nil {
					m += fmt.Sprintf("%d=%d,", a.id, b.id)
				}
			}
			return fmt.Sprint(x.outer, x.inner, x.hasOuter, x.hasInner, x.made, m)
		}
		strip := func(x *T) *T {
			for x.op == "conv" || x.op == "cast" {
				x = x.args[0]
			}
			return x
		}
		// node at the place the loop (or the index given to Split) stands
		isNode := func(s *astate, x *T) bool {
			d := s.data.(*splState)
			if x.op != "load" || x.args[0].op != "idx" {
				return false
			}
			a := x.args[0]
			if p.f == tok {
				return d.hasOuter && d.outer.list != nil && a.args[0] == d.outer.list && k.equal(s, a.args[1], k.index(d.outer.listLoop)) == 1
			}
			// l.path[index]
			l := a.args[0]
			if l.op != "load" || l.args[0].op != "fld" || !isNodeT(l.typ) {
				return false
			}
			own := l.args[0].args[0]
			if p.f == lsplit {
				return own == s.stack[0].env[p.f.Params[0]] && a.args[1] == s.stack[0].env[p.f.Params[2]]
			}
			m := s.stack[0].env[p.f.Params[0]]
			return own.op == "load" && own.args[0].op == "fld" && own.args[0].args[0] == m && a.args[1].op == "load" && a.args[1].args[0].op == "fld" && a.args[1].args[0].args[0] == m
		}
		// the word info of that node
		isInfo := func(s *astate, x *T) bool {
			switch {
			case x.op == "res" && x.s == "wordinfo":
				return isNode(s, x.args[0])
			case p.f == lsplit:
				return x.op == "sym" && x.typ != nil && namedOf(x.typ) == winfo && isOld(x)
			case p.f == msplit:
				return x.op == "load" && x.args[0].op == "fld" && x.args[0].args[0] == s.stack[0].env[p.f.Params[0]] && namedOf(x.typ) == winfo
			}
			return false
		}
		// the unit list of the mode
		isUnits := func(s *astate, x *T) bool {
			return x.op == "load" && splits && x.args[0].op == "fld" && x.args[0].s == unitCls[p.mode] && isInfo(s, x.args[0].args[0])
		}
		// what is known about the number of units: 1 two or more, -1 fewer
		many := func(s *astate) int {
			if !splits {
				return -1
			}
			res := 0
			for t := range s.bnd {
				walkT(t, func(y *T) bool {
					if y.op == "len" && isUnits(s, y.args[0]) {
						if g := k.rangeOf(s, y); g.lo >= 2 {
							res = 1
						} else if g.hi <= 1 {
							res = -1
						}
					}
					return true
				})
			}
			for t, v := range s.facts {
				if v && t.op == "eq" {
					for i := 0; i < 2; i++ {
						if t.args[1-i].op == "nil" && isUnits(s, t.args[i]) {
							res = -1
						}
					}
				}
			}
			return res
		}
		pieces, wholes := 0, 0
		whole := func(s *astate, at string) {
			wholes++
			if many(s) != -1 {
				bad(k, s, "whole", at, "can keep a word whole that is not known to have fewer than two units")
			}
		}
		var mks = map[*T]bool{} // lists filled by an inner loop, by index
		type use struct{ list *T }
		// pieceList: x is the list of the pieces of the node, all of them
		var pieceList func(s *astate, x, base *T) bool
		pieceList = func(s *astate, x, base *T) bool {
			d := s.data.(*splState)
			if !d.hasInner || d.inner.list == nil || !isUnits(s, d.inner.list) {
				return false
			}
			if !k.gone(s, &d.inner.listLoop, d.inner.list) {
				return false
			}
			if x.op == "mkslice" {
				return mks[x] && base == nil && k.equal(s, k.lenOf(s, x), k.lenOf(s, d.inner.list)) == 1
			}
			if x.op == "sym" && x.hdr == d.inner.h {
				i := d.inits[x]
				if i == nil {
					return false
				}
				if base != nil {
					return i == base
				}
				return k.nonNil(s, i) == -1 || k.rangeOf(s, k.lenOf(s, i)).hi == 0
			}
			return false
		}
		deferred := []func(){}
		piecesUsed := func(s *astate, at string, x, base *T) {
			ok := pieceList(s, x, base)
			if !ok && x.op == "mkslice" {
				// the loop that fills it may not have been seen yet
				s2 := s.clone(k)
				deferred = append(deferred, func() {
					if !pieceList(s2, x, base) {
						bad(k, s2, "pieces", at, "uses a list that is not known to be the pieces of the word, all of them")
					}
				})
			} else if !ok {
				bad(k, s, "pieces", at, fmt.Sprintf("uses %s, which is not known to be the pieces of the word, all of them", x))
			}
			if many(s) != 1 {
				bad(k, s, "split", at, "can split a word that is not known to have at least two units in the mode's list")
			}
		}
		single := func(s *astate, x *T) bool {
			if n, ok := k.lenOf(s, x).intVal(); !ok || n != 1 {
				return false
			}
			return isNode(s, k.elemAt(s, x, k.num(0)))
		}
		k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*splState)
			fr := s.top()
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pb := range h.Preds {
					if pb == fr.pred {
						d.inits[fr.env[phi]] = k.val(s, fr, phi.Edges[i])
					}
				}
			}
			if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int32]) }); ok {
				d.inner, d.hasInner, d.made = splLoop{l, fr.fid}, true, nil
				return
			}
			if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return namedOf(t) == nodeT }); ok && p.f == tok {
				// the loop over the path
				uses := false
				for b := range k.loop(h) {
					for _, in := range b.Instrs {
						if fa, ok := in.(*ssa.FieldAddr); ok {
							if c := fieldClass(fa.X.Type(), fa.Field); c == unitCls["A"] || c == unitCls["B"] {
								uses = true
							}
						}
						if c, ok := in.(ssa.CallInstruction); ok && reads[c.Common().StaticCallee()] {
							uses = true
						}
					}
				}
				if uses {
					d.outer, d.hasOuter, d.hasInner = splLoop{l, fr.fid}, true, false
				}
			}
		}
		newNode := func(s *astate, x *T) bool { return x.op == "alloc" && namedOf(x.typ) == nodeT }
		ld := func(s *astate, x *T, f int) *T {
			return k.load(s, k.fld(x, nodeT, f), nodeT.Underlying().(*types.Struct).Field(f).Type())
		}
		// one round of the inner loop made exactly one piece
		checkPiece := func(s *astate, at string, n *T) {
			d := s.data.(*splState)
			r.count("rounds making a piece", 1)
			if !newNode(s, n) {
				bad(k, s, "piece", at, fmt.Sprintf("adds %s, which is not a new node", n))
				return
			}
			id := ld(s, n, fWordId)
			okId := id.op == "load" && id.args[0].op == "idx" && id.args[0].args[0] == d.inner.list && k.equal(s, id.args[0].args[1], k.index(d.inner.listLoop)) == 1
			if !okId {
				bad(k, s, "id", at, fmt.Sprintf("gives a piece the word id %s, not that of the unit whose turn it is", id))
			}
			if lx := ld(s, n, fLex); lx.op != "load" || namedOf(lx.typ) == nil || namedOf(lx.typ).Obj().Name() != "LexiconSet" || k.nonNil(s, lx) == -1 {
				bad(k, s, "lexicon", at, "makes a piece that does not know its dictionary")
			}
			b, e := ld(s, n, fBegin), ld(s, n, fEnd)
			if b.op != "sym" || b.hdr != d.inner.h || d.inits[b] == nil {
				bad(k, s, "begin", at, fmt.Sprintf("lets a piece begin at %s", b))
				return
			}
			if i := d.inits[b]; i.op != "load" || i.args[0] != k.fld(i.args[0].args[0], nodeT, fBegin) || !isNode(s, i.args[0].args[0]) {
				bad(k, s, "start", at, fmt.Sprintf("lets the first piece begin at %s, not where the word begins", i))
			}
			hl := strip(k.sub(e, b))
			okLen := hl.op == "load" && hl.args[0].op == "fld" && hl.args[0].s == headCls
			if okLen {
				wi := hl.args[0].args[0]
				okLen = wi.op == "res" && wi.s == "wordinfo" && (wi.args[0] == n || wi.args[0] == id)
			}
			if !okLen {
				bad(k, s, "length", at, fmt.Sprintf("makes a piece as long as %s, not as its own headword", k.sub(e, b)))
			}
			// the next one begins where this one ends
			fr := s.top()
			for _, in := range d.inner.h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if fr.env[phi] != b {
					continue
				}
				for i, pb := range d.inner.h.Preds {
					if pb == fr.pred {
						if nx := k.val(s, fr, phi.Edges[i]); k.equal(s, nx, e) != 1 {
							bad(k, s, "chain", at, fmt.Sprintf("lets the next piece begin at %s, not where this one ends", nx))
						}
					}
				}
			}
		}
		next := func(s *astate, h *ssa.BasicBlock, phi *ssa.Phi) *T {
			fr := s.top()
			for i, pb := range h.Preds {
				if pb == fr.pred {
					return k.val(s, fr, phi.Edges[i])
				}
			}
			return nil
		}
		isNodeList := func(t types.Type) bool {
			sl, ok := t.Underlying().(*types.Slice)
			return ok && namedOf(sl.Elem()) == nodeT
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			d := s.data.(*splState)
			if d.hasInner && a.op == "idx" && a.args[0].op == "mkslice" && isNodeList(a.args[0].typ) {
				if k.equal(s, a.args[1], k.index(d.inner.listLoop)) == 1 && d.made == nil {
					d.made = k.mk(&T{op: "tuple", args: []*T{a.args[0], v}})
				} else {
					bad(k, s, "index", w.posOf(in), "puts a piece elsewhere than at its unit's place")
				}
			}
		}
		k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
			d := s.data.(*splState)
			at := w.pos(h.Parent().Pos())
			if d.hasInner && d.inner.h == h && d.inner.list != nil {
				ours := isUnits(s, d.inner.list)
				if !ours {
					bad(k, s, "list", at, fmt.Sprintf("makes pieces from %s, which is not the mode's unit list of the word", d.inner.list))
					return
				}
				if !k.stepsByOne(s, d.inner.listLoop) {
					bad(k, s, "step", at, "does not go on with the next unit")
				}
				n := 0
				if d.made != nil {
					n++
					mks[d.made.args[0]] = true
					checkPiece(s, at, d.made.args[1])
				}
				for _, in := range h.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if !isNodeList(phi.Type()) {
						continue
					}
					acc, nx := s.top().env[phi], next(s, h, phi)
					if nx.op == "append1" && nx.args[0] == acc && len(nx.args) == 2 {
						n++
						checkPiece(s, at, nx.args[1])
					} else if nx.op == "appendn" && nx.args[0] == acc {
						n++
						if c, ok := k.lenOf(s, nx.args[1]).intVal(); ok && c == 1 {
							checkPiece(s, at, k.elemAt(s, nx.args[1], k.num(0)))
						}
					} else if acc.op == "sym" && acc.hdr == h {
						bad(k, s, "lost", at, "can go on to the next unit without having added a piece")
					}
				}
				pieces++
				if n != 1 {
					bad(k, s, "lost", at, fmt.Sprintf("can go on to the next unit having added %d pieces", n))
				}
				return
			}
			if d.hasOuter && d.outer.h == h {
				r.count("rounds over the path", 1)
				if !k.stepsByOne(s, d.outer.listLoop) {
					bad(k, s, "step", at, "does not go on with the next word")
				}
				n := 0
				for _, in := range h.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					acc := s.top().env[phi]
					if !isNodeList(phi.Type()) || acc.op != "sym" || acc.hdr != h {
						continue
					}
					n++
					nx := next(s, h, phi)
					switch {
					case nx.op == "append1" && nx.args[0] == acc && len(nx.args) == 2 && isNode(s, nx.args[1]):
						whole(s, at)
					case nx.op == "appendn" && nx.args[0] == acc && single(s, nx.args[1]):
						whole(s, at)
					case nx.op == "appendn" && nx.args[0] == acc:
						piecesUsed(s, at, nx.args[1], nil)
					case nx.op == "sym":
						piecesUsed(s, at, nx, acc)
					default:
						bad(k, s, "word", at, fmt.Sprintf("goes on with %s: the word is neither kept nor replaced by its pieces", nx))
					}
				}
				if n != 1 {
					bad(k, s, "shape", at, "does not collect the words of the path in one list")
				}
			}
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			wi := func(x *T) []*T {
				return []*T{k.mk(&T{op: "res", s: "wordinfo", typ: types.NewPointer(winfo), args: []*T{x}})}
			}
			switch {
			case callee == setWI:
				return wi(args[1]), true, false
			case callee == getWI && !isAllocT(root(args[0])):
				return wi(args[0]), true, false
			}
			return nil, false, true
		}
		ends := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || len(res) > 1 && k.nonNil(s, res[1]) == 1 {
				return
			}
			ends++
			d := s.data.(*splState)
			pos := w.posOf(at)
			f := fidx(listT, "path")
			ft := listT.Underlying().(*types.Struct).Field(f).Type()
			x := k.load(s, k.fld(res[0], listT, f), ft)
			if p.f == tok {
				switch {
				case d.hasOuter && x.op == "sym" && x.hdr == d.outer.h:
					if d.outer.list == nil || !k.gone(s, &d.outer.listLoop, d.outer.list) {
						bad(k, s, "rest", pos, "can leave words of the path out")
					}
					if i := d.inits[x]; i == nil || k.nonNil(s, i) != -1 && k.rangeOf(s, k.lenOf(s, i)).hi != 0 {
						bad(k, s, "init", pos, "starts with a list that is not empty")
					}
				case x.op == "load" || x.op == "res":
					// the path itself
					wholes++
					if splits {
						bad(k, s, "unsplit", pos, "can return the path without having split it")
					}
				default:
					bad(k, s, "path", pos, fmt.Sprintf("returns %s, which is not known to be the path, split by the mode", x))
				}
				return
			}
			if single(s, x) {
				whole(s, pos)
			} else {
				piecesUsed(s, pos, x, nil)
			}
			// the rest of the list is as it was
			src := s.stack[0].env[p.f.Params[0]]
			if p.f == msplit {
				mt := src.typ.Underlying().(*types.Pointer).Elem()
				fi := fidx(mt, "list")
				src = k.load(s, k.fld(src, mt, fi), mt.Underlying().(*types.Struct).Field(fi).Type())
			}
			lst := listT.Underlying().(*types.Struct)
			for i := 0; i < lst.NumFields(); i++ {
				if i == f {
					continue
				}
				if a, b := k.load(s, k.fld(res[0], listT, i), lst.Field(i).Type()), k.load(s, k.fld(src, listT, i), lst.Field(i).Type()); a != b {
					bad(k, s, "field", pos, "returns a list with another "+lst.Field(i).Name()+" than the one it was taken from")
				}
			}
		}
		k.run(p.f, func(s *astate) {
			s.data = &splState{inits: map[*T]*T{}}
			n := 0
			for _, q := range p.f.Params {
				if isStringT(q.Type()) {
					n++
					if n == 1 {
						if p.mode == "*" {
							s.top().env[q] = k.other("mode")
						} else {
							s.top().env[q] = k.str(p.mode)
						}
					} else {
						k.bound(s, k.lenOf(s, k.val(s, s.top(), q)), ival{lo: 1, hi: 1 << 40})
					}
				} else {
					k.val(s, s.top(), q)
				}
			}
		})
		for _, f := range deferred {
			f()
		}
		if k.gaveUp || ends == 0 || wholes == 0 || splits && pieces == 0 {
			r.add(Finding{Key: "shape:" + w.fname(p.f) + ":" + name, Rule: "split modes", Pos: w.pos(p.f.Pos()), Msg: fmt.Sprintf("%s was not recognised as keeping some words and splitting others (%d kept, %d pieces, %d ends)", who, wholes, pieces, ends)})
		}
	}
	// the strings a mode is compared with, "C", the empty string, and one
	// that differs from every constant
	modes := []string{"A", "B", "*", "C", ""}
	haveMode := map[string]bool{"A": true, "B": true, "*": true, "C": true, "": true}
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.modpath || !(reads[f] || only[f] || f == tok || f == lsplit || f == msplit) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && len(modes) < 12 {
						if v := constant.StringVal(c.Value); !haveMode[v] && len(v) < 8 {
							haveMode[v] = true
							modes = append(modes, v)
						}
					}
				}
			}
		}
	}
	for _, f := range []*ssa.Function{tok, lsplit, msplit} {
		for _, m := range modes {
			run(splRun{f, m})
		}
	}

	// a morpheme's cached word info is its own
	for _, st := range w.index().fst[w.modpath+".Morpheme.wordInfo"] {
		r.oblige("word info kept by a morpheme at " + w.posOf(st))
		f := st.Parent()
		k := newAI(w, aclient{})
		k.only = only
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			if callee == getWI {
				return []*T{k.mk(&T{op: "res", s: "wordinfo", typ: types.NewPointer(winfo), args: []*T{args[0]}})}, true, false
			}
			return nil, false, true
		}
		k.cl.store = func(k *ai, s *astate, a, v *T, in ssa.Instruction) {
			if a.op != "fld" || a.s != w.modpath+".Morpheme.wordInfo" || isAllocT(root(a)) && v.op == "nil" {
				return
			}
			m := a.args[0]
			ok := false
			if v.op == "res" && v.s == "wordinfo" && v.args[0].op == "load" && v.args[0].args[0].op == "idx" {
				x := v.args[0].args[0]
				l, i := x.args[0], x.args[1]
				ok = l.op == "load" && l.args[0].op == "fld" && l.args[0].args[0].op == "load" && l.args[0].args[0].args[0].op == "fld" && l.args[0].args[0].args[0].args[0] == m &&
					i.op == "load" && i.args[0].op == "fld" && i.args[0].args[0] == m
			}
			if !ok {
				r.add(Finding{Key: "cached:" + w.fname(f), Rule: "split modes", Pos: w.posOf(in), Msg: fmt.Sprintf("%s keeps %s as a morpheme's word info, which is not that of its own node", w.fname(f), v), Path: k.trail(s)})
			}
		}
		k.run(f, nil)
	}
	r.floor("(function, mode) pairs", 9)
	r.floor("rounds making a piece", 6)
	r.floor("rounds over the path", 2)
}
