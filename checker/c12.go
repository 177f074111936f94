package main

// C12: only dictionaries of the right kind are accepted.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "abstract interpretation (the header's version bound to each known and to an unknown value) of every function that opens a dictionary", checkKinds)
}

func checkKinds(w *World, r *Report) {
	dic := w.spkg[w.rel("dictionary")]
	if dic == nil {
		panic("package dictionary not found")
	}
	type ver struct {
		name string
		val  constant.Value // nil: any other
	}
	vers := []ver{}
	seen := map[string]string{}
	for _, n := range []string{"SystemDictVersion", "UserDictVersion", "UserDictVersion2"} {
		c, ok := dic.Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			panic("constant dictionary." + n + " not found")
		}
		r.oblige("version constant " + n)
		if o := seen[c.Val().ExactString()]; o != "" {
			r.add(Finding{Key: "version:" + n, Rule: "dictionary versions", Pos: w.pos(c.Pos()), Msg: n + " and " + o + " are the same version"})
		}
		seen[c.Val().ExactString()] = n
		vers = append(vers, ver{n, constant.ToInt(c.Val())})
	}
	vers = append(vers, ver{"any other version", nil})
	hs, ok := dic.Pkg.Scope().Lookup("HeaderStorageSize").(*types.Const)
	if !ok {
		panic("constant dictionary.HeaderStorageSize not found")
	}
	hsize, _ := constant.Int64Val(constant.ToInt(hs.Val()))

	parse := w.must(w.pkgFunc("dictionary", "ParseDictionaryHeader"), "dictionary.ParseDictionaryHeader")
	newGrammar := w.must(w.pkgFunc("dictionary", "NewGrammar"), "dictionary.NewGrammar")
	newLexicon := w.must(w.pkgFunc("dictionary", "NewDoubleArrayLexicon"), "dictionary.NewDoubleArrayLexicon")
	isUser := w.must(w.pkgFunc("dictionary", "IsUserDictionary"), "dictionary.IsUserDictionary")
	header := w.typ("dictionary", "DictionaryHeader")
	bindict := w.typ("dictionary", "BinaryDictionary")
	mm := w.must(w.pkgFunc("internal/mmap", "Mmap"), "mmap.Mmap")
	verClass := w.rel("dictionary") + ".DictionaryHeader.Version"

	opens := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == parse
	})
	only := map[*ssa.Function]bool{parse: true}
	for _, f := range w.allFns {
		if opens[f] {
			only[f] = true
		}
		if f.Pkg == dic && f != newGrammar && f != newLexicon {
			for _, p := range f.Params {
				t := p.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
					only[f] = true
				}
				if t == types.Type(header) || t == types.Type(bindict) {
					only[f] = true
				}
			}
		}
	}

	type st struct {
		grammars, lexicons int
		mapped, size       *T
		gterm, goff, loff  *T
	}
	// run f with the version bound; every successful return is handed to ok
	run := func(f *ssa.Function, v ver, success func(k *ai, s *astate, d *st, res []*T, at string)) *ai {
		k := newAI(w, aclient{})
		k.keep = true
		k.unroll = true
		k.only = only
		k.loadInits("dictionary")
		var vt *T
		if v.val != nil {
			vt = k.cst(v.val, types.Typ[types.Uint64])
		} else {
			vt = k.other("version")
		}
		k.cl.clone = func(d any) any { n := *d.(*st); return &n }
		k.cl.key = func(d any) string { return fmt.Sprint(*d.(*st)) }
		k.cl.load = func(k *ai, s *astate, a *T, in ssa.Instruction) *T {
			if a.op == "fld" && class(a) == verClass {
				return vt
			}
			return nil
		}
		k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
			d := s.data.(*st)
			switch callee {
			case mm:
				d.size = args[len(args)-1]
				d.mapped = k.sym("mapped@"+s.top().here(), c.Common().Signature().Results().At(0).Type())
				return []*T{d.mapped, k.sym("maperr@"+s.top().here(), c.Common().Signature().Results().At(1).Type())}, true, false
			case newGrammar:
				d.grammars++
				d.gterm = k.mk(&T{op: "alloc", s: "grammar@" + s.top().here(), typ: newGrammar.Signature.Results().At(0).Type()})
				d.goff = args[1]
				return []*T{d.gterm}, true, false
			case newLexicon:
				d.lexicons++
				d.loff = args[1]
				return []*T{k.mk(&T{op: "alloc", s: "lexicon@" + s.top().here(), typ: newLexicon.Signature.Results().At(0).Type()})}, true, false
			}
			return nil, false, true
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how == aReturn && k.nonNil(s, res[len(res)-1]) != 1 {
				success(k, s, s.data.(*st), res, w.posOf(at))
			}
		}
		k.run(f, func(s *astate) { s.data = &st{} })
		if k.gaveUp {
			r.add(Finding{Key: "gaveup:" + w.fname(f), Rule: "dictionary kinds", Pos: w.pos(f.Pos()), Msg: "the outcomes of " + w.fname(f) + " could not be determined"})
		}
		return k
	}

	accept := map[string]map[string]bool{
		"system": {"SystemDictVersion": true},
		"user":   {"UserDictVersion": true, "UserDictVersion2": true},
		"any":    {"SystemDictVersion": true, "UserDictVersion": true, "UserDictVersion2": true},
	}
	hasGrammar := map[string]bool{"SystemDictVersion": true, "UserDictVersion2": true}

	check := func(f *ssa.Function, kind string, sections bool) {
		for _, v := range vers {
			r.oblige(w.fname(f) + " on " + v.name)
			r.count("(opener, version) outcomes", 1)
			n := 0
			bad := func(key, at, msg string, k *ai, s *astate) {
				r.add(Finding{Key: key + ":" + w.fname(f) + ":" + v.name, Rule: "dictionary kinds", Pos: at, Msg: w.fname(f) + " " + msg, Path: k.trail(s)})
			}
			run(f, v, func(k *ai, s *astate, d *st, res []*T, at string) {
				n++
				if !accept[kind][v.name] {
					bad("accepts", at, "can succeed on a dictionary of "+v.name, k, s)
					return
				}
				if d.mapped == nil {
					bad("unread", at, "can succeed without having mapped the file", k, s)
					return
				}
				if k.rangeOf(s, k.lenOf(s, d.mapped)).lo < hsize && k.rangeOf(s, d.size).lo < hsize {
					bad("short", at, fmt.Sprintf("can succeed on a file shorter than the %d bytes of a header", hsize), k, s)
				}
				if !sections {
					return
				}
				want := 0
				if hasGrammar[v.name] {
					want = 1
				}
				if d.grammars != want {
					bad("grammar", at, fmt.Sprintf("reads %d grammar sections of a dictionary of %s", d.grammars, v.name), k, s)
					return
				}
				if d.lexicons != 1 {
					bad("lexicon", at, fmt.Sprintf("reads %d lexicon sections", d.lexicons), k, s)
					return
				}
				off := k.num(hsize)
				if want == 1 {
					if k.equal(s, d.goff, off) != 1 {
						bad("goff", at, fmt.Sprintf("reads the grammar at %s, not behind the header", d.goff), k, s)
					}
					gt := d.gterm.typ.(*types.Pointer).Elem()
					gs := gt.Underlying().(*types.Struct)
					for i := 0; i < gs.NumFields(); i++ {
						if gs.Field(i).Name() == "StorageSize" {
							off = k.add(off, k.load(s, k.fld(d.gterm, gt, i), gs.Field(i).Type()))
						}
					}
				}
				if k.equal(s, d.loff, off) != 1 {
					bad("loff", at, fmt.Sprintf("reads the lexicon at %s, not at %s", d.loff, off), k, s)
				}
				// what is handed out
				if pt, ok := res[0].typOr().(*types.Pointer); ok && pt.Elem() == types.Type(bindict) || res[0].op == "alloc" {
					bt := types.Type(bindict)
					bs := bt.Underlying().(*types.Struct)
					for i := 0; i < bs.NumFields(); i++ {
						if bs.Field(i).Name() == "Grammar" {
							g := k.load(s, k.fld(res[0], bt, i), bs.Field(i).Type())
							if want == 1 && g != d.gterm || want == 0 && k.nonNil(s, g) != -1 {
								bad("handed", at, fmt.Sprintf("hands out a dictionary of %s with the grammar %s", v.name, g), k, s)
							}
						}
					}
				}
			})
			if n == 0 && accept[kind][v.name] {
				r.add(Finding{Key: "refuses:" + w.fname(f) + ":" + v.name, Rule: "dictionary kinds", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " never succeeds on a dictionary of " + v.name})
			}
		}
	}
	check(w.must(w.pkgFunc("dictionary", "NewBinaryDictionary"), "dictionary.NewBinaryDictionary"), "any", true)
	check(w.must(w.pkgFunc("dictionary", "ReadSystemDictionary"), "dictionary.ReadSystemDictionary"), "system", true)
	check(w.must(w.pkgFunc("dictionary", "ReadUserDictionary"), "dictionary.ReadUserDictionary"), "user", true)
	check(w.must(w.pkgFunc("dictionary", "PrintDictionary"), "dictionary.PrintDictionary"), "any", false)
	check(w.must(w.pkgFunc("dictionary", "PrintHeader"), "dictionary.PrintHeader"), "any", false)
	check(w.must(w.method("", "JapaneseDictionary", "ReadSystemDictionary"), "JapaneseDictionary.ReadSystemDictionary"), "system", false)
	check(w.must(w.method("", "JapaneseDictionary", "ReadUserDictionary"), "JapaneseDictionary.ReadUserDictionary"), "user", false)

	// the version predicate
	for _, v := range vers {
		r.oblige("IsUserDictionary(" + v.name + ")")
		k := newAI(w, aclient{})
		k.unroll = true
		k.loadInits("dictionary")
		n := 0
		want := 1
		if !accept["user"][v.name] {
			want = -1
		}
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			n++
			if how != aReturn || k.truth(s, res[0]) != want {
				r.add(Finding{Key: "isuser:" + v.name, Rule: "dictionary kinds", Pos: w.posOf(at), Msg: "IsUserDictionary answers wrongly for " + v.name})
			}
		}
		k.run(isUser, func(s *astate) {
			if v.val != nil {
				s.top().env[isUser.Params[0]] = k.cst(v.val, types.Typ[types.Uint64])
			} else {
				s.top().env[isUser.Params[0]] = k.other("version")
			}
		})
		if n == 0 || k.gaveUp {
			r.add(Finding{Key: "isuser:" + v.name, Rule: "dictionary kinds", Pos: w.pos(isUser.Pos()), Msg: "what IsUserDictionary answers could not be determined"})
		}
	}

	// the header parser itself
	{
		k := newAI(w, aclient{})
		n := 0
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn || k.nonNil(s, res[0]) == -1 {
				return
			}
			n++
			r.oblige("ParseDictionaryHeader return at " + w.posOf(at))
			in, off := s.top().env[parse.Params[0]], s.top().env[parse.Params[1]]
			if k.rangeOf(s, k.sub(k.lenOf(s, in), off)).lo < hsize {
				r.add(Finding{Key: "parse:short", Rule: "short files", Pos: w.posOf(at), Msg: fmt.Sprintf("ParseDictionaryHeader can hand out a header although fewer than %d bytes are there", hsize), Path: k.trail(s)})
			}
		}
		k.run(parse, nil)
		if n == 0 || k.gaveUp {
			r.add(Finding{Key: "parse:shape", Rule: "short files", Pos: w.pos(parse.Pos()), Msg: "ParseDictionaryHeader was not recognised"})
		}
	}

	// whoever needs a system dictionary opens one
	readSys := w.pkgFunc("dictionary", "ReadSystemDictionary")
	for _, need := range []struct {
		pkg, fn string
		arg     int
	}{{"dictionary", "NewPosTableUser", 0}, {"dictionary", "PrintDictionary", 2}} {
		f := w.must(w.pkgFunc(need.pkg, need.fn), need.fn)
		for _, c := range w.index().args[f] {
			if !strings.HasPrefix(c.Parent().Pkg.Pkg.Path(), w.modpath) || need.arg >= len(c.Common().Args) {
				continue
			}
			r.oblige("system dictionary handed to " + need.fn + " at " + w.posOf(c))
			r.count("system dictionaries used by commands", 1)
			found := 0
			seen := map[ssa.Value]bool{}
			var from func(v ssa.Value)
			from = func(v ssa.Value) {
				if v == nil || seen[v] {
					return
				}
				seen[v] = true
				switch v := v.(type) {
				case *ssa.Phi:
					for _, e := range v.Edges {
						from(e)
					}
				case *ssa.Extract:
					from(v.Tuple)
				case *ssa.MakeInterface:
					from(v.X)
				case *ssa.ChangeInterface:
					from(v.X)
				case *ssa.UnOp:
					switch a := v.X.(type) {
					case *ssa.FieldAddr:
						if p, ok := a.X.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), bindict) {
							from(a.X)
						}
					case *ssa.Alloc:
						for _, in := range *a.Referrers() {
							if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
								from(st.Val)
							}
						}
					}
				case *ssa.Parameter:
					for i, p := range v.Parent().Params {
						if p == v {
							for _, c := range w.index().args[v.Parent()] {
								if i < len(c.Common().Args) {
									from(c.Common().Args[i])
								}
							}
						}
					}
				case *ssa.Call:
					g := v.Call.StaticCallee()
					if g == nil || !opens[g] || !returnsDict(g, types.Type(bindict)) {
						return
					}
					found++
					if g == readSys {
						return
					}
					if g.Pkg == dic {
						r.add(Finding{Key: "needs:" + need.fn + ":" + w.fname(c.Parent()), Rule: "dictionary kinds", Pos: w.posOf(v), Msg: w.fname(c.Parent()) + " hands " + need.fn + " a dictionary that was not opened as a system dictionary"})
						return
					}
					for _, b := range g.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							from(ret.Results[0])
						}
					}
				}
			}
			from(c.Common().Args[need.arg])
			if found == 0 {
				r.add(Finding{Key: "needs:" + need.fn + ":" + w.fname(c.Parent()), Rule: "dictionary kinds", Pos: w.posOf(c), Msg: "where the system dictionary handed to " + need.fn + " comes from could not be determined"})
			}
		}
	}
	r.floor("system dictionaries used by commands", 2)
}

func returnsDict(f *ssa.Function, t types.Type) bool {
	if f.Signature.Results().Len() == 0 {
		return false
	}
	p, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
	return ok && p.Elem() == t
}

func (t *T) typOr() types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}
