package main

// C08: the writing side.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leafPath: how x is reached from the current element of the loop's list;
// "?" if it is not.
func (k *ai) leafPath(s *astate, x *T, root func(*T) bool) string {
	for x.op == "conv" && len(x.args) == 1 || x.op == "cast" {
		x = x.args[0]
	}
	if root(x) {
		return "@"
	}
	if x.op == "load" {
		if p := k.addrPath(s, x.args[0], root); p != "" {
			return p
		}
	}
	return ""
}

func (k *ai) addrPath(s *astate, a *T, root func(*T) bool) string {
	if root(a) {
		return "@"
	}
	switch a.op {
	case "fld":
		b := k.addrPath(s, a.args[0], root)
		if b == "" {
			b = k.leafPath(s, a.args[0], root)
		}
		if b == "" {
			return ""
		}
		return b + "." + a.s[strings.LastIndex(a.s, ".")+1:]
	case "idx":
		n, ok := a.args[1].intVal()
		if !ok {
			return ""
		}
		b := k.addrPath(s, a.args[0], root)
		if b == "" {
			b = k.leafPath(s, a.args[0], root)
		}
		if b == "" {
			return ""
		}
		return fmt.Sprintf("%s[%d]", b, n)
	}
	return ""
}

// elemRoot: the current element of the loop's list.
func elemRoot(k *ai, s *astate, lp *emLoop) func(*T) bool {
	return func(x *T) bool {
		if lp.l.list == nil {
			return false
		}
		if x.op == "load" {
			x = x.args[0]
		}
		return x.op == "idx" && x.args[0] == lp.l.list && k.equal(s, x.args[1], k.index(lp.l)) == 1
	}
}

// slots: which part of an entry goes where in its record.
type slots struct {
	path map[string]string
	norm []map[string]bool // what an empty string was written for
	enc  map[string]bool
}

func newSlots() *slots { return &slots{path: map[string]string{}, enc: map[string]bool{}} }

func (sl *slots) set(name, p string) bool {
	if p == "" || p == "@" {
		return false
	}
	if q, ok := sl.path[name]; ok {
		return q == p
	}
	for n, q := range sl.path {
		if q == p && n != name {
			return false
		}
	}
	sl.path[name] = p
	return true
}

type recordSpec struct {
	root func(k *ai, s *astate, lp *emLoop) func(*T) bool
	enc  func(s *astate, it emItem) bool
}

// recordPats: the fields of one word's record. root says what the entry is.
func (l *layout) recordPats(e *emitter, sl *slots, s *astate, lp *emLoop, spec recordSpec, late *[]func() *emMiss) []pat {
	k := e.k
	root := spec.root(k, s, lp)
	var surface *T
	str := func(name, what string, orEmpty bool) pat {
		return pat{what: what, kind: "string|str8|str16", ok: func(s *astate, it emItem) bool {
			if !spec.enc(s, it) {
				return false
			}
			if name == "surface" {
				surface = it.val
			}
			if v, ok := it.val.strVal(); ok && v == "" && orEmpty {
				// the same as the surface
				same := map[string]bool{}
				for t, v := range s.facts {
					if !v || t.op != "eq" {
						continue
					}
					for i := range t.args {
						if t.args[i] == surface {
							if p := k.leafPath(s, t.args[1-i], root); p != "" {
								same[p] = true
							}
						}
					}
				}
				at := e.w.posOf(it.at)
				*late = append(*late, func() *emMiss {
					if !same[sl.path[name]] {
						return &emMiss{at, fmt.Sprintf("writes an empty string for %s although it is not known to be the surface", what), s}
					}
					return nil
				})
				return true
			}
			return sl.set(name, k.leafPath(s, it.val, root))
		}}
	}
	num := func(name, what, kind string) pat {
		return pat{what: what, kind: kind, ok: func(s *astate, it emItem) bool {
			return sl.set(name, k.leafPath(s, it.val, root))
		}}
	}
	list := func(name, what string) pat {
		return pat{what: what, kind: "ints", ok: func(s *astate, it emItem) bool {
			v := it.val
			if v.op == "res" { // parsed from a column
				for _, a := range v.args {
					if p := k.leafPath(s, a, root); p != "" && p != "@" {
						return sl.set(name, p)
					}
				}
				return false
			}
			return sl.set(name, k.leafPath(s, v, root))
		}}
	}
	return []pat{
		str("surface", "the surface", false),
		num("headword", "the length of the trie key", "slen"),
		num("pos", "the part-of-speech id", "le2"),
		str("normalized", "the normalized form", true),
		num("dicform", "the dictionary-form word id", "le4"),
		str("reading", "the reading form", true),
		list("A", "the A units"),
		list("B", "the B units"),
		list("structure", "the word structure"),
	}
}

// public: the fields of WordInfo the record's fields come from.
var publicSlots = map[string]string{"surface": "Surface", "headword": "HeadwordLength", "pos": "PosId", "normalized": "NormalizedForm", "dicform": "DictionaryFormWordId", "reading": "ReadingForm"}

func (l *layout) checkPublic(sl *slots, who, at string, lists bool) {
	names := map[string]string{}
	for a, b := range publicSlots {
		names[a] = b
	}
	if lists {
		names["A"], names["B"], names["structure"] = "AUnitSplit", "BUnitSplit", "WordStructure"
	}
	var ks []string
	for a := range names {
		ks = append(ks, a)
	}
	sort.Strings(ks)
	for _, a := range ks {
		p := sl.path[a]
		if p[strings.LastIndex(p, ".")+1:] != names[a] {
			l.bad(nil, nil, "slot:"+who+":"+a, at, fmt.Sprintf("%s writes %s where %s belongs", who, p, names[a]))
		}
		l.count("fields of word records")
	}
}

func (l *layout) miss(e *emitter, who string, m *emMiss) {
	msg := who + " " + m.msg
	l.bad(e.k, m.s, "w:"+who+":"+m.msg, m.at, msg)
}

// follow: which functions a writer's interpretation goes into.
func (l *layout) follow(e *emitter, also func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool)) {
	rd := l.calls(e)
	dict := l.w.rel("dictionary")
	e.call = func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if also != nil {
			if res, ok, inl := also(s, c, callee, args); ok || !inl {
				return res, ok, inl
			}
		}
		if res, ok, inl := rd(s, c, callee, args); ok || !inl {
			return res, ok, inl
		}
		if callee != nil && callee.Pkg != nil {
			res := callee.Signature.Results()
			if callee.Pkg.Pkg.Path() != dict && e.w.inModule(callee) {
				return e.k.opaque(s, s.top(), c, callee, args), true, false
			}
			if e.w.inModule(callee) && res.Len() > 0 && isInt32s(res.At(0).Type()) && paramOf(callee, isStrT) != nil {
				return e.k.opaque(s, s.top(), c, callee, args), true, false
			}
		}
		return nil, false, true
	}
}

func isRes(t *T, f string) bool { return t.op == "res" && strings.Contains(t.s, f) }

// builderLexicon: WriteLexicon.
func (l *layout) builderLexicon() *slots {
	w := l.w
	dt := w.typ("dictionary", "DictionaryBuilder")
	f := w.must(w.method("dictionary", "DictionaryBuilder", "WriteLexicon"), "DictionaryBuilder.WriteLexicon")
	who := w.fname(f)
	l.r.oblige(who + " writes the lexicon as it is read")
	fPos := oneField(dt, "the position", func(t types.Type) bool { return isBasic(t, types.Int64) })
	fBuf := oneField(dt, "the buffer", func(t types.Type) bool { n := namedOf(t); return n != nil && n.Obj().Name() == "Buffer" })
	sl := newSlots()
	e := newEmitter(w, l.wr)
	var recv, out *T
	var built []*T
	l.follow(e, func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee != nil && callee.Name() == "Build" && callee.Pkg != nil && callee.Pkg.Pkg.Path() == w.rel("dartsclone") && len(args) == 4 {
			built = args
		}
		return nil, false, true
	})
	ok := e.run(f, func(k *ai) { k.unroll = true }, func(s *astate) {
		k := e.k
		built = nil
		recv = k.val(s, s.top(), f.Params[0])
		out = k.val(s, s.top(), f.Params[1])
		st := dt.Underlying().(*types.Struct)
		d := s.data.(*emState)
		d.g[out] = k.load(s, k.fld(recv, dt, fPos), st.Field(fPos).Type())
		d.g[k.load(s, k.fld(recv, dt, fBuf), st.Field(fBuf).Type())] = k.num(0)
	}, nil)
	if !ok {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return sl
	}
	k := e.k
	n := 0
	for _, x := range e.exits {
		if k.nonNil(x.s, x.res[0]) != -1 {
			continue
		}
		n++
		all := e.arrives(x.s.data.(*emState).ev)
		items := all[out]
		l.unflushed(e, x, who)
		for t, its := range all {
			if t != out && len(its) > 0 {
				l.miss(e, who, &emMiss{x.at, fmt.Sprintf("leaves %s in %s and does not write it out", its[0], shortT(t)), x.s})
			}
		}
		if len(items) != 10 {
			var at []string
			for _, it := range items {
				at = append(at, it.String())
			}
			l.miss(e, who, &emMiss{x.at, fmt.Sprintf("writes %d parts, not 10 (trie size and units, size and lists of the word-id table, word count and parameters, room for the offsets, records, a jump back and the offsets): %s", len(items), strings.Join(at, "; ")), x.s})
			continue
		}
		for i, it := range items {
			dbg("item", i, it, "pos", it.pos)
		}
		var late []func() *emMiss
		var entries *T
		toEntries := func(s *astate, lp *emLoop) bool {
			if lp.l.list == nil {
				return false
			}
			if entries == nil {
				entries = lp.l.list
			}
			return lp.l.list == entries && k.gone(s, &lp.l, entries)
		}
		builderEnc := func(s *astate, it emItem) bool {
			if it.kind != "string" || it.sel == nil {
				return false
			}
			p := k.leafPath(s, it.sel, func(t *T) bool { return t == recv })
			if p == "" || p == "@" {
				return false
			}
			sl.enc[p] = true
			return len(sl.enc) == 1
		}
		var records *emLoop
		off := map[int]*T{} // where the record of a round starts
		ps := []pat{
			{what: "the number of trie units", kind: "le4", ok: func(s *astate, it emItem) bool {
				v := unconv(it.val, 4)
				return isRes(v, "DoubleArray).Length") && built != nil && v.args[0] == built[0]
			}},
			{what: "the trie units", kind: "bytes", ok: func(s *astate, it emItem) bool {
				return isRes(it.val, "DoubleArray).ByteArray") && built != nil && it.val.args[0] == built[0]
			}},
			{what: "the size of the word-id table", kind: "le4", ok: func(s *astate, it emItem) bool {
				return k.lowSame(s, it.val, k.sub(items[4].pos, k.add(it.pos, k.num(4))), 4)
			}},
			{what: "the word-id lists", kind: "loop", body: func(s *astate, lp *emLoop) []pat {
				var ids *T
				return []pat{
					{what: "the number of words", kind: "le1", ok: func(s *astate, it emItem) bool {
						v := unconv(it.val, 1)
						if v.op != "len" {
							return false
						}
						ids = v.args[0]
						src := ids
						for src.op == "cast" || src.op == "assert" || src.op == "extract" || src.op == "conv" || src.op == "typeassert" {
							src = src.args[0]
						}
						// key and first position of the list go to the trie together
						good := false
						if built != nil {
							for a, pv := range s.mem {
								if a.op == "idx" && a.args[0] == built[2] && k.lowSame(s, pv, it.pos, 8) {
									key, okK := s.mem[k.idx(built[1], a.args[1], elemType(built[1].typ))]
									if okK && k.pairOf(key, ids) && lp.isList && k.equal(s, a.args[1], k.index(lp.l)) == 1 {
										good = true
									}
								}
							}
						}
						return good
					}},
					{what: "the words", kind: "loop", list: func(s *astate, lp *emLoop) bool {
						return lp.l.list == ids && k.gone(s, &lp.l, ids)
					}, body: func(s *astate, lp *emLoop) []pat {
						return []pat{{what: "a word id", kind: "le4", ok: func(s *astate, it emItem) bool { return isElem(k, s, it.val, lp, 4) }}}
					}},
				}
			}},
			{what: "the number of words", kind: "le4", ok: func(s *astate, it emItem) bool {
				v := unconv(it.val, 4)
				if v.op == "len" {
					entries = v.args[0]
				}
				return v.op == "len"
			}},
			{what: "the words' parameters", kind: "loop", list: toEntries, body: func(s *astate, lp *emLoop) []pat {
				par := func(name, what string) pat {
					return pat{what: what, kind: "le2", ok: func(s *astate, it emItem) bool {
						return sl.set(name, k.leafPath(s, it.val, elemRoot(k, s, lp)))
					}}
				}
				return []pat{par("left", "the left id"), par("right", "the right id"), par("cost", "the cost")}
			}},
			{what: "the room for the offsets", kind: "seekcur", ok: func(s *astate, it emItem) bool {
				return entries != nil && k.equal(s, it.val, k.mul(k.lenOf(s, entries), k.num(4), types.Typ[types.Int64])) == 1
			}},
			{what: "the words' records", kind: "loop", list: toEntries, body: func(s *astate, lp *emLoop) []pat {
				records = lp
				return l.recordPats(e, sl, s, lp, recordSpec{root: elemRoot, enc: builderEnc}, &late)
			}},
			{what: "a jump to the room for the offsets", kind: "seekset", ok: func(s *astate, it emItem) bool {
				return k.equal(s, it.val, items[6].pos) == 1
			}},
			{what: "the offsets", kind: "loop", body: func(s *astate, lp *emLoop) []pat {
				return []pat{{what: "the offset of the word's record", kind: "le4", ok: func(s *astate, it emItem) bool {
					if lp != records {
						return false
					}
					for j, b := range items[7].states {
						if b.s == s {
							its := items[7].bodies[j]
							if len(its) > 0 {
								off[j] = its[0].pos
								return k.lowSame(s, it.val, its[0].pos, 4)
							}
						}
					}
					return false
				}}}
			}},
		}
		if m := e.match(x.s, items, ps, x.at); m != nil {
			l.miss(e, who, m)
			continue
		}
		for _, fn := range late {
			if m := fn(); m != nil {
				l.miss(e, who, m)
			}
		}
		l.r.count("sections written", 10)
		l.checkPublic(sl, who, x.at, false)
	}
	if n == 0 {
		l.bad(nil, nil, "none", w.pos(f.Pos()), who+" never reports success")
	}
	return sl
}

// pairOf: key and ids come from the same place of the same table.
func (k *ai) pairOf(key, ids *T) bool {
	find := func(t *T, name string) *T {
		var r *T
		walkT(t, func(y *T) bool {
			if r == nil && isRes(y, "Iterator)."+name) {
				r = y
			}
			return true
		})
		return r
	}
	a, b := find(key, "Key"), find(ids, "Value")
	return a != nil && b != nil && len(a.args) > 0 && len(b.args) > 0 && a.args[0] == b.args[0]
}

func dbg(a ...any) {
	if os.Getenv("VP_DEBUG") != "" {
		fmt.Println(a...)
	}
}
