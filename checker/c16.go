package main

// C16: settings keys are independent of each other.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "abstract interpretation of the settings parser: on every path, each setting's final value as a term over the document's keys and the previous value", checkSettings)
}

// the keys of a settings document
var settingsKeys = []string{"path", "systemDict", "characterDefinitionFile", "utf16String", "userDict", "inputTextPlugin", "oovProviderPlugin", "pathRewritePlugin", "editConnectionCostPlugin"}

// A setting is where the value of a key is kept: a field of the settings, or
// of a struct embedded in them.
type setting struct {
	key   string
	field []int // path of field indices
	typ   types.Type
	class string
}

func isDecode(callee *ssa.Function) bool {
	return callee != nil && (callee.String() == "encoding/json.Unmarshal" || callee.String() == "(*encoding/json.Decoder).Decode")
}

func checkSettings(w *World, r *Report) {
	n := w.typ("", "SettingsJSON")
	st := n.Underlying().(*types.Struct)
	var all []setting
	var collect func(owner *types.Named, st *types.Struct, at []int)
	collect = func(owner *types.Named, st *types.Struct, at []int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			p := append(append([]int{}, at...), i)
			if sub, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
				collect(namedOf(f.Type()), sub, p)
				continue
			}
			all = append(all, setting{field: p, typ: f.Type(), class: fmt.Sprintf("%s.%s", owner.String(), f.Name())})
		}
	}
	collect(n, st, nil)
	// which setting belongs to which key: the exported ones by name, the
	// plugin lists by who hands them out, the path by its type
	byKey := map[string]*setting{}
	for i := range all {
		s := &all[i]
		name := s.class[strings.LastIndex(s.class, ".")+1:]
		for _, key := range settingsKeys[1:5] {
			if strings.EqualFold(key, name) {
				byKey[key] = s
			}
		}
	}
	var strs []*setting
	for i := range all {
		s := &all[i]
		if isStringT(s.typ) && len(s.field) == 1 {
			strs = append(strs, s)
			if byKey["path"] == nil || strings.EqualFold(s.class[strings.LastIndex(s.class, ".")+1:], "path") {
				byKey["path"] = s
			}
		}
	}
	isList := func(s *setting) bool {
		_, ok := s.typ.Underlying().(*types.Slice)
		return ok && len(s.field) == 1
	}
	for _, f := range w.allFns {
		if f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != n || !isExportedAPI(f) {
			continue
		}
		for _, key := range settingsKeys[5:] {
			if !strings.EqualFold(f.Name(), "get"+key+"array") {
				continue
			}
			// the lists this method can look at
			r.oblige("lists handed out by " + w.fname(f))
			read := map[*setting]ssa.Instruction{}
			for g := range w.reachable([]*ssa.Function{f}) {
				if !w.inModule(g) {
					continue
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						fa, ok := in.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						for i := range all {
							if isList(&all[i]) && fieldClass(fa.X.Type(), fa.Field) == all[i].class {
								read[&all[i]] = in
							}
						}
					}
				}
			}
			for s, in := range read {
				if byKey[key] == nil || len(read) == 1 {
					byKey[key] = s
				}
				_ = in
			}
			if len(read) != 1 {
				var names []string
				for s := range read {
					names = append(names, s.class[strings.LastIndex(s.class, ".")+1:])
				}
				sort.Strings(names)
				r.add(Finding{Key: "handout:" + w.fname(f), Rule: "plugin lists", Pos: w.pos(f.Pos()), Msg: fmt.Sprintf("%s must hand out the plugins of one list, but looks at %d: %s", w.fname(f), len(read), strings.Join(names, ", "))})
			}
		}
	}
	used := map[*setting]string{}
	for _, key := range settingsKeys {
		s := byKey[key]
		if s == nil {
			r.add(Finding{Key: "nosetting:" + key, Rule: "settings", Pos: w.pos(n.Obj().Pos()), Msg: "the settings keep nothing for the key " + key})
			continue
		}
		if other, ok := used[s]; ok {
			r.add(Finding{Key: "shared:" + key, Rule: "settings", Pos: w.pos(n.Obj().Pos()), Msg: fmt.Sprintf("the keys %s and %s share one setting, %s", other, key, s.class)})
		}
		used[s] = key
		s.key = key
	}
	// the functions that parse a document into settings
	parses := 0
	parser := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		if !isExportedAPI(f) || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != n {
			continue
		}
		stores := false
		reach := w.reachable([]*ssa.Function{f})
		for g := range reach {
			if !w.inModule(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							for i := range all {
								if fieldClass(fa.X.Type(), fa.Field) == all[i].class {
									stores = true
								}
							}
						}
					}
				}
			}
		}
		if stores {
			parses++
			for g := range reach {
				parser[g] = true
			}
			checkSettingsParser(w, r, f, n, all, byKey)
		}
	}
	r.count("functions that parse a settings document", parses)
	r.floor("functions that parse a settings document", 1)
	// nothing else in the library writes settings
	for i := range all {
		for _, x := range w.index().fst[all[i].class] {
			f := x.Parent()
			if parser[f] || f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
				continue
			}
			if _, fresh := addrBase(x.Addr).(*ssa.Alloc); fresh {
				continue
			}
			r.add(Finding{Key: "writer:" + w.fname(f), Rule: "settings", Pos: w.posOf(x), Msg: fmt.Sprintf("%s changes the setting %s although it does not read a document", w.fname(f), all[i].class)})
		}
	}
	// commands that merge documents
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "main" {
			continue
		}
		calls, stores := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && parser[c.Common().StaticCallee()] && c.Common().StaticCallee().Signature.Recv() != nil && namedOf(c.Common().StaticCallee().Signature.Recv().Type()) == n {
					calls = true
				}
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						for i := range all {
							stores = stores || fieldClass(fa.X.Type(), fa.Field) == all[i].class
						}
					}
				}
			}
		}
		if calls || stores {
			r.oblige("settings of " + w.fname(f))
			checkSettingsCommand(w, r, f, n, all, parser)
		}
	}
	// the settings handed out are the ones parsed
	if f := w.method("", "SettingsJSON", "GetBaseConfig"); f != nil {
		r.oblige("what " + w.fname(f) + " hands out")
		k := newAI(w, aclient{})
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				return
			}
			p := s.top().env[f.Params[0]]
			ok := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && res[0] == k.fld(p, n, i) {
					ok = true
				}
			}
			if !ok {
				r.add(Finding{Key: "base:" + w.fname(f), Rule: "settings", Pos: w.posOf(at), Msg: w.fname(f) + " hands out another configuration than the one the documents were parsed into"})
			}
		}
		k.run(f, nil)
	}
}

// checkSettingsCommand: a command parses its documents into one object,
// resolves them against one directory, hands out that object, and overrides a
// setting only on request.
func checkSettingsCommand(w *World, r *Report, f *ssa.Function, n *types.Named, all []setting, parser map[*ssa.Function]bool) {
	type cmd struct{ recv, dir *T }
	who := w.fname(f)
	k := newAI(w, aclient{})
	k.keep = true
	k.only = map[*ssa.Function]bool{}
	k.cl.clone = func(d any) any { x := *d.(*cmd); return &x }
	k.cl.key = func(d any) string { return fmt.Sprint(*d.(*cmd)) }
	bad := func(s *astate, key, at, msg string) {
		r.add(Finding{Key: "command:" + who + ":" + key, Rule: "settings of commands", Pos: at, Msg: who + " " + msg, Path: k.trail(s)})
	}
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*cmd)
		if callee == nil || !parser[callee] || callee.Signature.Recv() == nil || namedOf(callee.Signature.Recv().Type()) != n {
			return nil, false, true
		}
		r.count("documents parsed by commands", 1)
		if d.recv != nil && d.recv != args[0] {
			bad(s, "object", w.posOf(c), "parses documents into different settings")
		}
		d.recv = args[0]
		for i, p := range callee.Params {
			if i > 0 && isStringT(p.Type()) {
				if d.dir != nil && d.dir != args[i] {
					bad(s, "dir", w.posOf(c), "resolves documents against different directories")
				}
				d.dir = args[i]
				if args[i].op == "const" {
					bad(s, "dir", w.posOf(c), "resolves a document against a fixed directory")
				}
			}
		}
		return nil, false, false
	}
	k.cl.store = func(k *ai, s *astate, a, val *T, in ssa.Instruction) {
		if a.op != "fld" {
			return
		}
		for i := range all {
			if a.s == all[i].class && k.truth(s, val) != 1 {
				bad(s, "override", w.posOf(in), "overrides "+a.s[strings.LastIndex(a.s, "/")+1:]+" even if it was not asked to")
			}
		}
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		d := s.data.(*cmd)
		if how != aReturn || d.recv == nil {
			return
		}
		if rs := f.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) && k.nonNil(s, res[len(res)-1]) == 1 {
			return
		}
		for _, x := range res {
			if x.typ != nil && isErrorType(x.typ) || x.op == "nil" {
				continue
			}
			if x.op == "iface" {
				x = x.args[0]
			}
			if namedOf(x.typ) == n && x != d.recv {
				bad(s, "handout", w.posOf(at), "hands out other settings than it parsed")
			}
		}
	}
	k.run(f, func(s *astate) { s.data = &cmd{} })
	if k.gaveUp {
		r.add(Finding{Key: "command:" + who + ":steps", Rule: "settings of commands", Pos: w.pos(f.Pos()), Msg: who + " has more paths than are followed"})
	}
}

type setLoop struct {
	l     listLoop
	acc   map[*T]*T // accumulators: value at the head -> value before the loop
	depth int
	elem  *T   // the current element
	over  bool // over the document's user dictionaries
}

type setData struct {
	doc   *T // the struct the document was decoded into
	cur   *T // the list of user dictionaries
	loops []setLoop
}

func checkSettingsParser(w *World, r *Report, f *ssa.Function, n *types.Named, all []setting, byKey map[string]*setting) {
	who := w.fname(f)
	bad := func(s *astate, k *ai, key, at, msg string) {
		r.add(Finding{Key: "parse:" + who + ":" + key, Rule: "settings keys", Pos: at, Msg: who + " " + msg, Path: k.trail(s)})
	}
	k := newAI(w, aclient{})
	k.keep = true
	k.cl.clone = func(d any) any {
		x := *d.(*setData)
		x.loops = append([]setLoop{}, x.loops...)
		return &x
	}
	k.cl.key = func(d any) string {
		x := d.(*setData)
		key := fmt.Sprint(x.doc, x.cur)
		for _, l := range x.loops {
			key += fmt.Sprint(";", l.l.h.Index, l.depth)
		}
		return key
	}
	var self *T
	addr := func(s *setting) *T {
		a := self
		var t types.Type = n
		for _, i := range s.field {
			a = k.fld(a, t, i)
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		return a
	}
	value := func(s *astate, x *setting) *T { return k.load(s, addr(x), x.typ) }
	initial := map[string]*T{}
	docStruct := func(d *T) *types.Struct {
		return d.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	}
	// the document's value for key: whether it is known to be there, and the value
	keyOf := func(s *astate, key string) (present int, v *T) {
		d := s.data.(*setData)
		if d.doc == nil {
			return 0, nil
		}
		ts := docStruct(d.doc)
		name := jsonField(ts, key)
		for i := 0; i < ts.NumFields(); i++ {
			if ts.Field(i).Name() == name && name != "" {
				p := k.load(s, k.fld(d.doc, d.doc.typ.Underlying().(*types.Pointer).Elem(), i), ts.Field(i).Type())
				switch t := ts.Field(i).Type().Underlying().(type) {
				case *types.Pointer:
					return k.nonNil(s, p), k.load(s, p, t.Elem())
				case *types.Slice:
					// null and an absent key leave the list nil
					return k.nonNil(s, p), p
				}
				return 0, p
			}
		}
		return 0, nil
	}
	decodes, ends := 0, 0
	reported := map[string]bool{}
	k.model = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
		if callee != nil && (callee.String() == "path/filepath.Join" || callee.String() == "path.Join") {
			if n, ok := k.lenOf(s, args[0]).intVal(); ok && n == 2 {
				return []*T{k.mk(&T{op: "res", s: "join", typ: callee.Signature.Results().At(0).Type(), args: []*T{k.elemAt(s, args[0], k.num(0)), k.elemAt(s, args[0], k.num(1))}})}, true
			}
		}
		if !isDecode(callee) {
			return nil, false
		}
		d := s.data.(*setData)
		dst := args[1]
		if dst.op == "iface" {
			dst = dst.args[0]
		}
		p, ok := dst.typ.Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		ts, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		decodes++
		r.oblige("document decoded at " + w.posOf(c))
		if d.doc != nil {
			bad(s, k, "twice", w.posOf(c), "decodes a second value")
		}
		if !isAllocT(root(dst)) {
			bad(s, k, "stale", w.posOf(c), "decodes the document into memory that may hold an earlier one's keys")
		}
		if !reported["keys"] {
			reported["keys"] = true
			for _, key := range settingsKeys {
				if jsonField(ts, key) == "" {
					bad(s, k, "nokey:"+key, w.posOf(c), "does not read the key "+key)
				}
			}
		}
		for i := 0; i < ts.NumFields(); i++ {
			if x := k.load(s, k.fld(dst, p.Elem(), i), ts.Field(i).Type()); k.nonNil(s, x) != -1 {
				bad(s, k, "stale", w.posOf(c), "decodes the document into a struct whose "+ts.Field(i).Name()+" may be set already")
			}
		}
		res := k.opaque(s, s.top(), c, callee, args)
		for i := 0; i < ts.NumFields(); i++ {
			a := k.fld(dst, p.Elem(), i)
			s.mem[a] = k.mk(&T{op: "sym", s: "p:doc:" + ts.Field(i).Name(), typ: ts.Field(i).Type()})
		}
		d.doc = dst
		return res, true
	}
	// fact: the path knows that a call of one of the named functions on x gave v
	fact := func(s *astate, v bool, x *T, names ...string) bool {
		for c, t := range s.facts {
			if c.op != "res" || t != v || len(c.args) == 0 || c.args[0] != x {
				continue
			}
			for _, n := range names {
				if c.s == n {
					return n != "strings.HasPrefix" || c.args[1].String() == `"/"`
				}
			}
		}
		return false
	}
	// resolved: v is x resolved against base, as far as the path knows
	resolved := func(s *astate, v, x, base *T) bool {
		empty := k.truth(s, k.eq(x, k.str("")))
		abs := fact(s, true, x, "path/filepath.IsAbs", "path.IsAbs", "strings.HasPrefix")
		rel := fact(s, false, x, "path/filepath.IsAbs", "path.IsAbs", "strings.HasPrefix")
		nobase := k.truth(s, k.eq(base, k.str(""))) == 1
		if v == x || empty == 1 && v.String() == `""` {
			return empty == 1 || abs || nobase
		}
		if v.op == "res" && v.s == "join" {
			return empty == -1 && rel && v.args[0] == base && v.args[1] == x
		}
		return false
	}
	// the user dictionaries
	ud := byKey["userDict"]
	if ud == nil {
		return
	}
	k.cl.store = func(k *ai, s *astate, a, val *T, in ssa.Instruction) {
		if self != nil && a == addr(ud) {
			s.data.(*setData).cur = val
		}
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*setData)
		l, ok := k.listLoopOf(s, h, isStringT)
		lp := setLoop{depth: len(s.stack), acc: map[*T]*T{}}
		lp.l.h = h
		if ok {
			lp.l = l
			_, want := keyOf(s, "userDict")
			lp.over = want != nil && l.list == want
			if lp.over {
				lp.elem = k.elemAt(s, want, k.index(l))
			}
		}
		now := value(s, ud)
		if d.cur == nil {
			d.cur = initial["userDict"]
		}
		lp.acc[now] = d.cur
		d.cur = now
		fr := s.top()
		for _, in := range h.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if sl, ok := phi.Type().Underlying().(*types.Slice); ok && isStringT(sl.Elem()) {
				for i, p := range h.Preds {
					if p == fr.pred {
						lp.acc[fr.env[phi]] = k.val(s, fr, phi.Edges[i])
					}
				}
			}
		}
		d.loops = append(d.loops, lp)
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*setData)
		var lp *setLoop
		for i := range d.loops {
			if d.loops[i].l.h == h && d.loops[i].depth == len(s.stack) {
				lp = &d.loops[i]
			}
		}
		if lp == nil {
			return
		}
		fr := s.top()
		changed := 0
		at := w.posOf(h.Instrs[len(h.Instrs)-1])
		judge := func(head, now *T) {
			if now == head {
				return
			}
			changed++
			if !lp.over {
				bad(s, k, "loop", at, "changes the list of user dictionaries in a loop over something else than the document's list")
				return
			}
			if now.op != "append1" || now.args[0] != head || !resolved(s, now.args[1], lp.elem, value(s, byKey["path"])) {
				bad(s, k, "userdict", at, fmt.Sprintf("can go on to the next user dictionary having made the list %s: not the list so far and the dictionary's resolved path", niceT(now)))
			}
			if !k.stepsByOne(s, lp.l) {
				bad(s, k, "userdict", at, "does not go through the document's user dictionaries one by one")
			}
		}
		for head := range lp.acc {
			isPhi := false
			for _, in := range h.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if fr.env[phi] == head {
					isPhi = true
					for i, p := range h.Preds {
						if p == fr.pred {
							judge(head, k.val(s, fr, phi.Edges[i]))
						}
					}
				}
			}
			if !isPhi {
				judge(head, value(s, ud))
			}
		}
		if lp.over {
			r.count("rounds of user dictionary loops", 1)
			if changed == 0 {
				bad(s, k, "dropped", at, "can go on to the next user dictionary without having added this one")
			}
		}
	}
	// what a list of user dictionaries consists of
	var parts func(s *astate, v *T) string
	parts = func(s *astate, v *T) string {
		d := s.data.(*setData)
		if v == initial["userDict"] {
			return "old "
		}
		for i := len(d.loops) - 1; i >= 0; i-- {
			lp := &d.loops[i]
			pre, ok := lp.acc[v]
			if !ok {
				continue
			}
			if pre == v {
				return parts(s, v)
			}
			if !lp.over {
				return parts(s, pre)
			}
			_, list := keyOf(s, "userDict")
			if !k.gone(s, &lp.l, list) {
				return "?"
			}
			return parts(s, pre) + "new "
		}
		switch v.op {
		case "nil":
			return ""
		case "append1", "appendn":
			if v.op == "appendn" && len(v.args) == 2 {
				return parts(s, v.args[0]) + parts(s, v.args[1])
			}
		}
		if k.rangeOf(s, k.lenOf(s, v)).hi == 0 {
			return ""
		}
		return "?" + v.String()
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		rs := f.Signature.Results()
		if rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) && k.nonNil(s, res[len(res)-1]) == 1 {
			return
		}
		d := s.data.(*setData)
		if d.doc == nil {
			bad(s, k, "unread", w.posOf(at), "can return without an error and without having decoded the document")
			return
		}
		ends++
		pos := w.posOf(at)
		base := value(s, byKey["path"])
		for _, key := range settingsKeys {
			set := byKey[key]
			if set == nil {
				continue
			}
			v := value(s, set)
			old := initial[key]
			present, want := keyOf(s, key)
			if want == nil {
				continue
			}
			r.count("settings at ends of the parser", 1)
			if present == 0 {
				bad(s, k, "either:"+key, pos, "sets "+key+" without having looked whether the document has the key")
				continue
			}
			name := set.class[strings.LastIndex(set.class, ".")+1:]
			if present == -1 {
				ok := v == old
				switch key {
				case "path":
					switch k.truth(s, k.eq(old, k.str(""))) {
					case 1:
						ok = false
						for i, p := range f.Params {
							if i > 0 && isStringT(p.Type()) && v == s.top().env[p] {
								ok = true
							}
						}
					case 0:
						ok = false
					}
				case "userDict":
					ok = parts(s, v) == "old "
				}
				if !ok {
					bad(s, k, "absent:"+key, pos, fmt.Sprintf("can leave %s as %s although the document has no key %s", name, niceT(v), key))
				}
				continue
			}
			ok := v == want
			switch key {
			case "systemDict", "characterDefinitionFile":
				ok = resolved(s, v, want, base)
			case "userDict":
				p := parts(s, v)
				ok = p == "old new " || p == "old " && k.gone(s, nil, want)
			}
			if !ok {
				bad(s, k, "present:"+key, pos, fmt.Sprintf("can set %s to %s when the document has the key %s: not that key's value as it should be", name, niceT(v), key))
			}
		}
		// settings without a key stay as they are
		for i := range all {
			if all[i].key == "" {
				if v := value(s, &all[i]); v != initial[all[i].class] {
					bad(s, k, "other:"+all[i].class, pos, "changes "+all[i].class+", which has no key of its own")
				}
			}
		}
	}
	k.run(f, func(s *astate) {
		s.data = &setData{}
		self = s.top().env[f.Params[0]]
		for _, key := range settingsKeys {
			if set := byKey[key]; set != nil {
				initial[key] = value(s, set)
			}
		}
		for i := range all {
			initial[all[i].class] = value(s, &all[i])
		}
	})
	if k.gaveUp || decodes == 0 || ends == 0 {
		r.add(Finding{Key: "parse:" + who + ":shape", Rule: "settings keys", Pos: w.pos(f.Pos()), Msg: who + " writes settings but was not recognised as decoding a document"})
	}
	r.count("ends of the parser without an error", ends)
}
