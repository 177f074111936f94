package main

// C15: plugin names select the plugin they name.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "abstract interpretation (constant propagation of every name through the plugin constructors, path facts of an arbitrary settings entry)", checkPluginNames)
}

// the bundled plugins and their kinds
var pluginKinds = []struct {
	kind  string
	names []string
}{
	{"InputTextPlugin", []string{"DefaultInputTextPlugin", "ProlongedSoundMarkInputTextPlugin"}},
	{"OovProviderPlugin", []string{"MeCabOovProviderPlugin", "SimpleOovProviderPlugin"}},
	{"PathRewritePlugin", []string{"JoinNumericPlugin", "JoinKatakanaOovPlugin"}},
	{"EditConnectionCostPlugin", []string{"InhibitConnectionPlugin"}},
}

// reflectModel gives meaning to the reflection calls a registry of types
// uses, for types known statically.
func reflectModel(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
	if c.Common().IsInvoke() && len(args) > 0 && args[0].op == "reftype" {
		t := args[0].typ
		switch c.Common().Method.Name() {
		case "PkgPath", "Name", "String":
			n, ok := t.(*types.Named)
			switch {
			case c.Common().Method.Name() == "String":
				return []*T{k.str(types.TypeString(t, func(p *types.Package) string { return p.Name() }))}, true
			case !ok:
				return []*T{k.str("")}, true
			case c.Common().Method.Name() == "Name":
				return []*T{k.str(n.Obj().Name())}, true
			default:
				return []*T{k.str(n.Obj().Pkg().Path())}, true
			}
		case "Elem":
			if p, ok := t.Underlying().(*types.Pointer); ok {
				return []*T{k.refType(p.Elem())}, true
			}
		}
		return nil, false
	}
	if callee == nil {
		return nil, false
	}
	switch callee.String() {
	case "reflect.TypeOf":
		if args[0].op == "iface" {
			return []*T{k.refType(args[0].typ)}, true
		}
	case "reflect.New", "reflect.Zero":
		if args[0].op == "reftype" {
			t := args[0].typ
			if callee.Name() == "New" {
				t = types.NewPointer(t)
			}
			return []*T{k.mk(&T{op: "refval", s: types.TypeString(t, nil) + "@" + s.top().here(), typ: t})}, true
		}
	case "(reflect.Value).Interface":
		if v := args[0]; v.op == "refval" {
			if p, ok := v.typ.(*types.Pointer); ok {
				return []*T{k.mk(&T{op: "iface", s: types.TypeString(p, nil), typ: p, args: []*T{k.mk(&T{op: "alloc", s: "reflect " + v.s, typ: p})}})}, true
			}
			return []*T{k.mk(&T{op: "iface", s: types.TypeString(v.typ, nil), typ: v.typ, args: []*T{k.zeroOf(v.typ)}})}, true
		}
	case "(reflect.Value).Elem":
		if v := args[0]; v.op == "refval" {
			if p, ok := v.typ.(*types.Pointer); ok {
				return []*T{k.mk(&T{op: "refval", s: "*" + v.s, typ: p.Elem()})}, true
			}
		}
	case "reflect.Indirect":
		return []*T{args[0]}, false
	}
	return nil, false
}

func (k *ai) refType(t types.Type) *T {
	return k.mk(&T{op: "reftype", s: types.TypeString(t, nil), typ: t})
}

func checkPluginNames(w *World, r *Report) {
	pkg := w.modpath
	makers := 0
	try := func(f *ssa.Function, rel, kind string, arg func(k *ai) *T, shown, want string) {
		k := newAI(w, aclient{})
		k.model = reflectModel
		k.unroll = true
		k.loadInits("", rel)
		n := 0
		r.oblige(w.fname(f) + "(" + shown + ")")
		r.count("names given to plugin constructors", 1)
		k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
			if how != aReturn {
				r.add(Finding{Key: "name:" + w.fname(f) + ":" + shown, Rule: "plugin names", Pos: w.posOf(at), Msg: w.fname(f) + "(" + shown + ") does not return"})
				return
			}
			n++
			got := "a value that could not be determined"
			x := res[0]
			switch {
			case x.op == "nil":
				got = ""
			case x.op == "iface" && k.nonNil(s, x.args[0]) == 1:
				got = types.TypeString(x.typ, nil)
			case x.op == "iface":
				got = "a possibly nil " + types.TypeString(x.typ, nil)
			}
			if want != got {
				show := func(s string) string {
					if s == "" {
						return "no plugin"
					}
					return strings.TrimPrefix(s, "*")
				}
				r.add(Finding{Key: "name:" + w.fname(f) + ":" + shown, Rule: "plugin names", Pos: w.posOf(at), Msg: fmt.Sprintf("%s(%s) can return %s, not %s", w.fname(f), shown, show(got), show(want)), Path: k.trail(s)})
			}
		}
		k.run(f, func(s *astate) { s.top().env[f.Params[0]] = arg(k) })
		if n == 0 || k.gaveUp {
			r.add(Finding{Key: "name:" + w.fname(f), Rule: "plugin names", Pos: w.pos(f.Pos()), Msg: "what " + w.fname(f) + "(" + shown + ") returns could not be determined"})
		}
	}
	family := func(f *ssa.Function, rel, kind string, prefixes, mustNot []string) {
		if len(f.Params) != 1 || !isStringT(f.Params[0].Type()) {
			panic(w.fname(f) + " does not take a name")
		}
		makers++
		for _, k2 := range pluginKinds {
			for _, n := range k2.names {
				for _, p := range prefixes {
					want := ""
					if k2.kind == kind {
						want = "*" + pkg + "." + n
					}
					name := p + n
					try(f, rel, kind, func(k *ai) *T { return k.str(name) }, `"`+name+`"`, want)
				}
			}
		}
		try(f, rel, kind, func(k *ai) *T { return k.other("name") }, "any other name", "")
		for _, n := range mustNot {
			n := n
			try(f, rel, kind, func(k *ai) *T { return k.str(n) }, `"`+n+`"`, "")
		}
	}
	short, java, gos := "", "com.worksap.nlp.sudachi.", pkg+"."
	for _, pk := range pluginKinds {
		f := w.must(w.pkgFunc("", "DefMake"+pk.kind), "DefMake"+pk.kind)
		family(f, "", pk.kind, []string{short, java}, []string{"", pk.kind})
	}

	// the command: whatever it hands to Get...PluginArray
	for _, pk := range pluginKinds {
		method := "Get" + pk.kind + "Array"
		seen := map[*ssa.Function]bool{}
		for _, f := range w.allFns {
			if f.Pkg == nil || f.Pkg.Pkg.Path() != pkg+"/gosudachicli" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cm := c.Common()
					isGet := cm.IsInvoke() && cm.Method.Name() == method || cm.StaticCallee() != nil && cm.StaticCallee().Name() == method
					if !isGet {
						continue
					}
					arg := cm.Args[len(cm.Args)-1]
					r.oblige("constructor given to " + method + " at " + w.posOf(in))
					found := false
					w.trace(arg, true, func(v ssa.Value) {
						switch x := v.(type) {
						case *ssa.Function:
							found = true
							seen[x] = true
						case *ssa.MakeClosure:
							found = true
							seen[x.Fn.(*ssa.Function)] = true
						}
					})
					if !found {
						r.add(Finding{Key: "maker:" + method, Rule: "plugin names", Pos: w.posOf(in), Msg: "the constructor handed to " + method + " could not be determined"})
					}
				}
			}
		}
		if len(seen) == 0 {
			r.add(Finding{Key: "maker:" + method, Rule: "plugin names", Pos: "gosudachicli", Msg: "gosudachicli does not ask for the plugins of kind " + pk.kind})
		}
		for f := range seen {
			family(f, "gosudachicli", pk.kind, []string{short, java, gos}, []string{"", pk.kind})
		}
	}
	r.Counts["plugin constructors"] = makers
	r.floor("plugin constructors", 8)

	// the settings entries
	for _, pk := range pluginKinds {
		method := "Get" + pk.kind + "Array"
		n := 0
		for _, f := range w.allFns {
			if f.Name() != method || f.Signature.Recv() == nil || len(f.Blocks) == 0 || f.Synthetic != "" {
				continue
			}
			n++
			checkPluginEntries(w, r, f)
		}
		if n == 0 {
			panic("no method " + method)
		}
	}
	r.floor("settings entry paths", 4)
}

// jsonField: the struct field the JSON key goes to.
func jsonField(st *types.Struct, key string) string {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		n := f.Name()
		if t := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]; t == "-" {
			continue
		} else if t != "" {
			n = t
		} else if !f.Exported() {
			continue
		}
		if strings.EqualFold(n, key) {
			return f.Name()
		}
	}
	return ""
}

func checkPluginEntries(w *World, r *Report, f *ssa.Function) {
	type st struct {
		dst, raw *T // the struct an entry was decoded into, and the entry
		made     *T
		filled   bool
		appended int
	}
	bad := func(key, at, msg string, p []string) {
		r.add(Finding{Key: "entry:" + w.fname(f) + ":" + key, Rule: "settings entries", Pos: at, Msg: w.fname(f) + " " + msg, Path: p})
	}
	k := newAI(w, aclient{})
	k.keep = true
	k.cl.clone = func(d any) any { n := *d.(*st); return &n }
	k.cl.key = func(d any) string { return fmt.Sprint(*d.(*st)) }
	maker := f.Params[len(f.Params)-1]
	var makerT *T
	isStruct := func(x *T) *types.Struct {
		if x.op == "iface" {
			x = x.args[0]
		}
		if x.typ == nil {
			return nil
		}
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			st, _ := p.Elem().Underlying().(*types.Struct)
			if st != nil && jsonField(st, "name") != "" && jsonField(st, "class") != "" {
				return st
			}
		}
		return nil
	}
	fieldT := func(s *astate, d *st, key string) *T {
		x := d.dst
		st := isStruct(x)
		n := jsonField(st, key)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return k.load(s, k.fld(x, x.typ.Underlying().(*types.Pointer).Elem(), i), st.Field(i).Type())
			}
		}
		return nil
	}
	made, paths := 0, 0
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := s.data.(*st)
		at := w.posOf(c)
		if callee != nil && (callee.String() == "encoding/json.Unmarshal" || callee.String() == "(*encoding/json.Decoder).Decode") {
			raw, dst := args[0], args[1]
			if dst.op == "iface" {
				dst = dst.args[0]
			}
			if ts := isStruct(dst); ts != nil {
				d.dst, d.raw, d.made, d.filled = dst, raw, nil, false
				if d.appended > 0 {
					d.appended = 0
				}
				r.oblige("entry decoded at " + at)
				for _, key := range []string{"name", "class"} {
					v := fieldT(s, d, key)
					empty := k.nonNil(s, v) == -1
					if sv, ok := v.strVal(); ok && sv == "" {
						empty = true
					}
					if !empty {
						bad("stale", at, "decodes an entry into a struct whose "+key+" may still be that of an earlier entry", k.trail(s))
					}
				}
				return nil, false, false
			}
			if d.made != nil && dst.op == "res" && dst.in != nil {
				if m := dst.in.(ssa.CallInstruction).Common(); m.IsInvoke() && m.Method.Name() == "GetConfigStruct" && dst.args[0] == d.made {
					if raw != d.raw {
						bad("config", at, "fills a plugin's configuration from another value than the plugin's own entry", k.trail(s))
					}
					d.filled = true
				}
			}
			return nil, false, false
		}
		if callee == nil && !c.Common().IsInvoke() {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok {
				if b.Name() == "append" && d.made != nil && len(args) == 2 && args[1].op == "slice" {
					if e := k.load(s, k.idx(args[1], k.num(0), elemType(args[1].typ)), elemType(args[1].typ)); e == d.made {
						d.appended++
						if k.nonNil(s, d.made) != 1 {
							bad("nil", at, "accepts an entry although its name may select no plugin", k.trail(s))
						}
						if !d.filled {
							bad("unconfigured", at, "accepts a plugin that was not given its entry's configuration", k.trail(s))
						}
					}
				}
				return nil, false, true
			}
			if k.val(s, s.top(), c.Common().Value) != makerT {
				return nil, false, true
			}
			made++
			arg := args[0]
			if d.dst == nil {
				bad("name", at, "asks for a plugin before an entry was decoded", k.trail(s))
				return nil, false, false
			}
			N, C := fieldT(s, d, "name"), fieldT(s, d, "class")
			absent := func(x *T) bool {
				if isStringT(x.typ) {
					return k.truth(s, k.eq(x, k.str(""))) == 1
				}
				return k.nonNil(s, x) == -1
			}
			present := func(x *T) bool {
				if isStringT(x.typ) {
					return k.truth(s, k.eq(x, k.str(""))) == -1
				}
				return k.nonNil(s, x) == 1
			}
			is := func(x *T) bool {
				return arg == x || arg.op == "load" && arg.args[0] == x
			}
			r.oblige("name handed to the constructor at " + at)
			ok := false
			switch {
			case is(N):
				ok = present(N) || isStringT(N.typ) && absent(C)
			case is(C):
				ok = present(C) || isStringT(C.typ) && absent(N)
			default:
				if sv, isS := arg.strVal(); isS && sv == "" {
					ok = absent(N) && absent(C)
				}
			}
			if !ok {
				bad("name", at, fmt.Sprintf("can ask for the plugin %s although that is not what the entry's name or class key says", arg), k.trail(s))
			}
			t := k.mk(&T{op: "res", s: "plugin@" + s.top().here(), typ: c.Common().Signature().Results().At(0).Type(), in: c})
			d.made, d.filled, d.appended = t, false, 0
			// the constructor may not touch what was decoded
			return []*T{t}, true, false
		}
		return nil, false, true
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*st)
		if len(s.stack) > 1 || d.dst == nil {
			if d.dst == nil {
				return
			}
		}
		// the loop over the entries: the one the entry was decoded in
		in := false
		for b := range k.loop(h) {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && (k.val(s, s.top(), c.Common().Value) == makerT || reaches(w, c, "encoding/json.Unmarshal")) {
					in = true
				}
			}
		}
		if !in {
			return
		}
		paths++
		r.count("settings entry paths", 1)
		if d.appended != 1 {
			bad("dropped", w.pos(f.Pos()), fmt.Sprintf("can go on to the next entry having accepted %d plugins for this one", d.appended), k.trail(s))
		}
	}
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		d := s.data.(*st)
		if how != aReturn {
			return
		}
		err := res[len(res)-1]
		if d.made != nil && d.appended == 0 && k.nonNil(s, d.made) != 1 && k.nonNil(s, err) != 1 {
			bad("unknown", w.posOf(at), "can return without an error although an entry's name selected no plugin", k.trail(s))
		}
		if d.made != nil && k.nonNil(s, d.made) == 1 && d.appended == 0 && k.nonNil(s, err) != 1 {
			bad("lost", w.posOf(at), "can return without an error and without the plugin an entry selected", k.trail(s))
		}
	}
	k.run(f, func(s *astate) {
		s.data = &st{}
		makerT = s.top().env[maker]
	})
	if k.gaveUp || made == 0 || paths == 0 {
		bad("shape", w.pos(f.Pos()), "was not recognised as decoding each entry and asking for the plugin it names", nil)
	}
}

// reaches: the call is, or can lead to, a call of the named function.
func reaches(w *World, c ssa.CallInstruction, name string) bool {
	if f := c.Common().StaticCallee(); f != nil && f.String() == name {
		return true
	}
	for _, g := range w.callees(c) {
		for h := range w.reachable([]*ssa.Function{g}) {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					if cc, ok := in.(ssa.CallInstruction); ok {
						if f := cc.Common().StaticCallee(); f != nil && f.String() == name {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
