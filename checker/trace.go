package main

// Backward value tracing, flow-insensitive and interprocedural: which leaves
// can this value come from?

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type tracer struct {
	w *World
	// openWorld: parameters of exported library functions are leaves too
	openWorld bool
	leaf      func(v ssa.Value)
	seen      map[ssa.Value]bool
	// stop: values taken as leaves without looking through them
	stop func(v ssa.Value) bool
}

func (w *World) trace(v ssa.Value, open bool, leaf func(ssa.Value)) {
	t := &tracer{w: w, openWorld: open, leaf: leaf, seen: map[ssa.Value]bool{}}
	t.visit(v)
}

type callIndex struct {
	args map[*ssa.Function][]ssa.CallInstruction // resolved callers
	mcs  map[*ssa.Function][]*ssa.MakeClosure
	fst  map[string][]*ssa.Store // stores by field class
	gst  map[*ssa.Global][]*ssa.Store
}

var callIdx = map[*World]*callIndex{}

func (w *World) index() *callIndex {
	if ci, ok := callIdx[w]; ok {
		return ci
	}
	ci := &callIndex{args: map[*ssa.Function][]ssa.CallInstruction{}, mcs: map[*ssa.Function][]*ssa.MakeClosure{}, fst: map[string][]*ssa.Store{}, gst: map[*ssa.Global][]*ssa.Store{}}
	callIdx[w] = ci
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					for _, g := range w.callees(in) {
						ci.args[g] = append(ci.args[g], in)
					}
				case *ssa.MakeClosure:
					if g, ok := in.Fn.(*ssa.Function); ok {
						ci.mcs[g] = append(ci.mcs[g], in)
					}
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						k := fieldClass(a.X.Type(), a.Field)
						ci.fst[k] = append(ci.fst[k], in)
					case *ssa.Global:
						ci.gst[a] = append(ci.gst[a], in)
					}
				}
			}
		}
	}
	return ci
}

// fieldClass names a struct field independently of the object.
func fieldClass(ptr types.Type, i int) string {
	t := ptr
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return t.String() + ".?"
	}
	return types.TypeString(t, nil) + "." + st.Field(i).Name()
}

func isExportedAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if f.Pkg == nil || f.Pkg.Pkg.Name() == "main" {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

func (t *tracer) visit(v ssa.Value) {
	if t.seen[v] {
		return
	}
	t.seen[v] = true
	if t.stop != nil && t.stop(v) {
		t.leaf(v)
		return
	}
	ci := t.w.index()
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			t.visit(e)
		}
	case *ssa.ChangeInterface:
		t.visit(v.X)
	case *ssa.MakeInterface:
		t.visit(v.X)
	case *ssa.ChangeType:
		t.visit(v.X)
	case *ssa.Convert:
		t.visit(v.X)
	case *ssa.TypeAssert:
		t.visit(v.X)
	case *ssa.Extract:
		switch tu := v.Tuple.(type) {
		case *ssa.TypeAssert:
			if v.Index == 0 {
				t.visit(tu.X)
				return
			}
			t.leaf(v)
		case *ssa.Call:
			t.result(v, tu, v.Index)
		default:
			t.leaf(v)
		}
	case *ssa.Call:
		t.result(v, v, 0)
	case *ssa.Parameter:
		f := v.Parent()
		n := -1
		for i, p := range f.Params {
			if p == v {
				n = i
			}
		}
		found := false
		for _, c := range ci.args[f] {
			com := c.Common()
			j := n
			if com.IsInvoke() {
				j--
				if j < 0 {
					found = true
					t.visit(com.Value)
					continue
				}
			}
			if j < len(com.Args) {
				found = true
				t.visit(com.Args[j])
			}
		}
		if !found || t.openWorld && isExportedAPI(f) {
			t.leaf(v)
		}
	case *ssa.FreeVar:
		f := v.Parent()
		n := -1
		for i, p := range f.FreeVars {
			if p == v {
				n = i
			}
		}
		for _, mc := range ci.mcs[f] {
			t.visit(mc.Bindings[n])
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			t.leaf(v)
			return
		}
		t.load(v, v.X)
	case *ssa.Field:
		t.fieldOf(v, v.X.Type(), v.Field)
	default:
		t.leaf(v)
	}
}

func (t *tracer) fieldOf(v ssa.Value, typ types.Type, i int) {
	sts := t.w.index().fst[fieldClass(typ, i)]
	if len(sts) == 0 {
		t.leaf(v)
	}
	for _, st := range sts {
		t.visit(st.Val)
	}
}

func (t *tracer) load(v ssa.Value, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.Alloc:
		t.cell(v, a)
	case *ssa.FreeVar:
		f := a.Parent()
		for i, p := range f.FreeVars {
			if p != a {
				continue
			}
			for _, mc := range t.w.index().mcs[f] {
				t.load(v, mc.Bindings[i])
			}
		}
	case *ssa.Global:
		sts := t.w.index().gst[a]
		if len(sts) == 0 {
			t.leaf(v)
		}
		for _, st := range sts {
			t.visit(st.Val)
		}
	case *ssa.FieldAddr:
		if isDumpField(t.w, a) {
			t.leaf(v)
			return
		}
		// the address itself may have been handed to a flag function
		for _, r := range fieldAddrUses(t.w, fieldClass(a.X.Type(), a.Field)) {
			t.leaf(r)
		}
		sts := t.w.index().fst[fieldClass(a.X.Type(), a.Field)]
		if len(sts) == 0 && len(fieldAddrUses(t.w, fieldClass(a.X.Type(), a.Field))) == 0 {
			t.leaf(v)
		}
		for _, st := range sts {
			t.visit(st.Val)
		}
	case *ssa.Call:
		t.leaf(a) // *flag.Bool(...)
	default:
		t.leaf(v)
	}
}

func fieldAddrUses(w *World, class string) []ssa.Value {
	var out []ssa.Value
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				for _, a := range c.Call.Args {
					if fa, ok := a.(*ssa.FieldAddr); ok && fieldClass(fa.X.Type(), fa.Field) == class && isFlagCall(c) {
						out = append(out, c)
					}
				}
			}
		}
	}
	return out
}

func isFlagCall(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "flag"
}

func (t *tracer) cell(v ssa.Value, a *ssa.Alloc) {
	any := false
	var uses func(addr ssa.Value)
	uses = func(addr ssa.Value) {
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					any = true
					t.visit(r.Val)
				}
			case *ssa.Call:
				if isFlagCall(r) {
					any = true
					t.leaf(r)
				}
			case *ssa.MakeClosure:
				for i, bv := range r.Bindings {
					if bv == addr {
						g := r.Fn.(*ssa.Function)
						uses(g.FreeVars[i])
					}
				}
			}
		}
	}
	uses(a)
	if !any {
		t.leaf(v)
	}
}

func (t *tracer) result(v ssa.Value, c *ssa.Call, i int) {
	fs := t.w.callees(c)
	done := false
	for _, f := range fs {
		if !t.w.inModule(f) || len(f.Blocks) == 0 {
			continue
		}
		done = true
		for _, b := range f.Blocks {
			if r, ok := lastInstr(b).(*ssa.Return); ok && i < len(r.Results) {
				t.visit(r.Results[i])
			}
		}
	}
	if !done {
		t.leaf(v)
	}
}

// origins names the leaves of a boolean value: "flag:<name>" for command-line
// flags, "?" for anything else that is not the flag's own default.
func (w *World) origins(v ssa.Value) []string {
	m := map[string]bool{}
	hasFlag := false
	w.trace(v, false, func(l ssa.Value) {
		if c, ok := l.(*ssa.Call); ok && isFlagCall(c) {
			for _, a := range c.Call.Args {
				if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					m["flag:"+constant.StringVal(k.Value)] = true
					hasFlag = true
					return
				}
			}
		}
		if k, ok := l.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
			m["false"] = true
			return
		}
		m["?"] = true
	})
	if hasFlag {
		delete(m, "false")
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
