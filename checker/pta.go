package main

// Inclusion-based points-to and mod analysis: field-sensitive, call-string
// sensitive (last k call sites, allocation sites cloned with their context),
// over the functions reachable from a set of entry calls. Everything that
// existed before the entries, and is handed to them as shared, is one object
// that points to itself.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type okind int

const (
	oShared  okind = iota // pre-existing memory, whatever it points to included
	oForeign              // memory of callers and of foreign packages
	oAlloc
	oFunc
)

type pobj struct {
	kind okind
	ctx  int
	site ssa.Value
	ins  ssa.Instruction
	fn   *ssa.Function // oFunc
	name string
}

type ploc struct {
	o    int32
	path string
	dyn  int32 // dynamic type of an interface value, 0 when not in an interface or not known
}

type pset map[ploc]struct{}

type pnode struct {
	ctx  int
	v    ssa.Value
	path string
}

type pmem struct {
	o    int32
	path string
}

type pwrite struct {
	at   ssa.Instruction
	fn   *ssa.Function
	loc  ploc
	what string
	ctx  int
}

type pta struct {
	w       *World
	k       int
	objs    []*pobj
	objIdx  map[string]int32
	nodes   map[pnode]pset
	mem     map[pmem]pset
	memOf   map[int32]map[string]bool // paths of each object with contents
	rets    map[pnode]pset            // ctx, function (as value), "#i"+leaf
	ctxs    []string
	ctxIdx  map[string]int
	work    map[string]bool
	fns     []pfn
	changed bool
	typs    typeutil.Map
	typList []types.Type
	writes  map[string]pwrite
	wfilter func(o *pobj) bool
	leafs   typeutil.Map
	// in context 0, only these blocks of these functions are executed; what the
	// rest of them computes is shared memory
	region   map[*ssa.Function]map[*ssa.BasicBlock]bool
	override func(v ssa.Value) (pset, bool)
	unknown  map[string]bool
}

type pfn struct {
	f   *ssa.Function
	ctx int
}

func newPTA(w *World, k int) *pta {
	p := &pta{w: w, k: k, objIdx: map[string]int32{}, nodes: map[pnode]pset{}, mem: map[pmem]pset{}, memOf: map[int32]map[string]bool{},
		rets: map[pnode]pset{}, ctxIdx: map[string]int{}, work: map[string]bool{}, writes: map[string]pwrite{}, unknown: map[string]bool{}}
	p.obj("shared", func() *pobj { return &pobj{kind: oShared, name: "shared memory"} })
	p.obj("foreign", func() *pobj { return &pobj{kind: oForeign, name: "foreign memory"} })
	p.typList = append(p.typList, nil)
	p.ctx("")
	return p
}

const (
	sharedObj  = int32(0)
	foreignObj = int32(1)
)

func (p *pta) obj(key string, mk func() *pobj) int32 {
	if i, ok := p.objIdx[key]; ok {
		return i
	}
	i := int32(len(p.objs))
	p.objIdx[key] = i
	p.objs = append(p.objs, mk())
	return i
}

func (p *pta) ctx(s string) int {
	if i, ok := p.ctxIdx[s]; ok {
		return i
	}
	i := len(p.ctxs)
	p.ctxIdx[s] = i
	p.ctxs = append(p.ctxs, s)
	return i
}

func (p *pta) push(ctx int, c ssa.Instruction) int {
	var parts []string
	if p.ctxs[ctx] != "" {
		parts = strings.Split(p.ctxs[ctx], "|")
	}
	parts = append(parts, fmt.Sprintf("%p", c))
	if len(parts) > p.k {
		parts = parts[len(parts)-p.k:]
	}
	return p.ctx(strings.Join(parts, "|"))
}

func (p *pta) typID(t types.Type) int32 {
	if i, ok := p.typs.At(t).(int32); ok {
		return i
	}
	i := int32(len(p.typList))
	p.typs.Set(t, i)
	p.typList = append(p.typList, t)
	return i
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

// leaves lists the paths below a value of type t that hold pointers.
func (p *pta) leaves(t types.Type) []string {
	if l, ok := p.leafs.At(t).([]string); ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range p.leaves(u.Field(i).Type()) {
				out = append(out, fmt.Sprintf(".%d%s", i, l))
			}
		}
	case *types.Array:
		for _, l := range p.leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range p.leaves(u.At(i).Type()) {
				out = append(out, fmt.Sprintf("#%d%s", i, l))
			}
		}
	default:
		if pointerLike(t) {
			out = []string{""}
		}
	}
	p.leafs.Set(t, out)
	return out
}

// get returns what the part of v below path can point to.
func (p *pta) get(ctx int, v ssa.Value, path string) pset {
	if p.override != nil {
		if s, ok := p.override(v); ok {
			return s
		}
	}
	if ctx == 0 && p.region != nil {
		in := false
		var f *ssa.Function
		switch v := v.(type) {
		case ssa.Instruction:
			f = v.Parent()
			in = p.region[f][v.Block()]
		case *ssa.Parameter, *ssa.FreeVar:
			f = v.Parent()
		}
		if f != nil && p.region[f] != nil && !in {
			return pset{ploc{o: sharedObj}: {}}
		}
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		if v.Pkg != nil && p.w.modPkg[v.Pkg.Pkg] {
			return pset{ploc{o: sharedObj}: {}}
		}
		return pset{ploc{o: foreignObj}: {}}
	case *ssa.Function:
		o := p.obj(fmt.Sprintf("fn%p", v), func() *pobj { return &pobj{kind: oFunc, fn: v, name: v.Name()} })
		return pset{ploc{o: o}: {}}
	}
	return p.nodes[pnode{ctx, v, path}]
}

func (p *pta) addNode(ctx int, v ssa.Value, path string, s pset) {
	if len(s) == 0 {
		return
	}
	k := pnode{ctx, v, path}
	d := p.nodes[k]
	if d == nil {
		d = pset{}
		p.nodes[k] = d
	}
	for l := range s {
		if _, ok := d[l]; !ok {
			d[l] = struct{}{}
			p.changed = true
		}
	}
}

func (p *pta) load(l ploc, sub string, t types.Type) pset {
	switch p.objs[l.o].kind {
	case oShared:
		return pset{ploc{o: sharedObj}: {}}
	case oForeign:
		out := pset{ploc{o: foreignObj}: {}}
		for x := range p.mem[pmem{l.o, "*"}] {
			out[x] = struct{}{}
		}
		return out
	}
	a, b := p.mem[pmem{l.o, l.path + sub}], p.mem[pmem{l.o, "*"}]
	if len(b) == 0 {
		return a
	}
	out := pset{}
	for x := range a {
		out[x] = struct{}{}
	}
	for x := range b {
		out[x] = struct{}{}
	}
	return out
}

func (p *pta) addMem(o int32, path string, s pset) {
	if len(s) == 0 || len(path) > 60 {
		return
	}
	switch p.objs[o].kind {
	case oShared:
		return // reported as a write; keeps pointing to itself only
	case oForeign:
		path = "*"
	}
	k := pmem{o, path}
	d := p.mem[k]
	if d == nil {
		d = pset{}
		p.mem[k] = d
		if p.memOf[o] == nil {
			p.memOf[o] = map[string]bool{}
		}
		p.memOf[o][path] = true
	}
	for l := range s {
		if _, ok := d[l]; !ok {
			d[l] = struct{}{}
			p.changed = true
		}
	}
}

func (p *pta) wrote(ctx int, at ssa.Instruction, s pset, sub string, what string) {
	for l := range s {
		if p.objs[l.o].kind == oFunc {
			continue
		}
		l.path += sub
		l.dyn = 0
		k := fmt.Sprintf("%p%d%s", at, l.o, l.path)
		if _, ok := p.writes[k]; !ok {
			p.writes[k] = pwrite{at, at.Parent(), l, what, ctx}
		}
	}
}

// enter makes f part of the analysis in ctx.
func (p *pta) enter(f *ssa.Function, ctx int) {
	k := fmt.Sprintf("%d%p", ctx, f)
	if !p.work[k] {
		p.work[k] = true
		p.fns = append(p.fns, pfn{f, ctx})
		p.changed = true
	}
}

// bind passes s to the part below path of parameter i of f.
func (p *pta) bind(f *ssa.Function, ctx int, i int, path string, s pset) {
	if i < len(f.Params) {
		p.addNode(ctx, f.Params[i], path, s)
	}
}

func (p *pta) solve() {
	for n := 0; ; n++ {
		p.changed = false
		for i := 0; i < len(p.fns); i++ {
			p.transfer(p.fns[i].f, p.fns[i].ctx)
		}
		if !p.changed {
			return
		}
		if n > 400 {
			panic("points-to analysis does not finish")
		}
	}
}

func (p *pta) fresh(ctx int, v ssa.Value, kind string) ploc {
	o := p.obj(fmt.Sprintf("a%s%d%p", kind, ctx, v), func() *pobj {
		in, _ := v.(ssa.Instruction)
		return &pobj{kind: oAlloc, ctx: ctx, site: v, ins: in, name: kind}
	})
	return ploc{o: o}
}

func one(l ploc) pset { return pset{l: {}} }

func undyn(s pset) pset {
	out := pset{}
	for l := range s {
		l.dyn = 0
		out[l] = struct{}{}
	}
	return out
}

func sub(s pset, path string) pset {
	out := pset{}
	for l := range s {
		l.path += path
		l.dyn = 0
		if l.o == sharedObj || l.o == foreignObj {
			l.path = ""
		}
		out[l] = struct{}{}
	}
	return out
}

func (p *pta) transfer(f *ssa.Function, ctx int) {
	for _, b := range f.Blocks {
		if ctx == 0 && p.region != nil && !p.region[f][b] {
			continue
		}
		for _, in := range b.Instrs {
			p.instr(f, ctx, in)
		}
	}
}

func (p *pta) copyAll(ctx int, dst ssa.Value, src ssa.Value) {
	for _, l := range p.leaves(dst.Type()) {
		p.addNode(ctx, dst, l, p.get(ctx, src, l))
	}
}

func (p *pta) instr(f *ssa.Function, ctx int, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		p.addNode(ctx, in, "", one(p.fresh(ctx, in, "")))
	case *ssa.MakeSlice:
		p.addNode(ctx, in, "", one(p.fresh(ctx, in, "")))
	case *ssa.MakeMap:
		p.addNode(ctx, in, "", one(p.fresh(ctx, in, "")))
	case *ssa.MakeChan:
		p.addNode(ctx, in, "", one(p.fresh(ctx, in, "")))
	case *ssa.MakeClosure:
		l := p.fresh(ctx, in, "")
		fn := in.Fn.(*ssa.Function)
		p.objs[l.o].kind = oFunc
		p.objs[l.o].fn = fn
		p.addNode(ctx, in, "", one(l))
		for i, bnd := range in.Bindings {
			for _, lf := range p.leaves(bnd.Type()) {
				p.addMem2(l.o, fmt.Sprintf("^%d%s", i, lf), p.get(ctx, bnd, lf))
			}
		}
	case *ssa.MakeInterface:
		t := in.X.Type()
		id := p.typID(t)
		if pointerLike(t) {
			out := pset{}
			for l := range p.get(ctx, in.X, "") {
				l.dyn = id
				out[l] = struct{}{}
			}
			p.addNode(ctx, in, "", out)
		} else {
			l := p.fresh(ctx, in, "")
			for _, lf := range p.leaves(t) {
				p.addMem(l.o, lf, p.get(ctx, in.X, lf))
			}
			l.dyn = id
			p.addNode(ctx, in, "", one(l))
		}
	case *ssa.ChangeInterface:
		p.copyAll(ctx, in, in.X)
	case *ssa.ChangeType:
		p.copyAll(ctx, in, in.X)
	case *ssa.SliceToArrayPointer:
		p.copyAll(ctx, in, in.X)
	case *ssa.MultiConvert:
		p.copyAll(ctx, in, in.X)
	case *ssa.Convert:
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
				p.addNode(ctx, in, "", one(p.fresh(ctx, in, "")))
				return
			}
		}
		p.copyAll(ctx, in, in.X)
	case *ssa.Phi:
		for _, e := range in.Edges {
			p.copyAll(ctx, in, e)
		}
	case *ssa.Select:
		for _, s := range in.States {
			if s.Dir == types.SendOnly {
				p.wrote(ctx, in, p.get(ctx, s.Chan, ""), "", "sends on")
			}
		}
	case *ssa.FieldAddr:
		p.addNode(ctx, in, "", sub(p.get(ctx, in.X, ""), fmt.Sprintf(".%d", in.Field)))
	case *ssa.IndexAddr:
		p.addNode(ctx, in, "", sub(p.get(ctx, in.X, ""), "[]"))
	case *ssa.Field:
		for _, l := range p.leaves(in.Type()) {
			p.addNode(ctx, in, l, p.get(ctx, in.X, fmt.Sprintf(".%d%s", in.Field, l)))
		}
	case *ssa.Index:
		for _, l := range p.leaves(in.Type()) {
			p.addNode(ctx, in, l, p.get(ctx, in.X, "[]"+l))
		}
	case *ssa.Slice:
		if pointerLike(in.Type()) {
			p.addNode(ctx, in, "", p.get(ctx, in.X, ""))
		}
	case *ssa.Extract:
		for _, l := range p.leaves(in.Type()) {
			p.addNode(ctx, in, l, p.get(ctx, in.Tuple, fmt.Sprintf("#%d%s", in.Index, l)))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for a := range p.get(ctx, in.X, "") {
				for _, l := range p.leaves(in.Type()) {
					p.addNode(ctx, in, l, p.load(a, l, in.Type()))
				}
			}
		case token.ARROW:
			t := in.Type()
			pre := ""
			if in.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
				pre = "#0"
			}
			for a := range p.get(ctx, in.X, "") {
				for _, l := range p.leaves(t) {
					p.addNode(ctx, in, pre+l, p.load(a, "[]"+l, t))
				}
			}
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return
		}
		t := in.Type()
		pre := ""
		if in.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
			pre = "#0"
		}
		for a := range p.get(ctx, in.X, "") {
			for _, l := range p.leaves(t) {
				p.addNode(ctx, in, pre+l, p.load(a, "{v}"+l, t))
			}
		}
	case *ssa.Next:
		if in.IsString {
			return
		}
		rg, ok := in.Iter.(*ssa.Range)
		if !ok {
			return
		}
		m, ok := rg.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for a := range p.get(ctx, rg.X, "") {
			for _, l := range p.leaves(m.Key()) {
				p.addNode(ctx, in, "#1"+l, p.load(a, "{k}"+l, m.Key()))
			}
			for _, l := range p.leaves(m.Elem()) {
				p.addNode(ctx, in, "#2"+l, p.load(a, "{v}"+l, m.Elem()))
			}
		}
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = "#0"
		}
		id := p.typID(in.AssertedType)
		for l := range p.get(ctx, in.X, "") {
			if types.IsInterface(in.AssertedType) {
				if l.dyn == 0 || types.Implements(p.typList[l.dyn], in.AssertedType.Underlying().(*types.Interface)) {
					p.addNode(ctx, in, pre, one(l))
				}
				continue
			}
			if l.dyn != 0 && l.dyn != id {
				continue
			}
			l.dyn = 0
			if pointerLike(in.AssertedType) {
				p.addNode(ctx, in, pre, one(l))
			} else {
				for _, lf := range p.leaves(in.AssertedType) {
					p.addNode(ctx, in, pre+lf, p.load(l, lf, in.AssertedType))
				}
			}
		}
	case *ssa.Store:
		s := p.get(ctx, in.Addr, "")
		p.wrote(ctx, in, s, "", "writes")
		for a := range s {
			for _, l := range p.leaves(in.Val.Type()) {
				p.addMem(a.o, a.path+l, p.get(ctx, in.Val, l))
			}
		}
	case *ssa.MapUpdate:
		s := p.get(ctx, in.Map, "")
		p.wrote(ctx, in, s, "{v}", "updates the map at")
		for a := range s {
			for _, l := range p.leaves(in.Key.Type()) {
				p.addMem(a.o, a.path+"{k}"+l, p.get(ctx, in.Key, l))
			}
			for _, l := range p.leaves(in.Value.Type()) {
				p.addMem(a.o, a.path+"{v}"+l, p.get(ctx, in.Value, l))
			}
		}
	case *ssa.Send:
		s := p.get(ctx, in.Chan, "")
		p.wrote(ctx, in, s, "[]", "sends on")
		for a := range s {
			for _, l := range p.leaves(in.X.Type()) {
				p.addMem(a.o, a.path+"[]"+l, p.get(ctx, in.X, l))
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			for _, l := range p.leaves(r.Type()) {
				p.addRet(ctx, f, fmt.Sprintf("#%d%s", i, l), p.get(ctx, r, l))
			}
		}
	case ssa.CallInstruction:
		p.call(f, ctx, in)
	}
}

func (p *pta) addMem2(o int32, path string, s pset) {
	k := pmem{o, path}
	d := p.mem[k]
	if d == nil {
		d = pset{}
		p.mem[k] = d
	}
	for l := range s {
		if _, ok := d[l]; !ok {
			d[l] = struct{}{}
			p.changed = true
		}
	}
}

func (p *pta) addRet(ctx int, f *ssa.Function, path string, s pset) {
	if len(s) == 0 {
		return
	}
	k := pnode{ctx, f, path}
	d := p.rets[k]
	if d == nil {
		d = pset{}
		p.rets[k] = d
	}
	for l := range s {
		if _, ok := d[l]; !ok {
			d[l] = struct{}{}
			p.changed = true
		}
	}
}

// analysable: functions whose bodies are followed.
func (p *pta) analysable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if p.w.inModule(f) {
		return true
	}
	return f.Synthetic != "" && f.Pkg == nil // wrappers, thunks, bound methods
}

func (p *pta) call(f *ssa.Function, ctx int, c ssa.CallInstruction) {
	com := c.Common()
	if com.IsInvoke() {
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		for l := range p.get(ctx, com.Value, "") {
			if l.dyn == 0 {
				if l.o == sharedObj {
					gs := p.w.callees(c)
					for _, g := range gs {
						p.callFn(f, ctx, c, g, -1, one(ploc{o: sharedObj}))
					}
					if len(gs) > 0 {
						continue // implementations from outside the module are not in scope
					}
				}
				p.foreignCall(f, ctx, c, com.Method.FullName(), com.Method.Name(), one(l))
				continue
			}
			t := p.typList[l.dyn]
			if it == nil || !types.Implements(t, it) {
				continue
			}
			m := p.w.prog.LookupMethod(t, com.Method.Pkg(), com.Method.Name())
			if m == nil {
				continue
			}
			l.dyn = 0
			p.callFn(f, ctx, c, m, -1, one(l))
		}
		return
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		p.builtin(f, ctx, c, b)
		return
	}
	if g := com.StaticCallee(); g != nil {
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for l := range p.get(ctx, mc, "") {
				p.callFn(f, ctx, c, g, l.o, nil)
			}
			return
		}
		p.callFn(f, ctx, c, g, -1, nil)
		return
	}
	// function value
	for l := range p.get(ctx, com.Value, "") {
		switch p.objs[l.o].kind {
		case oFunc:
			g := p.objs[l.o].fn
			if types.Identical(stripRecv(g.Signature), stripRecv(com.Signature())) {
				p.callFn(f, ctx, c, g, l.o, nil)
			}
		case oShared:
			gs := p.w.callees(c)
			for _, g := range gs {
				o := int32(-1)
				if len(g.FreeVars) > 0 {
					o = sharedObj
				}
				p.callFn(f, ctx, c, g, o, nil)
			}
			if len(gs) == 0 {
				p.foreignCall(f, ctx, c, "", "", nil)
			}
		default:
			p.foreignCall(f, ctx, c, "", "", nil)
		}
	}
}

// callFn passes the arguments of c to g; recv is the receiver of an invoke.
func (p *pta) callFn(f *ssa.Function, ctx int, c ssa.CallInstruction, g *ssa.Function, clo int32, recv pset) {
	if !p.analysable(g) {
		p.foreignCall(f, ctx, c, g.String(), g.Name(), recv)
		return
	}
	nc := p.push(ctx, c)
	p.enter(g, nc)
	i := 0
	if recv != nil {
		t := g.Params[0].Type()
		if pointerLike(t) {
			p.bind(g, nc, 0, "", recv)
		} else {
			for l := range recv {
				for _, lf := range p.leaves(t) {
					p.bind(g, nc, 0, lf, p.load(l, lf, t))
				}
			}
		}
		i = 1
	}
	for _, a := range c.Common().Args {
		for _, lf := range p.leaves(a.Type()) {
			p.bind(g, nc, i, lf, p.get(ctx, a, lf))
		}
		i++
	}
	if len(g.FreeVars) > 0 {
		for j, fv := range g.FreeVars {
			for _, lf := range p.leaves(fv.Type()) {
				if clo == sharedObj {
					p.addNode(nc, fv, lf, one(ploc{o: sharedObj}))
				} else if clo >= 0 {
					p.addNode(nc, fv, lf, p.mem[pmem{clo, fmt.Sprintf("^%d%s", j, lf)}])
				}
			}
		}
	}
	if v, ok := c.(ssa.Value); ok {
		p.results(ctx, v, g, nc)
	}
}

func (p *pta) results(ctx int, v ssa.Value, g *ssa.Function, nc int) {
	single := g.Signature.Results().Len() == 1
	for i := 0; i < g.Signature.Results().Len(); i++ {
		for _, lf := range p.leaves(g.Signature.Results().At(i).Type()) {
			key := fmt.Sprintf("#%d%s", i, lf)
			dst := key
			if single {
				dst = lf
			}
			p.addNode(ctx, v, dst, p.rets[pnode{nc, g, key}])
		}
	}
}

func (p *pta) builtin(f *ssa.Function, ctx int, c ssa.CallInstruction, b *ssa.Builtin) {
	args := c.Common().Args
	v, _ := c.(ssa.Value)
	switch b.Name() {
	case "append":
		st := v.Type().Underlying().(*types.Slice)
		d := p.get(ctx, args[0], "")
		if !fullSlice(args[0]) {
			p.wrote(ctx, c, d, "[]", "appends in place to")
		}
		nl := p.fresh(ctx, v, "")
		p.addNode(ctx, v, "", d)
		p.addNode(ctx, v, "", one(nl))
		for _, lf := range p.leaves(st.Elem()) {
			for l := range d {
				p.addMem(nl.o, "[]"+lf, p.load(l, "[]"+lf, st.Elem()))
			}
			if _, ok := args[1].Type().Underlying().(*types.Slice); !ok {
				continue
			}
			for l := range p.get(ctx, args[1], "") {
				s := p.load(l, "[]"+lf, st.Elem())
				p.addMem(nl.o, "[]"+lf, s)
				for l2 := range d {
					p.addMem(l2.o, l2.path+"[]"+lf, s)
				}
			}
		}
	case "copy":
		d := p.get(ctx, args[0], "")
		p.wrote(ctx, c, d, "[]", "copies into")
		st, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		if _, ok := args[1].Type().Underlying().(*types.Slice); !ok {
			return
		}
		for _, lf := range p.leaves(st.Elem()) {
			for l := range p.get(ctx, args[1], "") {
				s := p.load(l, "[]"+lf, st.Elem())
				for l2 := range d {
					p.addMem(l2.o, l2.path+"[]"+lf, s)
				}
			}
		}
	case "delete", "clear":
		p.wrote(ctx, c, p.get(ctx, args[0], ""), "{v}", "deletes from")
	case "close":
		p.wrote(ctx, c, p.get(ctx, args[0], ""), "", "closes")
	case "recover":
		if v != nil {
			p.addNode(ctx, v, "", one(ploc{o: foreignObj}))
		}
	case "min", "max", "len", "cap", "print", "println", "panic", "real", "imag", "complex", "ssa:wrapnilchk":
		if b.Name() == "ssa:wrapnilchk" {
			p.addNode(ctx, v, "", p.get(ctx, args[0], ""))
		}
	default:
		if v != nil {
			for _, a := range args {
				for _, lf := range p.leaves(v.Type()) {
					p.addNode(ctx, v, lf, p.get(ctx, a, lf))
				}
			}
		}
	}
}

// fullSlice: a slice whose capacity is its length, so appending copies.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.High == s.Max {
		return true
	}
	a, ok1 := s.High.(*ssa.Const)
	b, ok2 := s.Max.(*ssa.Const)
	return ok1 && ok2 && a.Value != nil && b.Value != nil && a.Value.ExactString() == b.Value.ExactString()
}

// pureForeign: foreign functions that leave the memory they are handed alone
// (the listed argument positions aside).
func pureForeign(full string) (bool, map[int]bool) {
	switch full {
	case "unicode/utf8.EncodeRune", "unicode/utf8.AppendRune", "unicode/utf16.AppendRune":
		return true, map[int]bool{0: true}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fscan", "fmt.Fscanf", "fmt.Fscanln", "io.WriteString", "encoding/binary.Write":
		return true, map[int]bool{0: true}
	case "encoding/binary.Read":
		return true, map[int]bool{0: true, 2: true}
	case "io.Copy", "io.ReadFull", "io.CopyN":
		return true, map[int]bool{0: true, 1: true}
	case "io.ReadAll", "bufio.NewReader", "bufio.NewWriter", "bufio.NewScanner", "bufio.NewReaderSize", "bufio.NewWriterSize":
		return true, map[int]bool{0: true}
	case "os.(*File).Fd", "os.(*File).Name":
		return true, nil
	}
	s := full
	method := false
	if strings.HasPrefix(s, "(") {
		method = true
		s = strings.TrimPrefix(strings.TrimPrefix(s, "("), "*")
	}
	switch {
	case method && strings.HasPrefix(s, "encoding/binary.littleEndian)."), method && strings.HasPrefix(s, "encoding/binary.bigEndian)."), method && strings.HasPrefix(s, "encoding/binary.ByteOrder)."):
		if strings.Contains(s, ").Put") || strings.Contains(s, ").Append") {
			return true, map[int]bool{1: true}
		}
		return true, nil
	case method && strings.HasPrefix(s, "golang.org/x/text/unicode/norm.Form)."):
		if strings.Contains(s, ").Append") {
			return true, map[int]bool{1: true}
		}
		return true, nil
	case method && (strings.HasPrefix(s, "regexp.Regexp).") || strings.HasPrefix(s, "reflect.") || strings.HasPrefix(s, "time.")):
		return true, nil
	case method && strings.HasSuffix(s, "error).Error"):
		return true, nil
	case method:
		return false, nil
	}
	for _, pk := range []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "unicode/utf16.", "math.", "math/bits.", "errors.", "fmt.", "bytes.", "path.", "path/filepath.", "regexp.", "hash/crc32.", "cmp.", "reflect.", "time."} {
		if strings.HasPrefix(s, pk) {
			return true, nil
		}
	}
	if strings.HasPrefix(s, "strings.") {
		return true, nil
	}
	switch s {
	case "sort.Search", "sort.SearchInts", "sort.SearchStrings", "sort.SliceIsSorted", "sort.IntsAreSorted",
		"slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "slices.BinarySearch", "slices.Max", "slices.Min", "maps.Clone":
		return true, nil
	}
	return false, nil
}

func (p *pta) foreignCall(f *ssa.Function, ctx int, c ssa.CallInstruction, full, name string, recv pset) {
	com := c.Common()
	pure, except := pureForeign(full)
	if i := strings.Index(full, "["); i > 0 && !pure { // instantiated generic
		pure, except = pureForeign(full[:i])
	}
	var sets []pset
	var typs []types.Type
	if recv != nil {
		sets = append(sets, undyn(recv))
		typs = append(typs, com.Value.Type())
	}
	sig := com.Signature()
	off := len(sets)
	for _, a := range com.Args {
		s := pset{}
		for _, lf := range p.leaves(a.Type()) {
			for l := range p.get(ctx, a, lf) {
				s[l] = struct{}{}
			}
		}
		sets = append(sets, s)
		typs = append(typs, a.Type())
	}
	all := pset{}
	for i, s := range sets {
		if !pure || except[i] {
			if !pure && typs[i] != nil {
				if _, isFn := typs[i].Underlying().(*types.Signature); isFn {
					goto next
				}
			}
			if full != "" || recv != nil {
				p.wrote(ctx, c, s, "", "passes to "+short(full)+", which may write to it,")
			} else {
				p.wrote(ctx, c, s, "", "passes to foreign code, which may write to it,")
			}
		}
	next:
		for l := range s {
			all[l] = struct{}{}
			// foreign code may call back
			if p.objs[l.o].kind == oFunc {
				p.callback(ctx, c, p.objs[l.o].fn, l.o, nil)
			}
		}
		// methods of module types handed over in interfaces
		var it *types.Interface
		variadic := false
		j := i - off
		if j >= 0 {
			k := j
			if sig.Recv() != nil && !com.IsInvoke() {
				k--
			}
			if k >= 0 && sig.Params().Len() > 0 {
				pt := sig.Params().At(min(k, sig.Params().Len()-1)).Type()
				if sig.Variadic() && k >= sig.Params().Len()-1 {
					if sl, ok := sig.Params().At(sig.Params().Len() - 1).Type().Underlying().(*types.Slice); ok {
						pt = sl.Elem()
						variadic = true
					}
				}
				it, _ = pt.Underlying().(*types.Interface)
			}
		}
		if it != nil {
			ls := s
			if variadic {
				ls = pset{}
				for l := range s {
					for x := range p.load(l, "[]", nil) {
						ls[x] = struct{}{}
					}
				}
			}
			for l := range ls {
				if l.dyn == 0 {
					continue
				}
				t := p.typList[l.dyn]
				var ms []string
				for q := 0; q < it.NumMethods(); q++ {
					ms = append(ms, it.Method(q).Name())
				}
				if strings.HasPrefix(full, "fmt.") {
					ms = append(ms, "String", "Error", "Format", "GoString")
				}
				for _, mn := range ms {
					set := p.w.prog.MethodSets.MethodSet(t)
					for q := 0; q < set.Len(); q++ {
						if set.At(q).Obj().Name() != mn {
							continue
						}
						if m := p.w.prog.MethodValue(set.At(q)); m != nil && p.analysable(m) {
							ll := l
							ll.dyn = 0
							p.callback(ctx, c, m, -1, one(ll))
						}
					}
				}
			}
		}
	}
	v, ok := c.(ssa.Value)
	if !ok {
		return
	}
	var rts []types.Type
	pres := []string{}
	if tu, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			rts = append(rts, tu.At(i).Type())
			pres = append(pres, fmt.Sprintf("#%d", i))
		}
	} else if v.Type() != nil {
		rts = append(rts, v.Type())
		pres = append(pres, "")
	}
	for i, rt := range rts {
		if isErrorType(rt) {
			p.addNode(ctx, v, pres[i], one(ploc{o: foreignObj}))
			continue
		}
		for _, lf := range p.leaves(rt) {
			nl := p.fresh(ctx, v, "r"+pres[i]+lf)
			p.addNode(ctx, v, pres[i]+lf, one(nl))
			p.addMem(nl.o, "*", undynKeep(all))
			// results of the type of an argument may be that argument
			for j := range sets {
				if typs[j] != nil && types.Identical(typs[j], rt) && !freshResult(full) {
					p.addNode(ctx, v, pres[i]+lf, sets[j])
				}
			}
		}
	}
}

// freshResult: functions that never return (parts of) an argument.
func freshResult(full string) bool {
	return strings.HasPrefix(full, "(golang.org/x/text/unicode/norm.Form).Append") == false && strings.HasPrefix(full, "(golang.org/x/text/unicode/norm.Form).") ||
		full == "bytes.Clone" || full == "slices.Clone" || full == "bytes.ToLower" || full == "bytes.ToUpper" || full == "bytes.Repeat" || full == "bytes.Join"
}

func undynKeep(s pset) pset { return s }

func short(full string) string {
	return strings.ReplaceAll(full, "github.com/msnoigrs/", "")
}

func (p *pta) callback(ctx int, c ssa.CallInstruction, g *ssa.Function, clo int32, recv pset) {
	if !p.analysable(g) {
		return
	}
	nc := p.push(ctx, c)
	p.enter(g, nc)
	for i, prm := range g.Params {
		if i == 0 && recv != nil {
			if pointerLike(prm.Type()) {
				p.bind(g, nc, 0, "", recv)
			} else {
				for l := range recv {
					for _, lf := range p.leaves(prm.Type()) {
						p.bind(g, nc, 0, lf, p.load(l, lf, prm.Type()))
					}
				}
			}
			continue
		}
		for _, lf := range p.leaves(prm.Type()) {
			p.bind(g, nc, i, lf, one(ploc{o: foreignObj}))
		}
	}
	for j, fv := range g.FreeVars {
		for _, lf := range p.leaves(fv.Type()) {
			if clo >= 0 {
				p.addNode(nc, fv, lf, p.mem[pmem{clo, fmt.Sprintf("^%d%s", j, lf)}])
			}
		}
	}
}

// sortedWrites lists the writes in source order.
func (p *pta) sortedWrites() []pwrite {
	var out []pwrite
	for _, x := range p.writes {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := p.w.posOf(out[i].at), p.w.posOf(out[j].at)
		if a != b {
			return a < b
		}
		if out[i].loc.o != out[j].loc.o {
			return out[i].loc.o < out[j].loc.o
		}
		return out[i].loc.path < out[j].loc.path
	})
	return out
}

// functions lists the functions analysed.
func (p *pta) functions() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, x := range p.fns {
		out[x.f] = true
	}
	return out
}
