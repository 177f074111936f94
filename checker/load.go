package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	root     string
	modpath  string
	tier     string
	fset     *token.FileSet
	pkgs     []*packages.Package // module packages
	prog     *ssa.Program
	spkg     map[string]*ssa.Package // by import path
	allFns   []*ssa.Function         // every module function with a body, anonymous ones included
	modPkg   map[*types.Package]bool
	cg       *callGraph
	methods  map[string][]*ssa.Function // module methods by name (for invoke)
	globInit map[*ssa.Global][]ssa.Value
	fstores  map[*ssa.Function]map[fieldRef]bool
}

// Load loads, type-checks and builds SSA for the module at root, exactly the
// files the build uses (go list with the default build constraints).
func Load(root string) (*World, error) {
	env := append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=-mod=mod")
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Env: env, Fset: fset}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, errors.New(strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, errors.New("no packages")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{root: root, fset: fset, pkgs: ps, prog: prog, spkg: map[string]*ssa.Package{}, modPkg: map[*types.Package]bool{}, methods: map[string][]*ssa.Function{}}
	if ps[0].Module != nil {
		w.modpath = ps[0].Module.Path
	} else {
		return nil, errors.New("no module")
	}
	for _, p := range ps {
		w.modPkg[p.Types] = true
		w.spkg[p.PkgPath] = prog.Package(p.Types)
	}
	for f := range ssautil.AllFunctions(prog) {
		if w.inModule(f) && len(f.Blocks) > 0 && f.Synthetic == "" {
			w.allFns = append(w.allFns, f)
		} else if w.inModule(f) && f.Name() == "init" && f.Synthetic != "" && f.Parent() == nil && len(f.Blocks) > 0 && f.Signature.Recv() == nil {
			w.allFns = append(w.allFns, f)
		}
	}
	sort.Slice(w.allFns, func(i, j int) bool { return w.fnKey(w.allFns[i]) < w.fnKey(w.allFns[j]) })
	for _, f := range w.allFns {
		if f.Signature.Recv() != nil {
			w.methods[f.Name()] = append(w.methods[f.Name()], f)
		}
	}
	w.buildGlobals()
	return w, nil
}

func (w *World) fnKey(f *ssa.Function) string {
	return fmt.Sprintf("%s@%09d", f.RelString(nil), f.Pos())
}

// inModule reports whether f's source is in the module (anonymous functions
// and instantiations included).
func (w *World) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return w.modPkg[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return w.modPkg[o.Pkg()]
	}
	return false
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// posOf finds a position for an instruction, falling back on its neighbours.
func (w *World) posOf(i ssa.Instruction) string {
	if i.Pos().IsValid() {
		return w.pos(i.Pos())
	}
	if v, ok := i.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return w.pos(r.Pos())
				}
			}
		}
	}
	if b := i.Block(); b != nil {
		for _, j := range b.Instrs {
			if j.Pos().IsValid() {
				return w.pos(j.Pos())
			}
		}
	}
	return w.pos(i.Parent().Pos())
}

// name of a function without the module prefix
func (w *World) fname(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, w.modpath+"/", "")
	s = strings.ReplaceAll(s, w.modpath, "gosudachi")
	return s
}

// pkgFunc returns the package-level function or nil.
func (w *World) pkgFunc(rel, name string) *ssa.Function {
	p := w.spkg[w.rel(rel)]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *World) rel(rel string) string {
	if rel == "" {
		return w.modpath
	}
	return w.modpath + "/" + rel
}

// typ returns the named type, or nil.
func (w *World) typ(rel, name string) *types.Named {
	p := w.spkg[w.rel(rel)]
	if p == nil {
		return nil
	}
	o, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// method returns the SSA function of method name on *T.
func (w *World) method(rel, typ, name string) *ssa.Function {
	n := w.typ(rel, typ)
	if n == nil {
		return nil
	}
	sel := w.prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	f := w.prog.MethodValue(sel)
	// unwrap promoted / value-receiver wrappers
	if f != nil && f.Synthetic != "" {
		if o, ok := sel.Obj().(*types.Func); ok {
			if g := w.prog.FuncValue(o); g != nil {
				return g
			}
		}
	}
	return f
}

func (w *World) file(rel string) (*ast.File, *packages.Package) {
	for _, p := range w.pkgs {
		for i, f := range p.CompiledGoFiles {
			if strings.HasSuffix(f, "/"+rel) {
				return p.Syntax[i], p
			}
		}
	}
	return nil, nil
}

// must aborts the check when an anchor is missing.
func (w *World) must(f *ssa.Function, what string) *ssa.Function {
	if f == nil || len(f.Blocks) == 0 {
		panic("anchor not found: " + what)
	}
	return f
}

// ---- globals -----------------------------------------------------------

// buildGlobals records, for every module global, the values stored to it and
// whether anything but package initialisation stores to it.
func (w *World) buildGlobals() {
	w.globInit = map[*ssa.Global][]ssa.Value{}
	for f := range ssautil.AllFunctions(w.prog) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						v := st.Val
						if !isInitFn(f) {
							v = nil
						}
						w.globInit[g] = append(w.globInit[g], v)
					}
				}
			}
		}
	}
}

func isInitFn(f *ssa.Function) bool {
	return f.Parent() == nil && f.Signature.Recv() == nil && f.Name() == "init"
}

// globConst returns the only value ever stored to g, when package
// initialisation stores it.
func (w *World) globValue(g *ssa.Global) ssa.Value {
	vs := w.globInit[g]
	if len(vs) == 1 && vs[0] != nil {
		return vs[0]
	}
	return nil
}

// ---- call graph ----------------------------------------------------------

type callGraph struct {
	callers map[*ssa.Function][]ssa.CallInstruction
}

// callees resolves a call: static, closure, interface method (class
// hierarchy over the module's types, plus nothing outside), or function value
// (by signature over the module's address-taken functions).
func (w *World) callees(c ssa.CallInstruction) []*ssa.Function {
	com := c.Common()
	if f := com.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if com.IsInvoke() {
		var out []*ssa.Function
		it, _ := com.Value.Type().Underlying().(*types.Interface)
		for _, m := range w.methods[com.Method.Name()] {
			rt := m.Signature.Recv().Type()
			if it != nil && (types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it)) {
				out = append(out, m)
			}
		}
		return out
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil
	}
	// function value
	var out []*ssa.Function
	for _, f := range w.addrTaken() {
		if types.Identical(stripRecv(f.Signature), stripRecv(com.Signature())) {
			out = append(out, f)
		}
	}
	return out
}

// knownCallees: everything that the call may run is in the module.
func (w *World) knownCallees(c ssa.CallInstruction) bool {
	com := c.Common()
	if !com.IsInvoke() {
		g := com.StaticCallee()
		return g != nil && w.inModule(g)
	}
	if p := com.Method.Pkg(); p == nil || !w.modPkg[p] {
		return false
	}
	fs := w.callees(c)
	for _, g := range fs {
		if g == nil || !w.inModule(g) {
			return false
		}
	}
	return len(fs) > 0
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

var addrTakenCache map[*World][]*ssa.Function = map[*World][]*ssa.Function{}

// addrTaken lists the module functions used as values.
func (w *World) addrTaken() []*ssa.Function {
	if r, ok := addrTakenCache[w]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					var g *ssa.Function
					switch v := (*op).(type) {
					case *ssa.Function:
						if v == callee {
							continue
						}
						g = v
					default:
						continue
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
						// a closure value is address taken unless only called
					}
					if g != nil && !seen[g] && w.inModule(g) {
						seen[g] = true
						out = append(out, g)
					}
				}
			}
		}
	}
	addrTakenCache[w] = out
	return out
}

// reachable returns the module functions reachable from roots over resolved
// calls and over references to function values.
func (w *World) reachable(roots []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if !w.inModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() || c.Common().StaticCallee() != nil {
						for _, g := range w.callees(c) {
							visit(g)
						}
					}
					// a module value passed to foreign code as an interface
					// may have its methods called there
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					// methods foreign code may call through the interface
					ms := w.prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						m := w.prog.MethodValue(ms.At(i))
						if m == nil {
							continue
						}
						it, ok := mi.Type().Underlying().(*types.Interface)
						if ok && hasMethod(it, ms.At(i).Obj().Name()) {
							visit(m)
							if o, ok := ms.At(i).Obj().(*types.Func); ok {
								visit(w.prog.FuncValue(o))
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// mainFns returns main.main of the given command directories; missing ones
// are an error.
func (w *World) mainFns(dirs ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, d := range dirs {
		out = append(out, w.must(w.pkgFunc(d, "main"), d+": func main"))
	}
	return out
}

func sortedFns(w *World, m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.allFns {
		if m[f] {
			out = append(out, f)
		}
	}
	return out
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

// errResult returns the index of the last error result, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func debugDump(w *World, what string) {
	for _, f := range w.allFns {
		if strings.Contains(w.fname(f), what) {
			f.WriteTo(os.Stdout)
		}
	}
}
