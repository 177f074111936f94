package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "path-sensitive ownership typestate of files and mappings; completeness of Close", checkRelease)
}

type resInfo struct {
	kind string
	pos  string
	fn   string
}

type relState struct {
	res    map[cv]resInfo     // held
	own    map[cv]map[cv]bool // resource -> containers and owners
	pend   map[cv]string      // Close check: element loaded, not yet released
	walked map[string]bool    // Close check: slices traversed completely
	elems  map[cv]bool        // Close check: element values
}

type relClient struct {
	w        *World
	r        *Report
	entry    *ssa.Function
	rel      map[*ssa.Function]bool
	closable map[*types.TypeName]bool
	owned    map[string]map[string]bool // type name -> fields that hold resources
	sites    map[ssa.Instruction]bool
	seen     map[string]bool
	closeOf  *types.Named // verifying this type's Close
}

func (c *relClient) clone(d any) any {
	n := &relState{map[cv]resInfo{}, map[cv]map[cv]bool{}, map[cv]string{}, map[string]bool{}, map[cv]bool{}}
	if d == nil {
		return n
	}
	o := d.(*relState)
	for a, b := range o.res {
		n.res[a] = b
	}
	for a, b := range o.own {
		m := map[cv]bool{}
		for x := range b {
			m[x] = true
		}
		n.own[a] = m
	}
	for a, b := range o.pend {
		n.pend[a] = b
	}
	for a := range o.walked {
		n.walked[a] = true
	}
	for a := range o.elems {
		n.elems[a] = true
	}
	return n
}

func (c *relClient) key(d any) string {
	o := d.(*relState)
	var ks []string
	for a := range o.res {
		ks = append(ks, a)
		for b := range o.own[a] {
			ks = append(ks, a+"<"+b)
		}
	}
	for a := range o.pend {
		ks = append(ks, "p"+a)
	}
	for a := range o.walked {
		ks = append(ks, "w"+a)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (c *relClient) rename(d any, from, to cv) {
	o := d.(*relState)
	r := func(x string) string { return strings.ReplaceAll(x, from, to) }
	nr, no, np := map[cv]resInfo{}, map[cv]map[cv]bool{}, map[cv]string{}
	for a, b := range o.res {
		nr[r(a)] = b
	}
	for a, b := range o.own {
		m := map[cv]bool{}
		for x := range b {
			m[r(x)] = true
		}
		no[r(a)] = m
	}
	for a, b := range o.pend {
		np[r(a)] = b
	}
	o.res, o.own, o.pend = nr, no, np
}

func (c *relClient) uses(d any, x cv) bool {
	o := d.(*relState)
	for a := range o.res {
		if strings.Contains(a, x) {
			return true
		}
		for b := range o.own[a] {
			if strings.Contains(b, x) {
				return true
			}
		}
	}
	for a := range o.pend {
		if strings.Contains(a, x) {
			return true
		}
	}
	return false
}

func stripSlice(a cv) cv { return strings.TrimSuffix(a, "[:]") }

// carried: the resources v is or contains.
func (o *relState) carried(v cv) []cv {
	v = stripSlice(v)
	var out []cv
	for r := range o.res {
		hit := r == v || o.own[r][v]
		for b := range o.own[r] {
			if strings.HasPrefix(b, v+".") {
				hit = true
			}
		}
		if hit {
			out = append(out, r)
		}
	}
	sort.Strings(out)
	return out
}

func (o *relState) addOwner(r, b cv) {
	if o.own[r] == nil {
		o.own[r] = map[cv]bool{}
	}
	o.own[r][b] = true
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (c *relClient) store(k *walker, s *wstate, addr, val cv, in ssa.Instruction) {
	o := s.data.(*relState)
	rs := o.carried(val)
	// what the place held before is no longer held there
	if !strings.HasSuffix(addr, "]") {
		for r, m := range o.own {
			if m[addr] && !contains(rs, r) {
				delete(m, addr)
			}
		}
	}
	if len(rs) == 0 {
		return
	}
	var link cv
	switch st := in.(type) {
	case *ssa.Store:
		switch a := st.Addr.(type) {
		case *ssa.FieldAddr:
			n := namedOf(a.X.Type())
			if n != nil && c.closable[n.Obj()] {
				fld := n.Underlying().(*types.Struct).Field(a.Field).Name()
				c.own(n, fld)
				link = addr
			}
		case *ssa.IndexAddr:
			link = rootOf(addr)
			if i := strings.LastIndexByte(addr, '['); i > 0 {
				link = addr[:i]
			}
		case *ssa.Global:
			link = addr
		}
	default:
		link = strings.TrimSuffix(addr, "[*]")
	}
	if link == "" {
		return
	}
	for _, r := range rs {
		o.addOwner(r, stripSlice(link))
	}
}

func contains(l []cv, x cv) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (c *relClient) own(n *types.Named, fld string) {
	key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if c.owned[key] == nil {
		c.owned[key] = map[string]bool{}
	}
	c.owned[key][fld] = true
}

func (c *relClient) branch(k *walker, s *wstate, in *ssa.If, e int) bool {
	o := s.data.(*relState)
	cond := k.val(s, s.top().fid, in.Cond)
	t := e == 0
	for strings.HasPrefix(cond, "!") {
		cond, t = cond[1:], !t
	}
	// a nil resource needs no release
	for r := range o.res {
		if s.facts["nil?"+r] == -1 {
			delete(o.res, r)
			delete(o.own, r)
		}
	}
	for r := range o.pend {
		if s.facts["nil?"+r] == -1 {
			delete(o.pend, r)
		}
	}
	op, a, b, ok := splitExpr(cond)
	if !ok {
		return true
	}
	// emptiness
	if strings.HasPrefix(a, "len(") && b == "#0" {
		if op == "==" && t || (op == "!=" || op == ">") && !t {
			x := strings.TrimSuffix(strings.TrimPrefix(a, "len("), ")")
			delete(o.res, x)
			o.walked[x] = true
		}
	}
	// the end of a complete traversal
	if f, okf := fullTraversal(in, e); okf && !k.w.listChangesIn(in.Block(), f) {
		o.walked[stripSlice(k.val(s, s.top().fid, f))] = true
		if u, ok := f.(*ssa.UnOp); ok && c.closeOf != nil {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == c.closeOf {
				o.walked["{own:"+c.closeOf.Underlying().(*types.Struct).Field(fa.Field).Name()+"}"] = true
			}
		}
	}
	return true
}

// fullTraversal: edge e of the If leaves a loop that visited every index of
// the returned slice.
func fullTraversal(in *ssa.If, e int) (ssa.Value, bool) {
	cmp, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	op := cmp.Op.String()
	x, y := cmp.X, cmp.Y
	if op == ">" || op == "<=" {
		// n > i, or i <= n-1 (not handled)
		if op == ">" {
			x, y, op = y, x, "<"
		}
	}
	lenOf := func(v ssa.Value) ssa.Value {
		c, ok := v.(*ssa.Call)
		if !ok {
			return nil
		}
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return nil
		}
		return c.Call.Args[0]
	}
	isInt := func(v ssa.Value, n int64) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == n
	}
	step := func(v ssa.Value, p *ssa.Phi, d int64) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return false
		}
		return b.Op.String() == "+" && isInt(b.Y, d) || b.Op.String() == "-" && isInt(b.Y, -d)
	}
	if (op == "<" || op == "!=") && e == 1 {
		s := lenOf(y)
		if s == nil {
			return nil, false
		}
		start := int64(0)
		p, ok := x.(*ssa.Phi)
		if !ok {
			// range: index = phi + 1, phi starts at -1
			b, okb := x.(*ssa.BinOp)
			if !okb {
				return nil, false
			}
			p, ok = b.X.(*ssa.Phi)
			if !ok || !step(b, p, 1) {
				return nil, false
			}
			start = -1
			for _, ed := range p.Edges {
				if ed != ssa.Value(b) && !isInt(ed, start) {
					return nil, false
				}
			}
			return s, true
		}
		for _, ed := range p.Edges {
			if !isInt(ed, start) && !step(ed, p, 1) {
				return nil, false
			}
		}
		return s, true
	}
	if op == ">=" && e == 1 && isInt(y, 0) {
		p, ok := x.(*ssa.Phi)
		if !ok {
			return nil, false
		}
		var s ssa.Value
		for _, ed := range p.Edges {
			if step(ed, p, -1) {
				continue
			}
			b, ok := ed.(*ssa.BinOp)
			if !ok || b.Op.String() != "-" || !isInt(b.Y, 1) {
				return nil, false
			}
			if l := lenOf(b.X); l != nil {
				s = l
			}
		}
		return s, s != nil
	}
	return nil, false
}

func (c *relClient) elem(k *walker, s *wstate, addr cv, in *ssa.UnOp) cv {
	o := s.data.(*relState)
	i := strings.LastIndexByte(addr, '[')
	base := addr[:i]
	if !strings.HasPrefix(base, "{own:") || c.closeOf == nil {
		return ""
	}
	e := base + ".elem"
	if _, ok := o.pend[e]; ok {
		c.report(k, s, "close-elem:"+c.closeOf.Obj().Name(), c.w.posOf(in), c.closeOf.Obj().Name()+".Close can go on to the next of the dictionaries it holds without having released this one")
	}
	delete(s.facts, "nil?"+e)
	o.pend[e] = c.w.posOf(in)
	o.elems[e] = true
	return e
}

func (c *relClient) report(k *walker, s *wstate, key, pos, msg string) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.r.add(Finding{Key: key, Rule: "release", Pos: pos, Msg: msg, Path: k.trail(s)})
}

// acquires: does the call hand out a file or mapping? The index of the
// result, or -1.
func (c *relClient) acquires(ci ssa.CallInstruction, callee *ssa.Function) (int, string) {
	sig := ci.Common().Signature()
	if sig.Results().Len() != 2 || errResult(sig) != 1 {
		return -1, ""
	}
	if callee != nil && c.w.inModule(callee) && callee.Pkg != nil && callee.Pkg.Pkg.Path() != c.w.rel("internal/mmap") {
		return -1, ""
	}
	t := types.TypeString(sig.Results().At(0).Type(), nil)
	switch t {
	case "*os.File", "net/http.File", "io/fs.File", "io.ReadCloser", "io.WriteCloser", "io.ReadWriteCloser", "io.Closer":
		return 0, "file"
	case "[]byte":
		if calleeName(ci) == "Mmap" {
			return 0, "mapping"
		}
	}
	return -1, ""
}

func (c *relClient) isCloserOf(t types.Type) *types.Named {
	n := namedOf(t)
	if n != nil && c.closable[n.Obj()] {
		return n
	}
	return nil
}

func (c *relClient) call(k *walker, s *wstate, ci ssa.CallInstruction, callee *ssa.Function, args []cv, deferred bool) ([]*wstate, bool) {
	o := s.data.(*relState)
	name := calleeName(ci)
	if b, ok := ci.Common().Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			if call, ok := ci.(*ssa.Call); ok {
				x := k.val(s, s.top().fid, call)
				for _, a := range args {
					for _, r := range o.carried(a) {
						o.addOwner(r, x)
					}
				}
			}
		}
		return nil, false
	}
	if callee != nil {
		name = callee.Name()
	}
	// releases
	if name == "Close" && len(args) > 0 {
		x := args[0]
		if callee == nil || !c.w.inModule(callee) || c.isCloserOf(callee.Signature.Recv().Type()) != nil {
			if _, ok := o.res[x]; ok {
				c.drop(o, x)
			}
			delete(o.pend, x)
			if callee != nil && c.w.inModule(callee) {
				for _, r := range o.carried(x) {
					c.drop(o, r)
				}
			}
			return nil, false
		}
	}
	if name == "Munmap" && len(args) > 0 {
		c.drop(o, stripSlice(args[0]))
		delete(o.pend, stripSlice(args[0]))
		return nil, false
	}
	if i, kind := c.acquires(ci, callee); i == 0 {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return nil, false
		}
		c.sites[call] = true
		fid := s.top().fid
		base := selfCV(fid, call)
		r0, r1 := base+".r0", base+".r1"
		tk := envKey(fid, call)
		good := s.clone(k)
		good.cells["~"+tk+"#0"] = r0
		good.cells["~"+tk+"#1"] = "nil"
		good.facts["nil?"+r0] = 1
		k.info[r0] = winfo{retVal(call, 0), 0}
		good.data.(*relState).res[r0] = resInfo{kind, c.w.posOf(call), c.w.fname(call.Parent())}
		bad := s.clone(k)
		bad.cells["~"+tk+"#0"] = "nil"
		bad.cells["~"+tk+"#1"] = r1
		bad.facts["nil?"+r1] = 1
		bad.note = c.w.posOf(call) + " (failing)"
		return []*wstate{good, bad}, false
	}
	if callee != nil && c.w.inModule(callee) {
		if callee.Pkg != nil && callee.Pkg.Pkg.Path() == c.w.rel("internal/mmap") {
			return nil, false
		}
		if c.rel[callee] {
			return nil, true
		}
		if len(callee.FreeVars) > 0 && callee.Parent() == ci.Parent() {
			return nil, c.rel[callee]
		}
	}
	return nil, false
}

// retVal finds the Extract of a tuple call, for its type.
func retVal(c *ssa.Call, i int) ssa.Value {
	for _, r := range *c.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			return x
		}
	}
	return nil
}

func (c *relClient) drop(o *relState, r cv) {
	delete(o.res, r)
	delete(o.own, r)
}

func (c *relClient) exit(k *walker, s *wstate, kind wexit, at ssa.Instruction, rs []cv) {
	o := s.data.(*relState)
	if kind != exitReturn {
		return
	}
	if c.closeOf != nil {
		for r, i := range o.res {
			if strings.HasPrefix(r, "{own:") {
				c.report(k, s, "close:"+c.closeOf.Obj().Name()+":"+i.kind, c.w.posOf(at), fmt.Sprintf("%s.Close can return at %s without having released its field %s", c.closeOf.Obj().Name(), c.w.posOf(at), i.kind))
			}
		}
		for _, where := range o.pend {
			c.report(k, s, "close-elem:"+c.closeOf.Obj().Name(), c.w.posOf(at), fmt.Sprintf("%s.Close can return at %s without having released the element taken at %s", c.closeOf.Obj().Name(), c.w.posOf(at), where))
		}
		st := c.closeOf.Underlying().(*types.Struct)
		for f := range c.owned[c.closeOf.Obj().Pkg().Path()+"."+c.closeOf.Obj().Name()] {
			if isSliceField(st, f) && !o.walked["{own:"+f+"}"] {
				c.report(k, s, "close-all:"+c.closeOf.Obj().Name()+":"+f, c.w.posOf(at), fmt.Sprintf("%s.Close can return at %s without having gone through every element of its field %s", c.closeOf.Obj().Name(), c.w.posOf(at), f))
			}
		}
		return
	}
	failing := false
	ei := errResult(c.entry.Signature)
	if ei >= 0 && ei < len(rs) && k.nilness(s, rs[ei]) == 1 {
		failing = true
	}
	for r, i := range o.res {
		ok := false
		chain := []cv{r}
		for b := range o.own[r] {
			chain = append(chain, b)
		}
		for _, b := range chain {
			root := rootOf(b)
			if root != "" && root[0] == '@' {
				ok = true
			}
			if in, has := k.info[root]; has && b != r {
				switch in.v.(type) {
				case *ssa.Parameter, *ssa.FreeVar:
					ok = true
				}
			}
			if !failing {
				for _, res := range rs {
					if x := stripSlice(res); x == b || strings.HasPrefix(b, x+".") {
						ok = true
					}
				}
			}
		}
		if ok {
			continue
		}
		what := "returns"
		if failing {
			what = "fails"
		}
		c.report(k, s, fmt.Sprintf("leak:%s:%s:%s:%v", c.w.fname(c.entry), i.fn, i.kind, failing), c.w.posOf(at), fmt.Sprintf("%s %s at %s while the %s acquired at %s is neither released nor handed out", c.w.fname(c.entry), what, c.w.posOf(at), i.kind, i.pos))
	}
}

func isSliceField(st *types.Struct, f string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				return false
			}
			b, isB := sl.Elem().Underlying().(*types.Basic)
			return !isB || b.Kind() != types.Uint8
		}
	}
	return false
}

func checkRelease(w *World, r *Report) {
	r.Explanation = "Every call in the library packages that opens a file or embedded resource or maps one is an acquisition. Every path of every exported function that can reach one is walked over SSA (helpers followed, deferred calls applied): at each return the resource is released, or stored in a closable object the caller holds, or (on success only) part of the result. Then every path of each such object's Close releases every field that was seen to receive a resource, slices element by element in a loop that visits every index."
	r.Assumptions = append(r.Assumptions, "Close and Munmap release their argument even when they return an error", "a foreign function given a file or mapping does not keep it")
	lib := func(f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil {
			return false
		}
		p := f.Pkg.Pkg
		return p.Name() != "main" && p.Path() != w.rel("internal/mmap") && p.Path() != w.rel("data")
	}
	closable := map[*types.TypeName]bool{}
	var closers []*types.Named
	for _, f := range w.methods["Close"] {
		if !lib(f) || f.Signature.Params().Len() != 0 {
			continue
		}
		if n := namedOf(f.Signature.Recv().Type()); n != nil {
			if _, ok := n.Underlying().(*types.Struct); ok && !closable[n.Obj()] {
				closable[n.Obj()] = true
				closers = append(closers, n)
			}
		}
	}
	base := &relClient{w: w, r: r, closable: closable, owned: map[string]map[string]bool{}, sites: map[ssa.Instruction]bool{}, seen: map[string]bool{}}
	isAcq := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		i, _ := base.acquires(ci, ci.Common().StaticCallee())
		return i >= 0
	}
	acq := transitively(w, isAcq)
	base.rel = transitively(w, func(in ssa.Instruction) bool {
		if isAcq(in) {
			return true
		}
		if ci, ok := in.(ssa.CallInstruction); ok {
			n := calleeName(ci)
			if n == "Close" || n == "Munmap" {
				return true
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if n := namedOf(fa.X.Type()); n != nil && closable[n.Obj()] && isResourceField(closable, fa) {
					return true
				}
			}
		}
		return false
	})
	for _, f := range w.allFns {
		if !acq[f] || !lib(f) || !isExportedAPI(f) {
			continue
		}
		cl := *base
		cl.entry = f
		k := newWalker(w, &cl)
		k.run(f, func(s *wstate, fid int) {
			// what a closable receiver already holds must stay held
			rv := f.Signature.Recv()
			if rv == nil || f.Name() == "Close" {
				return
			}
			n := namedOf(rv.Type())
			if n == nil || !closable[n.Obj()] {
				return
			}
			o := s.data.(*relState)
			pc := k.val(s, fid, f.Params[0])
			st := n.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i).Name()
				sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
				if !ok || !isSliceField(st, fl) || !isResourceType(closable, sl.Elem()) {
					continue
				}
				x := "{own:" + fl + "}"
				s.cells[pc+"."+fl] = x
				o.res[x] = resInfo{kind: "list of dictionaries held in " + fl, pos: w.pos(f.Pos()), fn: w.fname(f)}
				o.addOwner(x, pc+"."+fl)
				r.count("lists held on entry", 1)
			}
		})
		r.count("entry functions", 1)
		r.count("path states", k.steps)
		if debugSteps {
			fmt.Println(w.fname(f), k.steps)
		}
		r.oblige("entry " + w.fname(f))
		if k.gaveUp {
			r.add(Finding{Key: "undecided:" + w.fname(f), Rule: "undecided", Pos: w.pos(f.Pos()), Msg: "too many paths in " + w.fname(f)})
		}
	}
	for in := range base.sites {
		r.oblige("acquisition at " + w.posOf(in))
	}
	r.count("acquisition sites", len(base.sites))
	for _, f := range w.allFns {
		if !lib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isAcq(in) && !base.sites[in] {
					r.add(Finding{Key: "unwalked:" + w.fname(f), Rule: "undecided", Pos: w.posOf(in), Msg: "this acquisition is on no analysed path"})
				}
			}
		}
	}
	// completeness of Close
	sort.Slice(closers, func(i, j int) bool { return closers[i].Obj().Name() < closers[j].Obj().Name() })
	// an object holding closable objects owns them too
	for _, n := range closers {
		key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		fields := base.owned[key]
		if len(fields) == 0 {
			continue
		}
		f := w.method(strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), w.modpath), "/"), n.Obj().Name(), "Close")
		if f == nil || len(f.Blocks) == 0 {
			r.add(Finding{Key: "close:" + key, Rule: "release", Pos: "-", Msg: "no Close found for " + key})
			continue
		}
		cl := *base
		cl.entry = f
		cl.closeOf = n
		k := newWalker(w, &cl)
		k.run(f, func(s *wstate, fid int) {
			o := s.data.(*relState)
			p := f.Params[0]
			pc := k.val(s, fid, p)
			st := n.Underlying().(*types.Struct)
			for fl := range fields {
				x := "{own:" + fl + "}"
				s.cells[pc+"."+fl] = x
				if !isSliceField(st, fl) {
					o.res[x] = resInfo{kind: fl}
				}
				r.count("owned fields", 1)
				r.oblige("Close of " + key + " releases " + fl)
			}
		})
		r.count("close methods", 1)
		if k.gaveUp {
			r.add(Finding{Key: "undecided:" + w.fname(f), Rule: "undecided", Pos: w.pos(f.Pos()), Msg: "too many paths in " + w.fname(f)})
		}
	}
	r.floor("acquisition sites", 6)
	r.floor("owned fields", 4)
	r.floor("close methods", 3)
}

func isResourceField(closable map[*types.TypeName]bool, fa *ssa.FieldAddr) bool {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Type()
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			return b.Kind() == types.Uint8
		}
		t = sl.Elem()
	}
	return isResourceType(closable, t)
}

func isResourceType(closable map[*types.TypeName]bool, t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "*os.File", "net/http.File", "io/fs.File", "io.Closer", "io.ReadCloser":
		return true
	}
	n := namedOf(t)
	return n != nil && closable[n.Obj()]
}
