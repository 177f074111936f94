package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "path-sensitive error-flow typestate over SSA, per fallible call", func(w *World, r *Report) {
		mains := w.mainFns("dicbuilder", "userdicbuilder", "dicconv", "printdic", "printdicheader")
		sc := w.reachable(mains)
		for _, f := range w.allFns {
			if f.Pkg != nil && (f.Pkg.Pkg.Path() == w.rel("dictionary") || f.Pkg.Pkg.Path() == w.rel("dartsclone")) && isExportedAPI(f) {
				for g := range w.reachable([]*ssa.Function{f}) {
					sc[g] = true
				}
			}
		}
		errorFlow(w, r, sc)
		r.floor("fallible calls", 120)
	})
	register("C02", "path-sensitive error-flow typestate over SSA, per fallible call; scanner Err protocol", func(w *World, r *Report) {
		roots := w.mainFns("gosudachicli")
		for _, f := range w.allFns {
			if f.Pkg != nil && f.Pkg.Pkg.Path() == w.modpath && isExportedAPI(f) {
				roots = append(roots, f)
			}
		}
		errorFlow(w, r, w.reachable(roots))
		r.floor("fallible calls", 90)
		r.floor("scan loops", 2)
	})
}

const errFlowNote = "Every call with an error result in the functions in scope is one obligation. A walk over the SSA control-flow graph from the call, with the call's error assumed non-nil, must end on every path in a return of that (or another certainly non-nil) error, a non-zero exit, a panic, or the error kept in the object's error field reported by Err. Exempt: releases (Close, Munmap), writes to stderr, to in-memory buffers and to bufio.Writer (sticky: reported by Flush, see C03), debug dumps."

func errorFlow(w *World, r *Report, scope map[*ssa.Function]bool) {
	r.Explanation = errFlowNote
	r.Assumptions = append(r.Assumptions,
		"errors of foreign functions are reported through their last result",
		"only io.EOF (of readers) and bufio.ErrBufferFull (of ReadSlice) are not failures",
		"gosudachicli -f: errors of processing a line are ignored on the user's request")
	ec := newErrChecker(w)
	ord := map[string]int{}
	for _, f := range sortedFns(w, scope) {
		r.count("functions", 1)
		if f.Name() == "Err" && f.Signature.Recv() != nil && hasErrMethod(f.Signature.Recv().Type()) {
			ec.errAccessor(r, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi != nil {
					continue
				}
				ec.scanProtocol(r, f, c)
				ei := errResult(c.Common().Signature())
				if ei < 0 {
					continue
				}
				if cc, ok := c.(*ssa.Call); ok && makesError(cc) {
					continue
				}
				name := callName(w, c)
				ord[w.fname(f)+"|"+name]++
				key := fmt.Sprintf("errflow:%s:%s#%d", w.fname(f), name, ord[w.fname(f)+"|"+name])
				if why := ec.exempt(f, c); why != "" {
					r.count("exempt calls", 1)
					r.count("exempt: "+why, 1)
					continue
				}
				r.count("fallible calls", 1)
				r.oblige(fmt.Sprintf("%s calls %s", w.fname(f)+" "+w.posOf(c), name))
				if _, ok := c.(*ssa.Call); !ok {
					r.add(Finding{Key: key, Rule: "error-flow", Pos: w.posOf(c), Msg: fmt.Sprintf("the error of %s, deferred or started as a goroutine, is lost", name)})
					continue
				}
				ec.checkCall(r, f, c.(*ssa.Call), ei, name, key)
			}
		}
	}
}

func callName(w *World, c ssa.CallInstruction) string {
	com := c.Common()
	if f := com.StaticCallee(); f != nil {
		return w.fname(f)
	}
	if com.IsInvoke() {
		return "(" + types.TypeString(com.Value.Type(), func(p *types.Package) string { return p.Name() }) + ")." + com.Method.Name()
	}
	return "func value of type " + types.TypeString(com.Value.Type(), func(p *types.Package) string { return p.Name() })
}

func (ec *errChecker) checkCall(r *Report, f *ssa.Function, c *ssa.Call, ei int, name, key string) {
	w := ec.w
	k := &ewalk{w: w, ec: ec, fn: f, src: c, reader: ec.isReaderCall(c)}
	s := newState(f)
	s.b = c.Block()
	for i, in := range s.b.Instrs {
		if in == ssa.Instruction(c) {
			s.i = i + 1
		}
	}
	s.h[c] = hRaw
	if isParseCall(c) && errResult(f.Signature) < 0 {
		for _, rf := range *c.Referrers() {
			if x, ok := rf.(*ssa.Extract); ok && x.Index != ei {
				k.parsed = append(k.parsed, x)
			}
		}
	}
	k.run(s)
	if k.bad == nil {
		return
	}
	// "is it a number?": a parse in a function that reports nothing, whose
	// failure is tested and whose value is not used then
	if isParseCall(c) && errResult(f.Signature) < 0 && k.testedErr && !k.usedParsed && f.Name() != "main" {
		r.count("parses used as predicates", 1)
		return
	}
	var path []string
	for st := k.bad; st != nil; st = st.from {
		if st.note != "" && (len(path) == 0 || path[len(path)-1] != st.note) {
			path = append(path, st.note)
		}
	}
	for i, j := 0, len(path)-1; i < j; i, j = i+1, j-1 {
		path[i], path[j] = path[j], path[i]
	}
	if len(path) > 12 {
		path = path[:12]
	}
	for i := range path {
		path[i] = "branch at " + path[i]
	}
	r.add(Finding{Key: key, Rule: "error-flow", Pos: w.posOf(c),
		Msg: fmt.Sprintf("in %s, when %s fails, %s", w.fname(f), name, k.badWhy), Path: path})
}

// errAccessor checks an Err method: it must hand out the error it is the
// accessor of.
func (ec *errChecker) errAccessor(r *Report, f *ssa.Function) {
	w := ec.w
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			u, ok := in.(*ssa.UnOp)
			if !ok || u.Op != token.MUL || !isErrorType(u.Type()) {
				continue
			}
			if _, ok := u.X.(*ssa.FieldAddr); !ok {
				continue
			}
			n++
			r.count("error accessors", 1)
			r.oblige("accessor " + w.fname(f))
			k := &ewalk{w: w, ec: ec, fn: f, srcLoad: u, reader: true}
			s := newState(f)
			s.b = b
			for i, x := range b.Instrs {
				if x == in {
					s.i = i + 1
				}
			}
			s.h[u] = hRaw
			s.cells[k.cellKey(s, u.X)] = cellVal{h: hRaw}
			k.run(s)
			if k.bad != nil {
				r.add(Finding{Key: "erraccessor:" + w.fname(f), Rule: "error-flow", Pos: w.posOf(u), Msg: "the recorded error is not reported by " + w.fname(f) + ": " + k.badWhy})
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && errResult(c.Call.Signature()) >= 0 {
				n++
			}
		}
	}
	if n == 0 {
		r.add(Finding{Key: "erraccessor:" + w.fname(f), Rule: "error-flow", Pos: w.pos(f.Pos()), Msg: w.fname(f) + " reports no recorded error at all"})
	}
}

// scanProtocol: when Scan/Next of an object with an Err method says "no
// more", Err is consulted before success is reported.
func (ec *errChecker) scanProtocol(r *Report, f *ssa.Function, ci ssa.CallInstruction) {
	c, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	n := calleeName(c)
	if n != "Scan" && n != "Next" {
		return
	}
	rv := recvOf(c)
	if rv == nil || !hasErrMethod(rv.Type()) || !isBool(c.Type()) {
		return
	}
	if f.Signature.Recv() != nil && hasErrMethod(f.Signature.Recv().Type()) {
		return // the error stays inside an object that has the same accessor
	}
	w := ec.w
	r.count("scan loops", 1)
	r.oblige("iteration " + w.fname(f) + " " + w.posOf(c))
	type st struct {
		b *ssa.BasicBlock
		i int
	}
	seen := map[st]bool{}
	var work []st
	for i, in := range c.Block().Instrs {
		if in == ssa.Instruction(c) {
			work = append(work, st{c.Block(), i + 1})
		}
	}
	same := func(v ssa.Value) bool { return v == rv || sameLoad(v, rv) }
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		stop := false
		for i := s.i; i < len(s.b.Instrs) && !stop; i++ {
			switch in := s.b.Instrs[i].(type) {
			case *ssa.Call:
				nm := calleeName(in)
				if v := recvOf(in); v != nil && same(v) && (nm == "Err" || nm == n) {
					stop = true
				}
				if isExitCall(in) != exitNone {
					stop = true
				}
				// a helper given the iterator that asks for its error
				if g := in.Call.StaticCallee(); g != nil && w.inModule(g) {
					for ai, a := range in.Call.Args {
						if same(a) && ai < len(g.Params) && callsErrOn(g, g.Params[ai]) {
							stop = true
						}
					}
				}
			case *ssa.Panic:
				stop = true
			case *ssa.Return:
				stop = true
				ei := errResult(f.Signature)
				if ei >= 0 && ei < len(in.Results) && neverNil(in.Results[ei]) {
					break
				}
				r.add(Finding{Key: "scan:" + w.fname(f) + ":" + callName(w, c), Rule: "scanner-protocol", Pos: w.posOf(c),
					Msg: fmt.Sprintf("in %s, when %s ends, the function can return at %s without asking Err", w.fname(f), callName(w, c), w.posOf(in))})
			case *ssa.If:
				if in.Cond == ssa.Value(c) {
					work = append(work, st{s.b.Succs[1], 0})
					stop = true
				} else if u, ok := in.Cond.(*ssa.UnOp); ok && u.Op == token.NOT && u.X == ssa.Value(c) {
					work = append(work, st{s.b.Succs[0], 0})
					stop = true
				} else if bv := nilTested(in.Cond); bv != nil && isErrorType(bv.Type()) {
					// an error branch: errors are the other analysis' business;
					// the non-nil side is a failing path
					nonnil := 0
					if in.Cond.(*ssa.BinOp).Op == token.EQL {
						nonnil = 1
					}
					work = append(work, st{s.b.Succs[1-nonnil], 0})
					stop = true
				}
			}
		}
		if !stop {
			for _, t := range s.b.Succs {
				work = append(work, st{t, 0})
			}
		}
	}
}

func callsErrOn(g *ssa.Function, p ssa.Value) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && calleeName(c) == "Err" && recvOf(c) == p {
				return true
			}
		}
	}
	return false
}

func nilTested(c ssa.Value) ssa.Value {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return nil
	}
	if isNilConst(b.Y) {
		return b.X
	}
	if isNilConst(b.X) {
		return b.Y
	}
	return nil
}

func neverNil(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		return makesError(v)
	case *ssa.Const:
		return false
	case *ssa.UnOp:
		return sentinelName(v) != ""
	}
	return false
}

// sameLoad: both are loads of the same cell or field of the same base.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameLoad(x.X, y.X)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameLoad(x.X, y.X)
	}
	return false
}

// ---- exemptions ------------------------------------------------------------

func (ec *errChecker) exempt(f *ssa.Function, c ssa.CallInstruction) string {
	w := ec.w
	com := c.Common()
	name := calleeName(c)
	switch name {
	case "Close", "Munmap":
		return "release"
	case "Err":
		if f.Signature.Recv() != nil && hasErrMethod(f.Signature.Recv().Type()) && f.Name() != "Err" {
			return "Err asked inside an object with its own Err"
		}
		return ""
	}
	g := com.StaticCallee()
	pkg := ""
	if g != nil && g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
	}
	if g != nil {
		if rv := g.Signature.Recv(); rv != nil && strings.HasPrefix(name, "Write") && name != "WriteTo" {
			switch types.TypeString(rv.Type(), nil) {
			case "*bytes.Buffer", "*strings.Builder":
				return "write to memory"
			case "*bufio.Writer":
				return "sticky buffered write"
			}
		}
	}
	wr := -1
	switch {
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint"):
		wr = 0
	case pkg == "golang.org/x/text/message" && strings.HasPrefix(name, "Fprint"):
		wr = 1
		if g.Signature.Recv() == nil {
			wr = 0
		}
	case pkg == "encoding/binary" && name == "Write":
		wr = 0
	case pkg == "io" && name == "WriteString":
		wr = 0
	case pkg == "encoding/binary" && name == "Read":
		mem := true
		n := 0
		w.trace(com.Args[0], false, func(l ssa.Value) {
			n++
			if lc, ok := l.(*ssa.Call); ok {
				if cf := lc.Call.StaticCallee(); cf != nil && cf.Pkg != nil && cf.Pkg.Pkg.Path() == "bytes" {
					return
				}
			}
			mem = false
		})
		if mem && n > 0 {
			return "decode from memory"
		}
	}
	if wr >= 0 && wr < len(com.Args) {
		return ec.writerExempt(com.Args[wr])
	}
	if com.IsInvoke() && name == "Write" {
		return ec.writerExempt(com.Value)
	}
	return ""
}

// writerExempt: every writer this can be is one whose write errors need no
// test at the call.
func (ec *errChecker) writerExempt(v ssa.Value) string {
	w := ec.w
	kinds := map[string]bool{}
	w.trace(v, true, func(l ssa.Value) {
		kinds[writerKind(w, l)] = true
	})
	if len(kinds) == 0 || kinds[""] {
		return ""
	}
	for _, k := range []string{"sticky buffered write", "write to memory", "debug output", "standard error"} {
		if kinds[k] {
			return k
		}
	}
	return ""
}

func writerKind(w *World, l ssa.Value) string {
	switch types.TypeString(l.Type(), nil) {
	case "*bytes.Buffer", "*strings.Builder":
		return "write to memory"
	case "*bufio.Writer":
		return "sticky buffered write"
	}
	if u, ok := l.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && g.String() == "os.Stderr" {
			return "standard error"
		}
		if fa, ok := u.X.(*ssa.FieldAddr); ok && isDumpField(w, fa) {
			return "debug output"
		}
	}
	// the writer parameter of the lattice dump
	if p, ok := l.(*ssa.Parameter); ok {
		f := p.Parent()
		if f.Signature.Recv() != nil && isNamed(f.Signature.Recv().Type(), w.modpath, "Lattice") {
			return "debug output"
		}
	}
	if c, ok := l.(*ssa.Const); ok && c.Value == nil {
		return "standard error"
	}
	return ""
}

func isDumpField(w *World, fa *ssa.FieldAddr) bool {
	return isNamed(fa.X.Type(), w.modpath, "JapaneseTokenizer") && isNamedIface(fa.Type(), "io", "Writer")
}

func isNamedIface(t types.Type, pkg, name string) bool { return isNamed(t, pkg, name) }

// isNamed: t is (a pointer to) the named type.
func isNamed(t types.Type, pkg, name string) bool {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func constString(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Value), true
}
