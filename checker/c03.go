package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "path-sensitive interprocedural typestate of every bufio.Writer (dirty/flushed, and the stream under it)", checkFlush)
}

// bufState: the buffered writers created on this path.
type bufState struct {
	under map[cv]cv     // created writer -> stream under it
	dirty map[cv]string // written since the last Flush: where
}

type flushClient struct {
	w       *World
	r       *Report
	entry   *ssa.Function
	creates map[*ssa.Function]bool
	sites   map[ssa.Instruction]bool
	seen    map[string]bool
}

func (c *flushClient) clone(d any) any {
	n := &bufState{map[cv]cv{}, map[cv]string{}}
	if d == nil {
		return n
	}
	o := d.(*bufState)
	for a, b := range o.under {
		n.under[a] = b
	}
	for a, b := range o.dirty {
		n.dirty[a] = b
	}
	return n
}

func (c *flushClient) key(d any) string {
	o := d.(*bufState)
	var ks []string
	for a, b := range o.under {
		_, dd := o.dirty[a]
		ks = append(ks, fmt.Sprintf("%s>%s%v", a, b, dd))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (c *flushClient) rename(d any, from, to cv) {
	o := d.(*bufState)
	r := func(x string) string { return strings.ReplaceAll(x, from, to) }
	nu, nd := map[cv]cv{}, map[cv]string{}
	for a, b := range o.under {
		nu[r(a)] = r(b)
	}
	for a, b := range o.dirty {
		nd[r(a)] = b
	}
	o.under, o.dirty = nu, nd
}

func (c *flushClient) uses(d any, x cv) bool {
	o := d.(*bufState)
	for a, b := range o.under {
		if strings.Contains(a, x) || strings.Contains(b, x) {
			return true
		}
	}
	return false
}

func (c *flushClient) store(k *walker, s *wstate, addr, val cv, in ssa.Instruction) {}

// branch: a test of Buffered() against 0 says whether there is anything to
// flush.
func (c *flushClient) branch(k *walker, s *wstate, in *ssa.If, e int) bool {
	x := k.val(s, s.top().fid, in.Cond)
	t := e == 0
	for strings.HasPrefix(x, "!") {
		x, t = x[1:], !t
	}
	op, a, b, ok := splitExpr(x)
	if !ok || b != "#0" || !strings.HasPrefix(a, "buffered(") {
		return true
	}
	if op == "==" && t || (op == "!=" || op == ">") && !t {
		delete(s.data.(*bufState).dirty, strings.TrimSuffix(strings.TrimPrefix(a, "buffered("), ")"))
	}
	return true
}

func (c *flushClient) touched(s *wstate, a cv) bool {
	o := s.data.(*bufState)
	for x, u := range o.under {
		if a == x || a == u {
			return true
		}
	}
	if a == "" || a[0] != '{' && a[0] != '@' {
		return false
	}
	for cell, v := range s.cells {
		if cell != a && !strings.HasPrefix(cell, a+".") && !strings.HasPrefix(cell, strings.TrimSuffix(a, "[:]")+"[") {
			continue
		}
		for x, u := range o.under {
			if v == x || v == u {
				return true
			}
		}
	}
	return false
}

func (c *flushClient) report(k *walker, s *wstate, key, pos, msg string) {
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.r.add(Finding{Key: key, Rule: "flush", Pos: pos, Msg: msg, Path: k.trail(s)})
}

func (c *flushClient) creation(k *walker, x cv) (string, string) {
	i := k.info[x]
	in, _ := i.v.(ssa.Instruction)
	if in == nil {
		return x, "-"
	}
	return c.w.fname(in.Parent()), c.w.posOf(in)
}

func isBufioNew(f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "bufio" && (f.Name() == "NewWriter" || f.Name() == "NewWriterSize")
}

func (c *flushClient) call(k *walker, s *wstate, ci ssa.CallInstruction, callee *ssa.Function, args []cv, deferred bool) ([]*wstate, bool) {
	o := s.data.(*bufState)
	name := calleeName(ci)
	if isBufioNew(callee) {
		call, ok := ci.(*ssa.Call)
		if !ok {
			return nil, false
		}
		self := selfCV(s.top().fid, call)
		if !c.sites[call] {
			c.sites[call] = true
		}
		for x, u := range o.under {
			if u == args[0] && o.dirty[x] != "" && x != self {
				fn, pos := c.creation(k, x)
				c.report(k, s, "flush-second:"+fn, c.w.posOf(call), fmt.Sprintf("a second buffered writer is put on the same stream while the one made at %s still holds bytes written at %s", pos, o.dirty[x]))
			}
		}
		o.under[self] = args[0]
		delete(o.dirty, self)
		return nil, false
	}
	recvBuf := false
	if callee != nil && callee.Signature.Recv() != nil && types.TypeString(callee.Signature.Recv().Type(), nil) == "*bufio.Writer" && len(args) > 0 {
		recvBuf = true
		x := args[0]
		if _, ok := o.under[x]; ok {
			switch callee.Name() {
			case "Flush":
				delete(o.dirty, x)
			case "Reset":
				if o.dirty[x] != "" {
					_, pos := c.creation(k, x)
					c.report(k, s, "flush-reset:"+c.w.fname(ci.Parent()), c.w.posOf(ci), fmt.Sprintf("the buffered writer made at %s is reset while it holds bytes written at %s", pos, o.dirty[x]))
				}
				delete(o.dirty, x)
				if len(args) > 1 {
					o.under[x] = args[1]
				}
			case "Buffered":
				if call, ok := ci.(*ssa.Call); ok {
					k.def(s, s.top().fid, call, "buffered("+x+")")
				}
			case "Size", "Available", "AvailableBuffer":
			default:
				o.dirty[x] = c.w.posOf(ci)
			}
			return nil, false
		}
	}
	if callee != nil && c.w.inModule(callee) && len(callee.Blocks) > 0 {
		rel := c.creates[callee] || len(callee.FreeVars) > 0
		for _, a := range args {
			if c.touched(s, a) {
				rel = true
			}
		}
		if rel {
			for _, g := range s.stack {
				if g.fn == callee {
					// recursion: assume it writes
					c.foreign(k, s, ci, args, name, true)
					return nil, false
				}
			}
		}
		return nil, rel
	}
	if !recvBuf {
		c.foreign(k, s, ci, args, name, callee == nil)
	} else if callee.Name() != "Flush" {
		c.foreign(k, s, ci, args, name, false)
	}
	return nil, false
}

var directWrite = map[string]bool{
	"Seek": true, "Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "ReadFrom": true, "WriteTo": true,
	"Fprint": true, "Fprintf": true, "Fprintln": true, "Copy": true, "CopyN": true, "CopyBuffer": true, "WriteByte": true, "WriteRune": true,
}

// foreign: a call that is not followed. Buffers it is given may be written;
// streams it is given may be written or repositioned.
func (c *flushClient) foreign(k *walker, s *wstate, ci ssa.CallInstruction, args []cv, name string, unknown bool) {
	o := s.data.(*bufState)
	for _, a := range args {
		if _, ok := o.under[a]; ok {
			o.dirty[a] = c.w.posOf(ci)
			continue
		}
		if !directWrite[name] {
			continue
		}
		for x, u := range o.under {
			if u == a && o.dirty[x] != "" {
				fn, pos := c.creation(k, x)
				c.report(k, s, "flush-under:"+fn+":"+name, c.w.posOf(ci), fmt.Sprintf("%s acts on the stream under the buffered writer made at %s, which still holds bytes written at %s", name, pos, o.dirty[x]))
			}
		}
	}
	_ = unknown
}

func (c *flushClient) exit(k *walker, s *wstate, kind wexit, at ssa.Instruction, rs []cv) {
	o := s.data.(*bufState)
	if len(o.dirty) == 0 {
		return
	}
	if kind == exitReturn {
		ei := errResult(c.entry.Signature)
		if ei >= 0 && ei < len(rs) && k.nilness(s, rs[ei]) == 1 {
			return
		}
	}
	for x, where := range o.dirty {
		esc := false
		if kind == exitReturn {
			for _, r := range rs {
				if strings.Contains(r, x) {
					esc = true
				}
				for cell, v := range s.cells {
					if v == x && strings.HasPrefix(cell, r+".") {
						esc = true
					}
				}
			}
			for cell, v := range s.cells {
				if v != x {
					continue
				}
				root := rootOf(cell)
				if root[0] == '@' {
					esc = true
				}
				if i, ok := k.info[root]; ok {
					switch i.v.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
						esc = true
					}
				}
			}
		}
		if esc {
			continue
		}
		fn, pos := c.creation(k, x)
		what := "returns without a failure"
		if kind == exitOS0 {
			what = "exits with status 0"
		} else if errResult(c.entry.Signature) >= 0 {
			what = "can report success"
		}
		c.report(k, s, "flush:"+fn+":"+c.w.fname(c.entry), c.w.posOf(at), fmt.Sprintf("%s %s at %s while the buffered writer made at %s holds bytes written at %s and not flushed", c.w.fname(c.entry), what, c.w.posOf(at), pos, where))
	}
}

func checkFlush(w *World, r *Report) {
	r.Explanation = "Every bufio.Writer created in the module is one object with the typestate flushed/dirty; every path of every entry function (the six mains, every exported function and every function with an error result) is walked over SSA, following module calls that receive the buffer or the stream under it and deferred calls. At a return that may report success, or an exit with status 0, no buffer created on the path may be dirty; nor when the stream under it is repositioned, written directly or given a second buffer."
	r.Assumptions = append(r.Assumptions, "a foreign function given a buffered writer writes to it and does not flush it")
	creates := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && isBufioNew(c.Common().StaticCallee())
	})
	sites := map[ssa.Instruction]bool{}
	seen := map[string]bool{}
	for _, f := range w.allFns {
		if !creates[f] {
			continue
		}
		isMain := f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main"
		if !isMain && !isExportedAPI(f) && errResult(f.Signature) < 0 {
			continue
		}
		cl := &flushClient{w: w, r: r, entry: f, creates: creates, sites: sites, seen: seen}
		k := newWalker(w, cl)
		k.run(f, nil)
		r.count("entry functions", 1)
		r.count("path states", k.steps)
		if debugSteps {
			fmt.Println(w.fname(f), k.steps)
		}
		r.oblige("entry " + w.fname(f))
		if k.gaveUp {
			r.add(Finding{Key: "undecided:" + w.fname(f), Rule: "undecided", Pos: w.pos(f.Pos()), Msg: "too many paths in " + w.fname(f)})
		}
	}
	for in := range sites {
		r.oblige("buffered writer made at " + w.posOf(in))
	}
	r.count("buffered writers", len(sites))
	// every creation site must have been walked
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isBufioNew(c.Common().StaticCallee()) && !sites[in] {
					r.add(Finding{Key: "unwalked:" + w.fname(f), Rule: "undecided", Pos: w.posOf(in), Msg: "this buffered writer is on no analysed path"})
				}
			}
		}
	}
	r.floor("buffered writers", 5)
	sort.Strings(r.Samples)
}

// transitively: the module functions from which an instruction satisfying p
// is reachable over resolved calls and closures.
func transitively(w *World, p func(ssa.Instruction) bool) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range w.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if p(in) {
					m[f] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range w.allFns {
			if m[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && m[g] {
							hit = true
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if g, ok := mc.Fn.(*ssa.Function); ok && m[g] {
							hit = true
						}
					}
				}
			}
			if hit {
				m[f] = true
				ch = true
			}
		}
	}
	return m
}
