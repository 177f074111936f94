package main

// What a function writes, in order: every number, string and block of bytes
// sent to a buffer, a file or a stream, with the loops around them and the
// number of bytes written so far.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An emEv is one effect on an output: a number (le1, le2, le4, le8, be..), bytes, str,
// a value written by a classified writer (slen, string, str8, str16, ints),
// the contents of a buffer moved on (move, copy), reset, seekcur, seekset, or
// a loop.
type emEv struct {
	kind string
	to   *T
	val  *T
	sel  *T // how the encoding was chosen
	at   ssa.Instruction
	pos  *T // bytes written to it before
	loop string
}

type emState struct {
	ev   []emEv
	g    map[*T]*T // stream -> bytes written so far
	note map[string]*T
}

func (d *emState) clone() any {
	n := &emState{ev: append([]emEv(nil), d.ev...), g: map[*T]*T{}, note: map[string]*T{}}
	for a, b := range d.g {
		n.g[a] = b
	}
	for a, b := range d.note {
		n.note[a] = b
	}
	return n
}

type emBody struct {
	s    *astate
	ev   []emEv
	next bool // the counter went on by one
	at   string
}

type emLoop struct {
	key    string
	l      listLoop
	isList bool
	bodies []emBody
	open   map[*T]*T // what was counted when a round began
}

type emExit struct {
	s   *astate
	res []*T
	at  string
}

type emitter struct {
	w     *World
	k     *ai
	prims map[*ssa.Function]string
	loops map[string]*emLoop
	exits []emExit
	// hyp: per loop and stream, which way of counting is being tried
	gone   map[string]bool
	dirty  map[string]map[string]bool // per loop, buffered writers not flushed at its end
	fails  []emFail
	begun  map[string]map[string]emHyp
	again  bool
	call   func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool)
	pre    func(s *astate)
	onHead func(s *astate, lp *emLoop)
	elem   func(types.Type) bool
	in     *T // what is read in order, if anything
	put    func(s *astate, base, off *T, kind string, v *T, at ssa.Instruction)
}

// an emFail is a way of counting that does not hold at the end of a round.
type emFail struct {
	loop, id, name string
	inner          map[string]bool
}

// settle gives up the ways of counting that failed, innermost loops first.
func (e *emitter) settle() {
	bad := map[string]bool{}
	for _, f := range e.fails {
		bad[f.loop+"/"+f.id] = true
	}
	for _, f := range e.fails {
		ok := true
		for in := range f.inner {
			if bad[in+"/"+f.id] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		e.gone[f.loop+"/"+f.id+"/"+f.name] = true
		// what was thought of the loops in it is open again
		for in := range f.inner {
			for old := range e.gone {
				if strings.HasPrefix(old, in+"/"+f.id+"/") {
					delete(e.gone, old)
				}
			}
		}
	}
}

type emHyp struct {
	phi  *ssa.Phi
	fid  int
	addr *T
	d    *T // value - count
	ok   bool
}

func (h emHyp) name() string {
	switch {
	case h.phi != nil:
		return h.phi.Name()
	case h.addr != nil:
		return h.addr.String()
	case h.ok:
		return "same"
	}
	return "?"
}

func newEmitter(w *World, prims map[*ssa.Function]string) *emitter {
	return &emitter{w: w, prims: prims, gone: map[string]bool{}, dirty: map[string]map[string]bool{}}
}

func strip(x *T) *T {
	for x.op == "iface" || x.op == "cast" {
		x = x.args[0]
	}
	return x
}

// canon: the output behind buffered writers.
func (e *emitter) canon(x *T) *T {
	for {
		x = strip(x)
		if x.op == "res" && strings.HasPrefix(x.s, "bufio.NewWriter") && len(x.args) > 0 {
			x = x.args[0]
			continue
		}
		return x
	}
}

func (e *emitter) count(d *emState, to *T) *T {
	g := d.g[to]
	if g == nil {
		switch {
		case to.op == "res" && strings.HasPrefix(to.s, "bytes.NewBuffer") || to.op == "alloc" || emptyFile(to):
			g = e.k.num(0)
		default:
			g = e.k.sym(fmt.Sprintf("bytes before in #%d", to.id), types.Typ[types.Int64])
		}
		d.g[to] = g
	}
	return g
}

// emptyFile: the file is emptied, or made, when it is opened, and is not
// appended to.
func emptyFile(to *T) bool {
	if to.op != "res" {
		return false
	}
	if strings.HasPrefix(to.s, "os.Create") && !strings.HasPrefix(to.s, "os.CreateTemp") {
		return true
	}
	if !strings.HasPrefix(to.s, "os.OpenFile") || len(to.args) < 2 {
		return false
	}
	n, ok := to.args[1].intVal()
	return ok && n&int64(os.O_TRUNC) != 0 && n&int64(os.O_APPEND) == 0
}

// width: how many bytes encoding/binary writes for a value of type t; 0: not
// known.
func binWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
		return 0
	}
	return intSize(t)
}

func (e *emitter) sizeOf(x emEv) *T {
	k := e.k
	switch {
	case strings.HasPrefix(x.kind, "le") || strings.HasPrefix(x.kind, "be"):
		return k.num(int64(x.kind[2] - '0'))
	}
	args := []*T{x.val}
	if x.sel != nil {
		args = append(args, x.sel)
	}
	return k.mk(&T{op: "sizeof", s: x.kind, typ: types.Typ[types.Int], args: args})
}

func (e *emitter) emit(s *astate, x emEv) {
	d := s.data.(*emState)
	to := e.canon(x.to)
	if w := strip(x.to); w != to {
		d.note["unflushed:"+w.String()] = w
	} else {
		for n, w := range d.note {
			if strings.HasPrefix(n, "unflushed:") && e.canon(w) == to {
				d.ev = append(d.ev, emEv{kind: "past a buffer that is not flushed", to: to, val: w, at: x.at})
			}
		}
	}
	x.to = to
	g := e.count(d, x.to)
	x.pos = g
	d.ev = append(d.ev, x)
	switch x.kind {
	case "reset":
		d.g[x.to] = e.k.num(0)
	case "move":
		src := x.val
		d.g[x.to] = e.k.add(g, e.count(d, src))
		d.g[src] = e.k.num(0)
	case "copy":
		d.g[x.to] = e.k.add(g, e.count(d, x.val))
	case "seekcur":
		d.g[x.to] = e.k.add(g, x.val)
	case "seekset":
		d.g[x.to] = x.val
	case "bytes", "str":
		d.g[x.to] = e.k.add(g, e.k.lenOf(s, x.val))
	default:
		d.g[x.to] = e.k.add(g, e.sizeOf(x))
	}
}

// isWriter: t is something one writes to.
func isWriterType(t types.Type) bool {
	if it, ok := t.Underlying().(*types.Interface); ok {
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Write" {
				return true
			}
		}
		return false
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer", "bufio.Writer", "os.File":
		return true
	}
	return false
}

// writes: the call, if it writes something.
func (e *emitter) writes(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
	k := e.k
	com := c.Common()
	if _, isB := com.Value.(*ssa.Builtin); isB {
		return nil, false
	}
	null := k.null()
	// functions that write one value
	kind := ""
	if callee != nil {
		kind = e.prims[callee]
	} else if !com.IsInvoke() {
		kinds := map[string]bool{}
		for _, g := range e.w.callees(c) {
			kinds[e.prims[g]] = true
		}
		ks := keysOf(kinds)
		switch {
		case len(ks) == 1:
			kind = ks[0]
		case len(ks) == 2 && ks[0] == "str16" && ks[1] == "str8":
			kind = "string"
		}
	}
	if kind != "" && len(args) >= 2 {
		x := emEv{kind: kind, to: args[len(args)-2], val: args[len(args)-1], at: c}
		if kind == "string" {
			x.sel = k.val(s, s.top(), com.Value)
		}
		e.emit(s, x)
		return []*T{null}, true
	}
	name := ""
	switch {
	case callee != nil:
		name = callee.RelString(nil)
	case com.IsInvoke():
		name = com.Method.FullName()
	}
	n32 := func(t *T) *T { return t }
	switch name {
	case "(*bytes.Buffer).WriteByte", "(*bufio.Writer).WriteByte", "(io.ByteWriter).WriteByte":
		e.emit(s, emEv{kind: "le1", to: args[0], val: args[1], at: c})
		return []*T{null}, true
	case "(*bytes.Buffer).WriteString", "(*bufio.Writer).WriteString", "(*os.File).WriteString", "io.WriteString":
		e.emit(s, emEv{kind: "str", to: args[0], val: args[1], at: c})
		return []*T{n32(k.lenOf(s, args[1])), null}, true
	case "(*bytes.Buffer).Write", "(*bufio.Writer).Write", "(*os.File).Write", "(io.Writer).Write":
		if v := args[1]; v.op == "res" && strings.HasPrefix(v.s, "(*bytes.Buffer).Bytes") {
			d := s.data.(*emState)
			n := e.count(d, strip(v.args[0]))
			e.emit(s, emEv{kind: "copy", to: args[0], val: strip(v.args[0]), at: c})
			return []*T{n, null}, true
		}
		n := k.lenOf(s, args[1])
		e.emit(s, emEv{kind: "bytes", to: args[0], val: args[1], at: c})
		return []*T{n, null}, true
	case "(*bytes.Buffer).WriteTo":
		d := s.data.(*emState)
		src := strip(args[0])
		n := e.count(d, src)
		e.emit(s, emEv{kind: "move", to: args[1], val: src, at: c})
		return []*T{n, null}, true
	case "(*bytes.Buffer).Reset":
		e.emit(s, emEv{kind: "reset", to: args[0], at: c})
		return []*T{}, true
	case "(*bufio.Writer).Flush":
		delete(s.data.(*emState).note, "unflushed:"+strip(args[0]).String())
		return []*T{null}, true
	case "(*bufio.Writer).Reset":
		d := s.data.(*emState)
		w := strip(args[0])
		if e.canon(args[0]) != e.canon(args[1]) {
			break
		}
		if d.note["unflushed:"+w.String()] != nil {
			e.emit(s, emEv{kind: "thrown away", to: args[1], val: w, at: c})
			delete(d.note, "unflushed:"+w.String())
		}
		return []*T{}, true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		res := k.opaque(s, s.top(), c, callee, args)
		s.data.(*emState).note["bufio:"+res[0].String()] = res[0]
		return res, true
	case "(*bytes.Buffer).Len":
		return []*T{e.count(s.data.(*emState), strip(args[0]))}, true
	case "(io.Seeker).Seek", "(*os.File).Seek":
		if n, ok := args[2].intVal(); ok && (n == 0 || n == 1) {
			kind := "seekset"
			if n == 1 {
				kind = "seekcur"
			}
			e.emit(s, emEv{kind: kind, to: args[0], val: args[1], at: c})
			return []*T{s.data.(*emState).g[e.canon(args[0])], null}, true
		}
		e.emit(s, emEv{kind: "seek?", to: args[0], val: args[1], at: c})
		return []*T{args[1], null}, true
	case "encoding/binary.Write":
		if len(args) == 3 && args[2].op == "iface" {
			t := args[2].typ
			v := args[2].args[0]
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
				v = k.load(s, v, t)
			}
			ord := orderOf(args[1])
			if n := binWidth(t); n > 0 && ord != "" {
				if n == 1 {
					ord = "le"
				}
				e.emit(s, emEv{kind: fmt.Sprintf("%s%d", ord, n), to: args[0], val: v, at: c})
				return []*T{null}, true
			}
			if el := sliceOfT(t); el != nil && binWidth(el) > 0 && ord != "" {
				kd := "bytes"
				if binWidth(el) > 1 {
					kd = fmt.Sprintf("all-%s%d", ord, binWidth(el))
				}
				e.emit(s, emEv{kind: kd, to: args[0], val: v, at: c})
				return []*T{null}, true
			}
		}
		e.emit(s, emEv{kind: "binary", to: args[0], val: args[2], at: c})
		return []*T{null}, true
	}
	if strings.HasPrefix(name, "fmt.Fprint") && len(args) > 0 {
		if e.isStd(args[0]) {
			return nil, false
		}
		e.emit(s, emEv{kind: "text", to: args[0], val: args[0], at: c})
		return nil, false
	}
	// handed to something that is not followed
	if callee == nil || !e.w.inModule(callee) {
		if strings.HasPrefix(name, "(*golang.org/x/text/message.Printer)") || strings.HasPrefix(name, "bufio.NewWriter") || strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasSuffix(name, ".Close") {
			return nil, false
		}
		for _, a := range args {
			x := strip(a)
			if x.typ != nil && isWriterType(x.typ) && !e.isStd(a) {
				e.emit(s, emEv{kind: "handed to " + name, to: a, val: a, at: c})
			}
		}
	}
	return nil, false
}

func (e *emitter) isStd(a *T) bool {
	x := strip(a)
	return x.op == "load" && len(x.args) > 0 && (strings.HasSuffix(x.args[0].s, "os.Stderr") || strings.HasSuffix(x.args[0].s, "os.Stdout") || strings.Contains(x.args[0].String(), "os.Std"))
}

func (e *emitter) loopKey(s *astate, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s/%d/%d", e.w.fname(h.Parent()), s.top().fid, h.Index)
}

// candidates: the numbers that count what was written to a stream, when a
// loop is about to be entered.
func (e *emitter) candidates(s *astate, h *ssa.BasicBlock, pred int, g *T) (out []emHyp) {
	k := e.k
	out = append(out, emHyp{ok: true}) // nothing is written
	try := func(v *T) (*T, bool) {
		d := k.sub(v, g)
		if d.op == "const" {
			return d, true
		}
		return nil, false
	}
	fr := s.top()
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInteger(phi.Type()) {
			continue
		}
		if d, ok := try(k.val(s, fr, phi.Edges[pred])); ok {
			out = append(out, emHyp{phi: phi, fid: fr.fid, d: d, ok: true})
		}
	}
	var as []*T
	for a, v := range s.mem {
		if v.typ != nil && isInteger(v.typ) && a.op != "idx" && !strings.Contains(a.s, "#") {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	for _, a := range as {
		if d, ok := try(s.mem[a]); ok {
			out = append(out, emHyp{addr: a, d: d, ok: true})
		}
	}
	out = append(out, emHyp{}) // not known
	return out
}

// run interprets f; init sets it up, then is called with the exits reached.
func (e *emitter) run(f *ssa.Function, setup func(k *ai), init func(s *astate), then func()) bool {
	for round := 0; round < 60; round++ {
		e.loops = map[string]*emLoop{}
		e.exits = nil
		e.again = false
		e.fails = nil
		e.begun = map[string]map[string]emHyp{}
		k := newAI(e.w, aclient{})
		e.k = k
		k.keep = true
		m := k.byteModel(byteHooks{put: e.put})
		k.model = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
			res, ok := m(k, s, c, callee, args)
			if ok && callee != nil && callee.RelString(nil) == "bytes.NewBuffer" {
				d := s.data.(*emState)
				d.g[res[0]] = k.num(0)
				if k.equal(s, k.lenOf(s, args[0]), k.num(0)) != 1 {
					e.emit(s, emEv{kind: "bytes", to: res[0], val: args[0], at: c})
				}
			}
			return res, ok
		}
		k.cl = e.hooks(&e.exits)
		if setup != nil {
			setup(k)
		}
		k.run(f, func(s *astate) {
			s.data = &emState{g: map[*T]*T{}, note: map[string]*T{}}
			init(s)
		})
		if k.gaveUp {
			return false
		}
		if !e.again && then != nil {
			then()
			if k.gaveUp {
				return false
			}
		}
		if !e.again {
			return true
		}
		e.settle()
	}
	return false
}

// resume interprets f from the memory of s.
func (e *emitter) resume(s *astate, tag string, f *ssa.Function, args []*T) []emExit {
	var out []emExit
	m := e.k.model
	cl := e.hooks(&out)
	s2 := s.clone(e.k)
	d := s2.data.(*emState)
	d.ev = nil
	e.resumeWith(s2, tag, f, args, cl, m)
	return out
}

func (e *emitter) resumeWith(s *astate, tag string, f *ssa.Function, args []*T, cl aclient, m func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool)) {
	e.k.resume(s, tag, f, args, cl)
}

func (e *emitter) hooks(exits *[]emExit) (cl aclient) {
	cl.clone = func(d any) any { return d.(*emState).clone() }
	cl.key = func(d any) string {
		x := d.(*emState)
		var b strings.Builder
		for _, v := range x.ev {
			fmt.Fprint(&b, v.kind, ",", v.to.id)
			if v.val != nil {
				fmt.Fprint(&b, ",", v.val.id)
			}
			b.WriteString(v.loop + ";")
		}
		var gs []string
		for a, g := range x.g {
			gs = append(gs, fmt.Sprint(a.id, "=", g.id))
		}
		for a, g := range x.note {
			if g == nil {
				gs = append(gs, a+"=nil")
				continue
			}
			gs = append(gs, fmt.Sprint(a, "=", g.id))
		}
		sort.Strings(gs)
		return b.String() + strings.Join(gs, ",")
	}
	cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if e.call != nil {
			if res, ok, inl := e.call(s, c, callee, args); ok || !inl {
				return res, ok, inl
			}
		}
		if res, ok := e.writes(s, c, callee, args); ok {
			return res, true, false
		}
		return nil, false, true
	}
	pend := map[string]emHyp{}
	cl.pre = func(k *ai, s *astate, h *ssa.BasicBlock, pred int) {
		d := s.data.(*emState)
		key := e.loopKey(s, h)
		pend = map[string]emHyp{}
		for _, to := range e.streams(d) {
			cs := e.candidates(s, h, pred, d.g[to])
			for _, c := range cs {
				if !c.ok || !e.gone[key+"/"+to.String()+"/"+c.name()] {
					pend[to.String()] = c
					break
				}
			}
		}
	}
	cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*emState)
		key := e.loopKey(s, h)
		lp := e.loops[key]
		if lp == nil {
			lp = &emLoop{key: key}
			e.loops[key] = lp
		}
		elem := e.elem
		if elem == nil {
			elem = func(types.Type) bool { return true }
		}
		l, ok := k.listLoopOf(s, h, elem)
		lp.l, lp.isList = l, ok
		if !ok {
			lp.l.h = h
		}
		for _, to := range e.streams(d) {
			hy := pend[to.String()]
			switch {
			case hy.phi != nil:
				d.g[to] = k.sub(s.top().env[hy.phi], hy.d)
			case hy.addr != nil:
				d.g[to] = k.sub(k.load(s, hy.addr, hy.addr.typ.Underlying().(*types.Pointer).Elem()), hy.d)
			case hy.ok:
			default:
				d.g[to] = k.sym(fmt.Sprintf("bytes in #%d at %s", to.id, key), types.Typ[types.Int64])
			}
		}
		e.begun[key] = pend
		for n := range e.dirty[key] {
			if w := d.note["bufio:"+n]; w != nil {
				d.note["unflushed:"+n] = w
			}
		}
		x := emEv{kind: "loop", to: k.other("loop"), loop: key}
		d.ev = append(d.ev, x)
		if e.onHead != nil {
			e.onHead(s, lp)
		}
	}
	cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := s.data.(*emState)
		key := e.loopKey(s, h)
		lp := e.loops[key]
		if lp == nil {
			return
		}
		from := -1
		for i, x := range d.ev {
			if x.kind == "loop" && x.loop == key {
				from = i + 1
			}
		}
		if from < 0 {
			return
		}
		lp.bodies = append(lp.bodies, emBody{s.clone(k), append([]emEv(nil), d.ev[from:]...), lp.isList && k.stepsByOne(s, lp.l), e.w.posOf(h.Instrs[0])})
		for n := range d.note {
			if id := strings.TrimPrefix(n, "unflushed:"); id != n && !e.dirty[key][id] {
				if e.dirty[key] == nil {
					e.dirty[key] = map[string]bool{}
				}
				e.dirty[key][id] = true
				e.again = true
			}
		}
		// does the count still hold?
		for id, hy := range e.begun[key] {
			if !hy.ok {
				continue
			}
			for to, g := range d.g {
				if to.String() != id {
					continue
				}
				var want *T
				switch {
				case hy.phi != nil:
					want = k.sub(e.edge(s, h, hy.phi), hy.d)
				case hy.addr != nil:
					want = k.sub(k.load(s, hy.addr, hy.addr.typ.Underlying().(*types.Pointer).Elem()), hy.d)
				default:
					// nothing is written: no event with this stream
					touched := false
					for _, x := range d.ev[from:] {
						if x.to == to || x.kind == "move" && x.val == to {
							touched = true
						}
					}
					for _, in := range d.ev[from:] {
						if in.kind == "loop" {
							if hy2, ok := e.begun[in.loop][id]; ok && !(hy2.ok && hy2.phi == nil && hy2.addr == nil) {
								touched = true
							}
						}
					}
					if !touched {
						continue
					}
					// it may be the same again at the end
					if e.startCount(lp, s, to) != nil && e.startCount(lp, s, to) == g {
						continue
					}
					want = nil
				}
				if want != nil && k.equal(s, want, g) == 1 {
					continue
				}
				fl := emFail{loop: key, id: id, name: hy.name(), inner: map[string]bool{}}
				for _, x := range d.ev[from:] {
					if x.kind == "loop" {
						fl.inner[x.loop] = true
					}
				}
				e.fails = append(e.fails, fl)
				e.again = true
			}
		}
	}
	cl.exit = func(k *ai, s *astate, kind aexit, at ssa.Instruction, res []*T) {
		if kind != aReturn {
			return
		}
		*exits = append(*exits, emExit{s.clone(k), res, e.w.posOf(at)})
	}
	return cl
}

// startCount: with the hypothesis that nothing changes, the count at the head.
func (e *emitter) startCount(lp *emLoop, s *astate, to *T) *T {
	d := s.data.(*emState)
	n := 0
	var g *T
	for _, x := range d.ev {
		if x.kind == "loop" && x.loop == lp.key {
			n, g = 0, nil
			continue
		}
		if x.to == to {
			if n == 0 {
				g = x.pos
			}
			n++
		}
	}
	return g
}

func (e *emitter) streams(d *emState) (out []*T) {
	for t := range d.g {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// edge: the value a phi of the loop goes on with, at its back edge.
func (e *emitter) edge(s *astate, h *ssa.BasicBlock, phi *ssa.Phi) *T {
	fr := s.top()
	for i, p := range h.Preds {
		if p == fr.pred {
			return e.k.val(s, fr, phi.Edges[i])
		}
	}
	return e.k.other("?")
}

// ---- what arrives ------------------------------------------------------------

// An emItem is a value that arrives at an output, or a loop of them.
type emItem struct {
	emEv
	lp     *emLoop
	bodies [][]emItem
	states []emBody
}

// arrives: what arrives at the output during ev, and what stays in buffers.
// A buffer's contents at the beginning are taken to be empty.
func (e *emitter) arrives(ev []emEv) map[*T][]emItem {
	out := map[*T][]emItem{}
	for _, x := range ev {
		switch x.kind {
		case "move":
			out[x.to] = append(out[x.to], e.shifted(out[x.val], x.pos)...)
			out[x.val] = nil
		case "copy":
			out[x.to] = append(out[x.to], e.shifted(out[x.val], x.pos)...)
		case "reset":
			if len(out[x.to]) > 0 {
				out[x.to] = append([]emItem{}, emItem{emEv: emEv{kind: "thrown away", to: x.to, val: x.to, at: x.at}})
			}
		case "loop":
			lp := e.loops[x.loop]
			if lp == nil {
				continue
			}
			touched := map[*T]bool{}
			var per []map[*T][]emItem
			for _, b := range lp.bodies {
				m := e.arrives(b.ev)
				per = append(per, m)
				for t, its := range m {
					if len(its) > 0 {
						touched[t] = true
					}
				}
				for _, y := range b.ev {
					if y.kind == "move" || y.kind == "reset" {
						// what was in the buffer before goes with the first round, if there is one
						if y.val != nil && y.kind == "move" && len(out[y.val]) > 0 {
							its := out[y.val]
							out[y.val] = nil
							out[y.to] = append(out[y.to], emItem{emEv: emEv{kind: "only with the first round", to: y.to, val: y.val, at: its[0].at}})
						}
						if y.kind == "reset" && len(out[y.to]) > 0 {
							touched[y.to] = true
							out[y.to] = append(out[y.to], emItem{emEv: emEv{kind: "thrown away", to: y.to, val: y.to, at: y.at}})
						}
					}
				}
			}
			var ts []*T
			for t := range touched {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
			for _, t := range ts {
				it := emItem{emEv: x, lp: lp}
				it.to = t
				for i := range per {
					it.bodies = append(it.bodies, per[i][t])
					it.states = append(it.states, lp.bodies[i])
				}
				out[t] = append(out[t], it)
			}
		default:
			out[x.to] = append(out[x.to], emItem{emEv: x})
		}
	}
	return out
}

// shifted: the items with positions from the start of where they go.
func (e *emitter) shifted(its []emItem, by *T) []emItem {
	out := append([]emItem(nil), its...)
	for i := range out {
		if out[i].pos != nil {
			out[i].pos = e.k.add(by, out[i].pos)
		}
	}
	return out
}

func (it emItem) String() string {
	switch it.kind {
	case "loop":
		return "a loop"
	case "le1", "le2", "le4", "le8", "be2", "be4", "be8":
		o := ""
		if it.kind[0] == 'b' {
			o = " big-endian"
		}
		return fmt.Sprintf("a %c-byte%s number (%s)", it.kind[2], o, shortT(it.val))
	case "slen":
		return fmt.Sprintf("the length %s", shortT(it.val))
	case "string", "str8", "str16", "str":
		return fmt.Sprintf("the string %s", shortT(it.val))
	case "ints":
		return fmt.Sprintf("the list %s", shortT(it.val))
	case "bytes":
		return fmt.Sprintf("the bytes %s", shortT(it.val))
	case "seekcur", "seekset":
		return fmt.Sprintf("a jump (%s) by %s", it.kind, shortT(it.val))
	}
	return it.kind
}

func shortT(t *T) string {
	if t == nil {
		return "-"
	}
	s := t.String()
	if len(s) > 90 {
		s = s[:90] + "..."
	}
	return s
}

// ---- matching ------------------------------------------------------------------

// A pat is what should arrive: a value of a kind, or a loop over a list with a
// body.
type pat struct {
	what string
	kind string // "loop", or kinds separated by |
	ok   func(s *astate, it emItem) bool
	list func(s *astate, lp *emLoop) bool // for loops: goes through the right list, to its end
	body func(s *astate, lp *emLoop) []pat
	// counted: list sees to it that the loop goes on by one
	counted bool
}

type emMiss struct {
	at, msg string
	s       *astate
}

// match: what arrives is what should. s is the state at the end.
func (e *emitter) match(s *astate, items []emItem, ps []pat, at string) *emMiss {
	i := 0
	for _, p := range ps {
		if i >= len(items) {
			return &emMiss{at, fmt.Sprintf("ends before %s", p.what), s}
		}
		it := items[i]
		pos := at
		if it.at != nil {
			pos = e.w.posOf(it.at)
		}
		if it.kind == "loop" {
			pos = e.w.posOf(it.lp.l.h.Instrs[0])
		}
		if !kindIn(it.kind, p.kind) {
			return &emMiss{pos, fmt.Sprintf("writes %s where %s belongs", it, p.what), s}
		}
		if p.kind == "loop" {
			if p.list != nil && !p.list(s, it.lp) {
				return &emMiss{pos, fmt.Sprintf("is not known to go through %s, one by one and to its end", p.what), s}
			}
			if len(it.bodies) == 0 {
				return &emMiss{pos, fmt.Sprintf("has no round of %s", p.what), s}
			}
			for j, b := range it.bodies {
				if p.list != nil && !p.counted && !it.states[j].next {
					return &emMiss{it.states[j].at, fmt.Sprintf("does not go on with the next of %s", p.what), it.states[j].s}
				}
				if m := e.match(it.states[j].s, b, p.body(it.states[j].s, it.lp), it.states[j].at); m != nil {
					return m
				}
			}
		} else if p.ok != nil && !p.ok(s, it) {
			return &emMiss{pos, fmt.Sprintf("writes %s where %s belongs", it, p.what), s}
		}
		i++
	}
	if i < len(items) {
		pos := at
		if items[i].at != nil {
			pos = e.w.posOf(items[i].at)
		}
		return &emMiss{pos, fmt.Sprintf("writes %s after everything that belongs there", items[i]), s}
	}
	return nil
}

func kindIn(kind, of string) bool {
	for _, x := range strings.Split(of, "|") {
		if x == kind {
			return true
		}
	}
	return false
}

// unflushed: buffered writers made on the way to z are flushed.
func (l *layout) unflushed(e *emitter, z emExit, who string) {
	for n := range z.s.data.(*emState).note {
		if id := strings.TrimPrefix(n, "unflushed:"); id != n {
			l.miss(e, who, &emMiss{z.at, "returns without flushing what it wrote to a buffered writer", z.s})
		}
	}
}
