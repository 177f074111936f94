package main

// C29: lines are read whole.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C29", "abstract interpretation: contents of the buffers as sequences of what was read, with loop invariants found by elimination; typestate of the last read; freshness of the reader's own buffer", checkLines)
}

type lineCheck struct {
	w    *World
	r    *Report
	seen map[string]bool
}

func (x *lineCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "lines", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkLines(w *World, r *Report) {
	x := &lineCheck{w: w, r: r, seen: map[string]bool{}}
	x.reader(w.must(w.method("internal/lnreader", "LineNumberReader", "ReadLine"), "LineNumberReader.ReadLine"), "NumLine")
	x.reader(w.must(w.method("dictionary", "lexiconReader", "readLine"), "lexiconReader.readLine"), "numLine")
	x.reader(w.must(w.method("gosudachicli", "lineScanner", "Scan"), "lineScanner.Scan"), "")
	if f := w.method("gosudachicli", "lineScanner", "Text"); f != nil {
		x.text(f)
	}
	r.floor("lines given", 6)
	r.floor("ends of input", 3)
}

// A lineState knows what has been read in this call, as a sequence of reads,
// and which values hold parts of it.
type lineState struct {
	all     []*T
	err     *T // of the last read
	content map[*T][]*T
	direct  map[*T]bool // it is in the reader's own buffer
	entry   map[*ssa.BasicBlock][]lineVar
	hyp     map[*ssa.BasicBlock][]lineVar
	full    map[*ssa.BasicBlock]bool // the last read filled the buffer
}

// A lineVar is a variable that goes round a loop with a part of what was read.
type lineVar struct {
	kind   string
	phi    *ssa.Phi
	addr   *T
	typ    types.Type
	direct bool
}

func (v lineVar) name() string {
	if v.phi != nil {
		return v.phi.Parent().String() + v.phi.Name()
	}
	return v.addr.String()
}

func (d *lineState) clone() *lineState {
	n := &lineState{all: append([]*T(nil), d.all...), err: d.err, content: map[*T][]*T{}, direct: map[*T]bool{}, entry: map[*ssa.BasicBlock][]lineVar{}, hyp: map[*ssa.BasicBlock][]lineVar{}, full: map[*ssa.BasicBlock]bool{}}
	for a, b := range d.content {
		n.content[a] = b
	}
	for a, b := range d.direct {
		n.direct[a] = b
	}
	for a, b := range d.entry {
		n.entry[a] = b
	}
	for a, b := range d.hyp {
		n.hyp[a] = b
	}
	for a, b := range d.full {
		n.full[a] = b
	}
	return n
}

func (d *lineState) key() string {
	var r []string
	for t, c := range d.content {
		l := fmt.Sprint(t.id, d.direct[t], ":")
		for _, a := range c {
			l += fmt.Sprint(a.id, ",")
		}
		r = append(r, l)
	}
	sort.Strings(r)
	l := ""
	for _, a := range d.all {
		l += fmt.Sprint(a.id, ",")
	}
	e := -1
	if d.err != nil {
		e = d.err.id
	}
	return fmt.Sprint(l, e, r)
}

func sameSeq(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// same: the same text, leaving out what is known to be empty.
func (x *lineCheck) same(k *ai, s *astate, a, b []*T) bool {
	if sameSeq(a, b) {
		return true
	}
	d := s.data.(*lineState)
	none := map[*T]bool{}
	for t, c := range d.content {
		if k.rangeOf(s, k.lenOf(s, t)).hi <= 0 {
			for _, e := range c {
				none[e] = true
			}
		}
	}
	left := func(l []*T) (r []*T) {
		for _, e := range l {
			if !none[e] {
				r = append(r, e)
			}
		}
		return
	}
	return sameSeq(left(a), left(b))
}

func isByteList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(sl.Elem(), types.Uint8)
}

// contentOf: what a value holds of what was read; ok is false if that is not known.
func (x *lineCheck) contentOf(k *ai, s *astate, t *T) (seq []*T, direct, ok bool) {
	d := s.data.(*lineState)
	if c, ok := d.content[t]; ok {
		return c, d.direct[t], true
	}
	switch t.op {
	case "nil":
		return nil, false, true
	case "mkslice":
		if k.rangeOf(s, t.args[0]).hi <= 0 {
			return nil, false, true
		}
	case "slice":
		if t.args[1].op == "nil" && t.args[2].op != "nil" && k.rangeOf(s, t.args[2]).hi <= 0 {
			return nil, false, true
		}
	case "cast":
		return x.contentOf(k, s, t.args[0])
	}
	return nil, false, false
}

func (x *lineCheck) reader(f *ssa.Function, number string) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + ": whole lines, one after the other")
	x.source(f, who, number)
	gone := map[string]bool{}
	for {
		y := &lineCheck{w: w, r: &Report{Counts: map[string]int{}}, seen: map[string]bool{}}
		n := len(gone)
		y.once(f, who, number, gone)
		if len(gone) == n {
			// the invariants hold
			for _, f := range y.r.Findings {
				x.r.add(f)
			}
			for c, n := range y.r.Counts {
				x.r.count(c, n)
			}
			return
		}
	}
}

// source: the reader is made from what was given, and nobody else reads from
// it or changes the number of lines.
func (x *lineCheck) source(f *ssa.Function, who, number string) {
	w := x.w
	nt := namedOf2(f)
	inside := w.reachable([]*ssa.Function{f})
	isReader := func(v ssa.Value) bool {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || namedOf(fa.X.Type()) != nt {
			return false
		}
		p, ok := fa.Type().Underlying().(*types.Pointer)
		return ok && p.Elem().String() == "*bufio.Reader"
	}
	var given func(v ssa.Value, n int) bool
	given = func(v ssa.Value, n int) bool {
		switch v := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar, *ssa.Alloc:
			return true
		case *ssa.ChangeInterface:
			return given(v.X, n)
		case *ssa.MakeInterface:
			return given(v.X, n)
		case *ssa.ChangeType:
			return given(v.X, n)
		case *ssa.UnOp:
			return true
		case *ssa.Phi:
			if n > 8 {
				return true
			}
			for _, e := range v.Edges {
				if !given(e, n+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return given(v.Tuple, n)
		case *ssa.TypeAssert:
			return given(v.X, n)
		case *ssa.Call:
			g := v.Call.StaticCallee()
			if g == nil {
				return true
			}
			switch g.String() {
			case "bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader", "io.NopCloser":
				return given(v.Call.Args[0], n)
			}
			return w.inModule(g)
		}
		return false
	}
	for _, g := range w.allFns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if isReader(st.Addr) {
						x.r.count("readers made", 1)
						if !given(st.Val, 0) {
							x.bad(nil, nil, "source:"+who, w.posOf(in), w.fname(g)+" makes a reader of lines from something else than what it was given")
						}
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && number != "" && namedOf(fa.X.Type()) == nt && fa.Field == fieldNamed(nt, number) && !inside[g] {
						if _, ok := fa.X.(*ssa.Alloc); !ok {
							x.bad(nil, nil, "counted:"+who, w.posOf(in), w.fname(g)+" changes the number of lines though it reads none")
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok || inside[g] || c.Common().StaticCallee() == nil || len(c.Common().Args) == 0 {
					continue
				}
				u, ok := c.Common().Args[0].(*ssa.UnOp)
				if !ok || !isReader(u.X) || namedOf(c.Common().Args[0].Type()).Obj().Pkg().Path() != "bufio" {
					continue
				}
				switch c.Common().StaticCallee().String() {
				case "(*bufio.Reader).Peek", "(*bufio.Reader).Buffered", "(*bufio.Reader).Size":
				default:
					x.bad(nil, nil, "other:"+who, w.posOf(in), w.fname(g)+" takes something from the reader that "+who+" reads lines from")
				}
			}
		}
	}
}

// text: what the scanner tells is the line.
func (x *lineCheck) text(f *ssa.Function) {
	w := x.w
	who := w.fname(f)
	x.r.oblige(who + ": the line itself")
	k := newAI(w, aclient{})
	k.keep = true
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		n++
		t := res[0]
	peel:
		for {
			switch {
			case t.op == "conv" || t.op == "cast":
				t = t.args[0]
			case t.op == "slice" && t.args[1].op == "nil" && (t.args[2].op == "nil" || k.equal(s, t.args[2], k.lenOf(s, t.args[0])) == 1):
				t = t.args[0]
			case t.op == "appendn" && len(t.args) == 2 && k.rangeOf(s, k.lenOf(s, t.args[0])).hi <= 0:
				t = t.args[1]
			default:
				break peel
			}
		}
		if t != k.ldf(s, k.val(s, s.top(), f.Params[0]), namedOf2(f), "line") {
			x.bad(k, s, "text:"+who, w.posOf(at), who+" gives "+shortT(t)+", not the line")
		}
	}
	k.run(f, nil)
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func (x *lineCheck) once(f *ssa.Function, who, number string, gone map[string]bool) {
	w := x.w
	sure, unsure := map[string]bool{}, map[string]bool{}
	defer func() {
		if len(sure) == 0 {
			sure = unsure
		}
		for g := range sure {
			gone[g] = true
		}
	}()
	rt := namedOf2(f)
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	dat := func(s *astate) *lineState { return s.data.(*lineState) }
	errVar := func(s *astate, pkg, name string) *T {
		for _, p := range w.prog.AllPackages() {
			if p.Pkg.Path() == pkg {
				g := p.Members[name].(*ssa.Global)
				return k.mk(&T{op: "sentinel", s: g.String(), typ: g.Type().(*types.Pointer).Elem(), v: g})
			}
		}
		panic(pkg + "." + name)
	}
	isEOF := func(s *astate, e *T) int { return k.truth(s, k.eq(e, errVar(s, "io", "EOF"))) }
	isFull := func(s *astate, e *T) int { return k.truth(s, k.eq(e, errVar(s, "bufio", "ErrBufferFull"))) }
	scan := f.Signature.Results().Len() == 1
	mark := func(d *lineState, t *T, c []*T, direct bool) {
		d.content[t] = append([]*T(nil), c...)
		if direct {
			d.direct[t] = true
		} else {
			delete(d.direct, t)
		}
	}
	k.cl.clone = func(d any) any { return d.(*lineState).clone() }
	k.cl.key = func(d any) string { return d.(*lineState).key() }
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := dat(s)
		if b, ok := c.Common().Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || !isByteList(c.Value().Type()) || len(args) != 2 {
				return nil, false, true
			}
			c1, _, ok1 := x.contentOf(k, s, args[0])
			c2, _, ok2 := x.contentOf(k, s, args[1])
			t := k.mk(&T{op: "appendn", s: "@" + s.top().here(), typ: c.Value().Type(), args: args, in: c})
			delete(d.content, t)
			if d.direct[args[0]] {
				ok1 = false // it would write into the reader's buffer
			}
			if ok1 && ok2 {
				mark(d, t, append(append([]*T(nil), c1...), c2...), false)
			}
			return []*T{t}, true, false
		}
		if callee == nil {
			return nil, false, true
		}
		switch callee.String() {
		case "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString":
			if v, ok := args[1].intVal(); !ok || v != 10 {
				x.bad(k, s, "delim:"+who, w.posOf(c), who+" reads up to something else than a line end")
			}
			if d.err != nil && isFull(s, d.err) != 1 {
				x.bad(k, s, "more:"+who, w.posOf(c), who+" can read on though the line may have ended")
			}
			res := k.opaque(s, s.top(), c, callee, args)
			for t := range d.direct {
				delete(d.content, t)
			}
			d.direct = map[*T]bool{}
			d.all = append(append([]*T(nil), d.all...), res[0])
			mark(d, res[0], []*T{res[0]}, callee.Name() == "ReadSlice")
			d.err = res[1]
			if callee.Name() != "ReadSlice" {
				k.assume(s, k.eq(d.err, errVar(s, "bufio", "ErrBufferFull")), false)
			}
			return res, true, false
		case "(*bufio.Reader).Peek", "(*bufio.Reader).Buffered", "(*bufio.Reader).Size":
			return nil, false, false
		case "bytes.TrimSuffix", "bytes.HasSuffix", "bytes.Equal", "bytes.HasPrefix":
			return k.opaque(s, s.top(), c, callee, args), true, false
		}
		if sig := callee.Signature; sig.Recv() != nil && sig.Recv().Type().String() == "*bufio.Reader" {
			x.bad(k, s, "other:"+who, w.posOf(c), who+" takes something else than whole lines with "+callee.Name())
		}
		return nil, false, w.inModule(callee)
	}
	kinds := func(s *astate, t *T, err bool) (ks []string, direct bool) {
		d := dat(s)
		if err {
			if t == d.err && t != nil {
				return []string{"err"}, false
			}
			return nil, false
		}
		c, direct, ok := x.contentOf(k, s, t)
		if !ok {
			return nil, false
		}
		n := len(d.all)
		if sameSeq(c, d.all) {
			ks = append(ks, "whole")
		}
		if n > 0 && sameSeq(c, d.all[:n-1]) {
			ks = append(ks, "prefix")
		}
		if n > 0 && sameSeq(c, d.all[n-1:]) {
			ks = append(ks, "last")
		}
		return
	}
	k.cl.pre = func(k *ai, s *astate, h *ssa.BasicBlock, pred int) {
		d := dat(s)
		var vs []lineVar
		for a, v := range s.mem {
			if v.typ == nil || !isByteList(v.typ) && !isErrorType(v.typ) {
				continue
			}
			ks, direct := kinds(s, v, isErrorType(v.typ))
			for _, kd := range ks {
				vs = append(vs, lineVar{kind: kd, addr: a, typ: v.typ, direct: direct})
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].name()+vs[i].kind < vs[j].name()+vs[j].kind })
		d.entry[h] = vs
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := dat(s)
		fr := s.top()
		vs := d.entry[h]
		for _, p := range phisOf(h) {
			if e := k.edgeVal(s, p); e != nil && (isByteList(p.Type()) || isErrorType(p.Type())) {
				ks, direct := kinds(s, e, isErrorType(p.Type()))
				for _, kd := range ks {
					vs = append(vs, lineVar{kind: kd, phi: p, typ: p.Type(), direct: direct})
				}
			}
		}
		if d.err == nil {
			// nothing read yet
			d.hyp[h] = nil
			return
		}
		g1 := k.sym(fmt.Sprint("read before ", h.Parent(), h.Index), types.Typ[types.String])
		g2 := k.sym(fmt.Sprint("read last ", h.Parent(), h.Index), types.Typ[types.String])
		ge := k.sym(fmt.Sprint("error ", h.Parent(), h.Index), errorType)
		d.full[h] = isFull(s, d.err) == 1 && !gone[fmt.Sprint(h.Parent(), h.Index, "full")]
		d.all, d.err = []*T{g1, g2}, ge
		if d.full[h] {
			k.assume(s, k.eq(ge, errVar(s, "bufio", "ErrBufferFull")), true)
		}
		for t := range d.content {
			delete(d.content, t)
			delete(d.direct, t)
		}
		done := map[string]bool{}
		d.hyp[h] = nil
		for _, kd := range []string{"err", "whole", "prefix", "last"} {
			for _, v := range vs {
				if v.kind != kd || done[v.name()] || gone[fmt.Sprint(h.Parent(), h.Index, v.name(), kd)] {
					continue
				}
				done[v.name()] = true
				d.hyp[h] = append(d.hyp[h], v)
				var t *T
				if kd == "err" {
					t = ge
				} else {
					t = k.sym(fmt.Sprint(v.name(), " at ", h.Parent(), h.Index), v.typ)
				}
				if v.phi != nil {
					fr.env[v.phi] = t
				} else {
					k.store(s, fr, v.addr, t, v.typ)
				}
				switch kd {
				case "whole":
					mark(d, t, d.all, v.direct)
				case "prefix":
					mark(d, t, d.all[:1], v.direct)
				case "last":
					mark(d, t, d.all[1:], v.direct)
				}
			}
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := dat(s)
		if d.full[h] && isFull(s, d.err) != 1 {
			gone[fmt.Sprint(h.Parent(), h.Index, "full")] = true
		}
		for _, v := range d.hyp[h] {
			var t *T
			if v.phi != nil {
				t = k.edgeVal(s, v.phi)
			} else {
				t = k.load(s, v.addr, v.typ)
			}
			ks, direct := kinds(s, t, v.kind == "err")
			good := false
			for _, kd := range ks {
				good = good || kd == v.kind
			}
			if !good || direct && !v.direct {
				// what depends on a wrong guess about another variable is
				// eliminated only when that one has been corrected
				to := unsure
				if len(ks) > 0 {
					to = sure
				}
				to[fmt.Sprint(h.Parent(), h.Index, v.name(), v.kind)] = true
			}
		}
	}
	var recv, line0 *T
	n := 0
	var exit func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T)
	exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		if how != aReturn {
			return
		}
		if scan && k.truth(s, res[0]) == 0 {
			for _, v := range []bool{true, false} {
				if b := s.clone(k); k.assume(b, res[0], v) {
					exit(k, b, how, at, res)
				}
			}
			return
		}
		n++
		d := dat(s)
		pos := w.posOf(at)
		say := func(key, msg string) { x.bad(k, s, key+":"+who, pos, who+" "+msg) }
		if d.err == nil {
			say("unread", "can return without having read")
			return
		}
		eof, full, null := isEOF(s, d.err), isFull(s, d.err), -k.nonNil(s, d.err)
		if eof == 1 && (full == 1 || null == 1) || full == 1 && null == 1 {
			return // cannot be
		}
		var line *T
		given := 0
		if scan {
			line = k.ldf(s, recv, rt, "line")
			given = k.truth(s, res[0])
		} else {
			line = res[0]
			given = -k.nonNil(s, res[1])
		}
		if given == 0 && !scan && res[1] == d.err {
			given = null
		}
		if given == 0 {
			say("known", "can return without having found out whether there was a line")
			return
		}
		// which value holds all that was read, and how much of it is left out
		cut := int64(-1)
		whole := line
		trim := false
		if isRes(line, "bytes.TrimSuffix") {
			if c, ok := k.textOfBytes(s, line.args[1]); ok && c == "\r" {
				trim = true
				line = line.args[0]
				whole = line
			}
		}
		if c, _, ok := x.contentOf(k, s, line); ok && x.same(k, s, c, d.all) {
			cut = 0
		} else if line.op == "slice" && line.args[1].op == "nil" && line.args[2].op != "nil" {
			whole = line.args[0]
			if c, _, ok := x.contentOf(k, s, whole); ok && x.same(k, s, c, d.all) {
				if m, ok := k.sub(k.lenOf(s, whole), line.args[2]).intVal(); ok {
					cut = m
				}
			}
		}
		size := k.rangeOf(s, k.lenOf(s, whole))
		if given == -1 {
			x.r.count("ends of input", 1)
			if full != -1 && eof != 1 {
				say("long", "can fail at a long line")
			}
			if !scan && res[1] != d.err {
				say("error", "does not give the error of the last read")
			}
			if eof != -1 {
				// the last line has no end
				none := cut == 0 && size.hi <= 0
				for t, c := range d.content {
					none = none || x.same(k, s, c, d.all) && k.rangeOf(s, k.lenOf(s, t)).hi <= 0
				}
				if !none {
					say("last", "can leave out a last line without an end")
				}
			}
			if null != -1 && eof != 1 {
				if !(scan && null == -1) && k.nonNil(s, d.err) != 1 {
					say("known", "can give no line though one was read")
				}
			}
			x.number(k, s, recv, rt, number, line0, 0, say)
			return
		}
		x.r.count("lines given", 1)
		x.number(k, s, recv, rt, number, line0, 1, say)
		switch {
		case cut < 0:
			say("whole", fmt.Sprintf("gives %s as the line, which may not be all that was read", shortT(line)))
		case eof == 1:
			if cut != 0 {
				say("cut", "cuts off the end of a last line that has no end")
			}
			if size.lo <= 0 {
				say("none", "can give an empty line at the end of the input")
			}
		case null == 1:
			l := k.lenOf(s, whole)
			last := func(n int64, v int64) int {
				return k.truth(s, k.eq(k.elemAt(s, whole, k.sub(l, k.num(n))), k.num(v)))
			}
			if last(1, 10) == -1 || k.rangeOf(s, l).hi <= 0 {
				return // a line that ends ends with a line end
			}
			cr := last(2, 13)
			if k.rangeOf(s, l).hi <= 1 {
				cr = -1
			}
			walk := func(suffix string) int { // what HasSuffix said
				for _, t := range append([]*T{}, k.all...) {
					if isRes(t, "bytes.HasSuffix") && t.args[0] == whole {
						if c, ok := k.textOfBytes(s, t.args[1]); ok && c == suffix {
							if v := k.truth(s, t); v != 0 {
								return v
							}
						}
					}
				}
				return 0
			}
			if v := walk("\r\n"); v != 0 {
				cr = v
			}
			switch {
			case scan:
				if cut != 1 {
					say("cut", "does not cut off exactly the line end")
				}
			case trim:
				if cut != 1 {
					say("cut", "does not cut off exactly the line end")
				}
			case cr == 0:
				say("cr", "cuts off a line end without having looked for a carriage return")
			case cut != (3+int64(cr))/2:
				say("cut", "does not cut off exactly the line end")
			}
			if cut == 2 && k.rangeOf(s, l).lo < 2 {
				say("short", "can cut off more than there is")
			}
		default:
			say("failed", "can give a line though reading failed")
		}
	}
	k.cl.exit = exit
	k.run(f, func(s *astate) {
		s.data = &lineState{content: map[*T][]*T{}, direct: map[*T]bool{}, entry: map[*ssa.BasicBlock][]lineVar{}, hyp: map[*ssa.BasicBlock][]lineVar{}, full: map[*ssa.BasicBlock]bool{}}
		recv = k.val(s, s.top(), f.Params[0])
		if number != "" {
			line0 = k.ldf(s, recv, rt, number)
		}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup:"+who, w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

func (x *lineCheck) number(k *ai, s *astate, recv *T, rt types.Type, field string, before *T, more int64, say func(key, msg string)) {
	if field == "" {
		return
	}
	if k.equal(s, k.ldf(s, recv, rt, field), k.add(before, k.num(more))) != 1 {
		say("number", "does not count exactly the lines it gives")
	}
}

// textOfBytes: the text of a literal list of bytes.
func (k *ai) textOfBytes(s *astate, t *T) (string, bool) {
	if v, ok := strip(t).strVal(); ok {
		return v, true
	}
	es := k.elemsOf(s, t)
	if es == nil {
		return "", false
	}
	r := ""
	for _, e := range es {
		v, ok := e.intVal()
		if !ok {
			return "", false
		}
		r += string(rune(v))
	}
	return r, true
}
