package main

// A path-sensitive, inlining typestate walker over SSA. It enumerates the
// control-flow paths of an entry function (joining equal abstract states),
// follows module callees a client finds relevant, names values canonically
// (through phis, parameters, results, local and field cells, interface
// conversions, closures), knows nil-ness and boolean facts only from the
// branches taken, and lets a client attach a typestate. It never evaluates
// data: every unknown condition is followed both ways.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cv is a canonical value name:
//
//	{fid:name}   an SSA value of frame fid ({fid:name'}: an older instance)
//	nil true false #n "s   constants
//	base.field base[i] base[*] @global   addresses
//	(a op b) !a len(a)   pure expressions
type cv = string

type wframe struct {
	fn      *ssa.Function
	fid     int
	blk     *ssa.BasicBlock
	idx     int
	call    ssa.CallInstruction // in the caller's frame
	ignore  bool                // result not bound (deferred)
	defers  []dcall
	entered bool
}

type dcall struct {
	c    ssa.CallInstruction
	val  cv
	args []cv
}

type wstate struct {
	stack []*wframe
	env   map[string]cv // "fid:name" -> canonical
	cells map[cv]cv
	facts map[string]int8 // canonical -> +1 non-nil/true, -1 nil/false
	data  any
	from  *wstate
	note  string
}

func (s *wstate) top() *wframe { return s.stack[len(s.stack)-1] }

type wexit int

const (
	exitReturn wexit = iota
	exitOS0          // the process exits with a status that may be 0
)

type wclient interface {
	// call is asked about every call. callee is nil when unresolved. It
	// returns successor states (nil: this state goes on) and whether the
	// walker should step into the callee.
	call(w *walker, st *wstate, c ssa.CallInstruction, callee *ssa.Function, args []cv, deferred bool) (outs []*wstate, inline bool)
	exit(w *walker, st *wstate, kind wexit, at ssa.Instruction, results []cv)
	store(w *walker, st *wstate, addr, val cv, in ssa.Instruction)
	branch(w *walker, st *wstate, in *ssa.If, edge int) bool // false: prune
	clone(d any) any
	key(d any) string
	rename(d any, from, to cv)
	uses(d any, c cv) bool
}

// elemLoader lets a client name what is loaded from an element of unknown
// index.
type elemLoader interface {
	elem(k *walker, st *wstate, addr cv, in *ssa.UnOp) cv
}

type winfo struct {
	v   ssa.Value
	fid int
}

type walker struct {
	w       *World
	cl      wclient
	fids    map[string]int
	fidFn   []*ssa.Function
	info    map[cv]winfo
	live    map[*ssa.Function]*liveInfo
	steps   int
	limit   int
	gaveUp  bool
	noRet   map[*ssa.Function]bool
	maxDep  int
	storesC map[*ssa.Function]map[string]bool
	shapes  map[*ssa.Function]map[string]int
}

func newWalker(w *World, cl wclient) *walker {
	return &walker{w: w, cl: cl, fids: map[string]int{}, fidFn: []*ssa.Function{nil}, info: map[cv]winfo{}, live: map[*ssa.Function]*liveInfo{}, limit: 400000, noRet: noReturnFns(w), maxDep: 10}
}

func (k *walker) fid(parent int, c ssa.Instruction, f *ssa.Function) int {
	s := fmt.Sprintf("%d|%p|%p", parent, c, f)
	if i, ok := k.fids[s]; ok {
		return i
	}
	i := len(k.fidFn)
	k.fids[s] = i
	k.fidFn = append(k.fidFn, f)
	return i
}

func (s *wstate) clone(k *walker) *wstate {
	n := &wstate{env: make(map[string]cv, len(s.env)), cells: make(map[cv]cv, len(s.cells)), facts: make(map[string]int8, len(s.facts)), from: s}
	for _, f := range s.stack {
		g := *f
		g.defers = append([]dcall(nil), f.defers...)
		n.stack = append(n.stack, &g)
	}
	for a, b := range s.env {
		n.env[a] = b
	}
	for a, b := range s.cells {
		n.cells[a] = b
	}
	for a, b := range s.facts {
		n.facts[a] = b
	}
	n.data = k.cl.clone(s.data)
	return n
}

func (k *walker) stateKey(s *wstate) string {
	var sb strings.Builder
	for _, f := range s.stack {
		fmt.Fprintf(&sb, "%d.%d.%d", f.fid, f.blk.Index, f.idx)
		for _, d := range f.defers {
			fmt.Fprintf(&sb, "/%p%s%s", d.c, d.val, strings.Join(d.args, ","))
		}
		sb.WriteByte(';')
	}
	for _, m := range []map[string]string{s.env, s.cells} {
		ks := make([]string, 0, len(m))
		for a, b := range m {
			ks = append(ks, a+"="+b)
		}
		sort.Strings(ks)
		sb.WriteString(strings.Join(ks, ","))
		sb.WriteByte('|')
	}
	ks := make([]string, 0, len(s.facts))
	for a, b := range s.facts {
		ks = append(ks, fmt.Sprintf("%s%d", a, b))
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	sb.WriteByte('|')
	sb.WriteString(k.cl.key(s.data))
	return sb.String()
}

func envKey(fid int, v ssa.Value) string { return fmt.Sprintf("%d:%s", fid, v.Name()) }

func selfCV(fid int, v ssa.Value) cv { return "{" + envKey(fid, v) + "}" }

func constCV(c *ssa.Const) cv {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return "zero"
		}
		return "nil"
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return "true"
		}
		return "false"
	case constant.String:
		return "\"" + constant.StringVal(c.Value)
	}
	return "#" + c.Value.ExactString()
}

func isConstCV(c cv) bool {
	return c == "nil" || c == "true" || c == "false" || c == "zero" || strings.HasPrefix(c, "#") || strings.HasPrefix(c, "\"")
}

// val names v in the frame.
func (k *walker) val(s *wstate, fid int, v ssa.Value) cv {
	switch v := v.(type) {
	case *ssa.Const:
		return constCV(v)
	case *ssa.Global:
		c := "@" + v.String()
		k.info[c] = winfo{v, 0}
		return c
	case *ssa.Function:
		c := "@" + v.String()
		k.info[c] = winfo{v, 0}
		return c
	case *ssa.Builtin:
		return "@builtin"
	}
	if c, ok := s.env[envKey(fid, v)]; ok {
		return c
	}
	c := selfCV(fid, v)
	k.info[c] = winfo{v, fid}
	return c
}

// def binds instruction value v to canonical c (or itself).
func (k *walker) def(s *wstate, fid int, v ssa.Value, c cv) {
	if c == "" || len(c) > 160 {
		c = selfCV(fid, v)
		k.info[c] = winfo{v, fid}
	}
	s.env[envKey(fid, v)] = c
}

// age renames the previous instance of v before v is computed again.
func (k *walker) age(s *wstate, fid int, v ssa.Value) {
	self := selfCV(fid, v)
	delete(s.env, envKey(fid, v))
	if !k.mentioned(s, self) {
		return
	}
	old := "{" + envKey(fid, v) + "'}"
	k.info[old] = winfo{v, fid}
	k.renameAll(s, self, old)
}

func (k *walker) mentioned(s *wstate, c cv) bool {
	for _, b := range s.env {
		if strings.Contains(b, c) {
			return true
		}
	}
	for a, b := range s.cells {
		if strings.Contains(a, c) || strings.Contains(b, c) {
			return true
		}
	}
	for a := range s.facts {
		if strings.Contains(a, c) {
			return true
		}
	}
	for _, f := range s.stack {
		for _, d := range f.defers {
			if strings.Contains(d.val, c) {
				return true
			}
			for _, a := range d.args {
				if strings.Contains(a, c) {
					return true
				}
			}
		}
	}
	return k.cl.uses(s.data, c)
}

func (k *walker) renameAll(s *wstate, from, to cv) {
	r := func(x string) string {
		if strings.Contains(x, from) {
			return strings.ReplaceAll(x, from, to)
		}
		return x
	}
	for a, b := range s.env {
		s.env[a] = r(b)
	}
	nc := map[cv]cv{}
	for a, b := range s.cells {
		a2, b2 := r(a), r(b)
		if o, ok := nc[a2]; ok && o != b2 {
			b2 = a2 + "?"
		}
		nc[a2] = b2
	}
	s.cells = nc
	nf := map[string]int8{}
	for a, b := range s.facts {
		a2 := r(a)
		if o, ok := nf[a2]; ok && o != b {
			nf[a2] = 0
			continue
		}
		nf[a2] = b
	}
	for a, b := range nf {
		if b == 0 {
			delete(nf, a)
		}
	}
	s.facts = nf
	for _, f := range s.stack {
		for i := range f.defers {
			f.defers[i].val = r(f.defers[i].val)
			for j := range f.defers[i].args {
				f.defers[i].args[j] = r(f.defers[i].args[j])
			}
		}
	}
	k.cl.rename(s.data, from, to)
}

// concreteType of a canonical value, when known.
func (k *walker) typeOf(c cv) types.Type {
	if i, ok := k.info[c]; ok && i.v != nil {
		return i.v.Type()
	}
	return nil
}

// ---- truth -------------------------------------------------------------------

func (k *walker) truth(s *wstate, c cv) int {
	switch c {
	case "true":
		return 1
	case "false":
		return -1
	}
	if f, ok := s.facts[c]; ok {
		return int(f)
	}
	if strings.HasPrefix(c, "!") {
		return -k.truth(s, c[1:])
	}
	if op, x, y, ok := splitExpr(c); ok {
		if op == "==" || op == "!=" {
			sign := 1
			if op == "!=" {
				sign = -1
			}
			if y == "nil" || x == "nil" {
				if x == "nil" {
					x, y = y, x
				}
				switch k.nilness(s, x) {
				case 1:
					return -sign
				case -1:
					return sign
				}
				return 0
			}
			if x == y && !strings.Contains(x, "*") {
				return sign
			}
			if isConstCV(x) && isConstCV(y) {
				return -sign
			}
			if f, ok := s.facts["("+y+" == "+x+")"]; ok {
				return sign * int(f)
			}
			if f, ok := s.facts["("+x+" == "+y+")"]; ok {
				return sign * int(f)
			}
			if f, ok := s.facts["("+x+" != "+y+")"]; ok {
				return -sign * int(f)
			}
			if y == "true" || y == "false" {
				t := k.truth(s, x)
				if y == "false" {
					t = -t
				}
				return sign * t
			}
		}
		if strings.HasPrefix(x, "#") && strings.HasPrefix(y, "#") {
			a := constant.MakeFromLiteral(x[1:], token.INT, 0)
			b := constant.MakeFromLiteral(y[1:], token.INT, 0)
			if a.Kind() == constant.Int && b.Kind() == constant.Int {
				var t token.Token
				switch op {
				case "<":
					t = token.LSS
				case "<=":
					t = token.LEQ
				case ">":
					t = token.GTR
				case ">=":
					t = token.GEQ
				default:
					return 0
				}
				if constant.Compare(a, t, b) {
					return 1
				}
				return -1
			}
		}
		// the complementary comparison
		comp := map[string]string{"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
		if o, ok := comp[op]; ok {
			if f, ok := s.facts["("+x+" "+o+" "+y+")"]; ok {
				return -int(f)
			}
		}
	}
	return 0
}

// nilness: 1 certainly non-nil, -1 certainly nil, 0 unknown.
func (k *walker) nilness(s *wstate, c cv) int {
	if c == "nil" {
		return -1
	}
	if f, ok := s.facts["nil?"+c]; ok {
		return int(f)
	}
	if i, ok := k.info[c]; ok {
		switch v := i.v.(type) {
		case *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Global:
			return 1
		case *ssa.Call:
			if makesError(v) {
				return 1
			}
		case *ssa.MakeInterface:
			if _, isPtr := v.X.Type().Underlying().(*types.Pointer); !isPtr {
				return 1
			}
		case *ssa.UnOp:
			if sentinelName(v) != "" {
				return 1
			}
		}
	}
	return 0
}

// splitExpr takes "(x op y)" apart.
func splitExpr(c cv) (op, x, y string, ok bool) {
	if len(c) < 5 || c[0] != '(' || c[len(c)-1] != ')' {
		return
	}
	in := c[1 : len(c)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(', '{', '[':
			d++
		case ')', '}', ']':
			d--
		case ' ':
			if d == 0 {
				j := strings.IndexByte(in[i+1:], ' ')
				if j < 0 {
					return
				}
				return in[i+1 : i+1+j], in[:i], in[i+2+j:], true
			}
		}
	}
	return
}

// assume records that c is (not) true; false: contradiction.
func (k *walker) assume(s *wstate, c cv, t bool) bool {
	if strings.HasPrefix(c, "!") {
		return k.assume(s, c[1:], !t)
	}
	v := int8(1)
	if !t {
		v = -1
	}
	if op, x, y, ok := splitExpr(c); ok && (op == "==" || op == "!=") {
		eq := t == (op == "==")
		if x == "nil" {
			x, y = y, x
		}
		if y == "nil" {
			n := int8(1)
			if eq {
				n = -1
			}
			s.facts["nil?"+x] = n
			return true
		}
		if y == "true" || y == "false" {
			return k.assume(s, x, eq == (y == "true"))
		}
		f := int8(1)
		if !eq {
			f = -1
		}
		s.facts["("+x+" == "+y+")"] = f
		return true
	}
	if !isConstCV(c) {
		s.facts[c] = v
	}
	return true
}

// ---- liveness ------------------------------------------------------------------

type liveInfo struct {
	in, out map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (k *walker) liveness(f *ssa.Function) *liveInfo {
	if l, ok := k.live[f]; ok {
		return l
	}
	l := &liveInfo{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	k.live[f] = l
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
		l.out[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := l.out[b]
			n := len(out)
			for _, t := range b.Succs {
				for v := range l.in[t] {
					out[v] = true
				}
				pi := -1
				for j, p := range t.Preds {
					if p == b {
						pi = j
					}
				}
				for _, in := range t.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					out[phi.Edges[pi]] = true
				}
			}
			if len(out) != n {
				ch = true
			}
			in := l.in[b]
			m := len(in)
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				x := b.Instrs[j]
				if v, ok := x.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op != nil {
						live[*op] = true
					}
				}
			}
			for v := range live {
				in[v] = true
			}
			if len(in) != m {
				ch = true
			}
		}
	}
	return l
}

// gc forgets values no frame can use any more.
func (k *walker) gc(s *wstate) {
	keep := map[string]bool{}
	for i, f := range s.stack {
		l := k.liveness(f.fn)
		var set map[ssa.Value]bool
		if i == len(s.stack)-1 && f.idx == 0 {
			set = l.in[f.blk]
			for _, in := range f.blk.Instrs {
				if phi, ok := in.(*ssa.Phi); ok {
					keep[envKey(f.fid, phi)] = true
				}
			}
			for v := range set {
				keep[envKey(f.fid, v)] = true
			}
		} else {
			for v := range l.out[f.blk] {
				keep[envKey(f.fid, v)] = true
			}
			for j := f.idx; j < len(f.blk.Instrs); j++ {
				in := f.blk.Instrs[j]
				for _, op := range in.Operands(nil) {
					if *op != nil {
						keep[envKey(f.fid, *op)] = true
					}
				}
			}
			if c, ok := f.call.(ssa.Value); ok {
				_ = c
			}
		}
	}
	for e := range s.env {
		if !keep[e] {
			delete(s.env, e)
		}
	}
	// facts about values nothing names any more
	for c := range s.facts {
		ok := false
		for i := 0; i < len(c); i++ {
			if c[i] != '{' {
				continue
			}
			j := strings.IndexByte(c[i:], '}')
			if j < 0 {
				break
			}
			atom := c[i : i+j+1]
			ok = keep[strings.TrimSuffix(atom[1:len(atom)-1], "'")] && !strings.HasSuffix(atom, "'}")
			if !ok {
				for _, b := range s.env {
					if strings.Contains(b, atom) {
						ok = true
						break
					}
				}
			}
			if !ok {
				for a, b := range s.cells {
					if strings.Contains(b, atom) || strings.Contains(a, atom) {
						ok = true
						break
					}
				}
			}
			if !ok {
				ok = k.cl.uses(s.data, atom)
			}
			if !ok {
				break
			}
			i += j
		}
		if !ok && strings.Contains(c, "{") {
			delete(s.facts, c)
		}
	}
	// cells of objects nothing names any more
	for ch := true; ch; {
		ch = false
		inVals := map[string]bool{}
		note := func(x string) {
			for i := 0; i < len(x); i++ {
				if x[i] == '{' {
					j := strings.IndexByte(x[i:], '}')
					if j < 0 {
						break
					}
					inVals[x[i:i+j+1]] = true
					i += j
				}
			}
		}
		for e, b := range s.env {
			if keep[e] {
				note(b)
			}
		}
		for _, b := range s.cells {
			note(b)
		}
		for _, f := range s.stack {
			for _, d := range f.defers {
				note(d.val)
				for _, a := range d.args {
					note(a)
				}
			}
		}
		for a := range s.cells {
			if a[0] == '~' {
				if !keep[a[1:strings.IndexByte(a, '#')]] {
					delete(s.cells, a)
					ch = true
				}
				continue
			}
			if a[0] != '{' {
				continue
			}
			atom := a[:strings.IndexByte(a, '}')+1]
			if inVals[atom] {
				continue
			}
			if !strings.HasSuffix(atom, "'}") && keep[atom[1:len(atom)-1]] {
				continue
			}
			if in := k.info[atom]; in.v != nil {
				if _, ok := in.v.(*ssa.Parameter); ok && in.fid == s.stack[0].fid {
					continue
				}
			} else {
				continue
			}
			if k.cl.uses(s.data, atom) {
				continue
			}
			delete(s.cells, a)
			ch = true
		}
	}
}

// ---- running -------------------------------------------------------------------

func (k *walker) run(f *ssa.Function, init func(s *wstate, fid int)) {
	fid := k.fid(0, nil, f)
	s := &wstate{env: map[string]cv{}, cells: map[cv]cv{}, facts: map[string]int8{}, data: k.cl.clone(nil)}
	s.stack = []*wframe{{fn: f, fid: fid, blk: f.Blocks[0]}}
	if init != nil {
		init(s, fid)
	}
	seen := map[string]bool{}
	work := []*wstate{s}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if s.top().idx == 0 || true {
			k.gc(s)
			key := k.stateKey(s)
			if seen[key] {
				continue
			}
			seen[key] = true
		}
		k.steps++
		if k.steps > k.limit {
			k.gaveUp = true
			return
		}
		work = append(work, k.step(s)...)
	}
}

// step runs the top frame until it branches, calls into or returns.
func (k *walker) step(s0 *wstate) []*wstate {
	s := s0.clone(k)
	for {
		f := s.top()
		if f.idx >= len(f.blk.Instrs) {
			return nil
		}
		in := f.blk.Instrs[f.idx]
		if v, ok := in.(ssa.Value); ok {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				if c, isCall := in.(*ssa.Call); !isCall || k.cleanCall(c) {
					k.age(s, f.fid, v)
				}
			}
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			self := selfCV(f.fid, in)
			k.info[self] = winfo{in, f.fid}
			for a := range s.cells {
				if a == self || strings.HasPrefix(a, self+".") || strings.HasPrefix(a, self+"[") {
					delete(s.cells, a)
				}
			}
			k.zero(s, self, in.Type().(*types.Pointer).Elem(), 0)
			k.def(s, f.fid, in, self)
		case *ssa.FieldAddr:
			st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			k.def(s, f.fid, in, k.val(s, f.fid, in.X)+"."+st.Field(in.Field).Name())
		case *ssa.Field:
			st := in.X.Type().Underlying().(*types.Struct)
			a := k.val(s, f.fid, in.X) + "." + st.Field(in.Field).Name()
			if v, ok := s.cells[a]; ok {
				k.def(s, f.fid, in, v)
			} else {
				k.def(s, f.fid, in, "")
				s.cells[a] = k.val(s, f.fid, in)
			}
		case *ssa.IndexAddr:
			ix := k.val(s, f.fid, in.Index)
			if !strings.HasPrefix(ix, "#") {
				ix = "*"
			} else {
				ix = ix[1:]
			}
			k.def(s, f.fid, in, k.val(s, f.fid, in.X)+"["+ix+"]")
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				a := k.val(s, f.fid, in.X)
				if g, ok := in.X.(*ssa.Global); ok && sentinelName(in) != "" && k.w.sentinelGlobal(g) {
					k.def(s, f.fid, in, "")
					break
				}
				if v, ok := s.cells[a]; ok && !strings.HasSuffix(a, "[*]") {
					k.def(s, f.fid, in, v)
				} else {
					name := ""
					if el, ok := k.cl.(elemLoader); ok && strings.HasSuffix(a, "]") {
						name = el.elem(k, s, a, in)
					}
					k.def(s, f.fid, in, name)
					self := k.val(s, f.fid, in)
					if !strings.HasSuffix(a, "[*]") {
						s.cells[a] = self
					}
					// a loaded struct value keeps its fields' cells
					if _, ok := in.Type().Underlying().(*types.Struct); ok {
						for c, v := range s.cells {
							if strings.HasPrefix(c, a+".") {
								s.cells[self+c[len(a):]] = v
							}
						}
						delete(s.cells, a)
					}
				}
			case token.NOT:
				k.def(s, f.fid, in, "!"+k.val(s, f.fid, in.X))
			default:
				k.def(s, f.fid, in, "")
			}
		case *ssa.BinOp:
			k.def(s, f.fid, in, "("+k.val(s, f.fid, in.X)+" "+in.Op.String()+" "+k.val(s, f.fid, in.Y)+")")
		case *ssa.ChangeInterface:
			k.def(s, f.fid, in, k.val(s, f.fid, in.X))
		case *ssa.ChangeType:
			k.def(s, f.fid, in, k.val(s, f.fid, in.X))
		case *ssa.MakeInterface:
			if isErrorType(in.Type()) {
				k.def(s, f.fid, in, "")
			} else if c := k.val(s, f.fid, in.X); isConstCV(c) {
				k.def(s, f.fid, in, "")
			} else {
				k.def(s, f.fid, in, c)
			}
		case *ssa.TypeAssert:
			if in.CommaOk {
				k.def(s, f.fid, in, "")
			} else {
				k.def(s, f.fid, in, k.val(s, f.fid, in.X))
			}
		case *ssa.Extract:
			switch t := in.Tuple.(type) {
			case *ssa.TypeAssert:
				if in.Index == 0 {
					k.def(s, f.fid, in, k.val(s, f.fid, t.X))
				} else {
					k.def(s, f.fid, in, "")
				}
			default:
				if r, ok := s.cells[fmt.Sprintf("~%s#%d", envKey(f.fid, in.Tuple), in.Index)]; ok {
					k.def(s, f.fid, in, r)
				} else {
					k.def(s, f.fid, in, "")
				}
			}
		case *ssa.Slice:
			k.def(s, f.fid, in, k.val(s, f.fid, in.X)+"[:]")
			if in.Low == nil && in.High == nil {
				break
			}
			k.def(s, f.fid, in, "")
		case *ssa.Store:
			a := k.val(s, f.fid, in.Addr)
			v := k.val(s, f.fid, in.Val)
			k.setCell(s, a, v)
			k.cl.store(k, s, a, v, in)
		case *ssa.MapUpdate:
			k.cl.store(k, s, k.val(s, f.fid, in.Map)+"[*]", k.val(s, f.fid, in.Value), in)
		case *ssa.Send:
			k.cl.store(k, s, k.val(s, f.fid, in.Chan)+"[*]", k.val(s, f.fid, in.X), in)
		case *ssa.MakeClosure:
			k.def(s, f.fid, in, "")
		case *ssa.Call:
			outs, done := k.doCall(s, f, in, false)
			if done {
				return outs
			}
		case *ssa.Go:
			outs, done := k.doCall(s, f, in, false)
			if done {
				return outs
			}
		case *ssa.Defer:
			d := dcall{c: in, val: k.val(s, f.fid, in.Call.Value)}
			for _, a := range in.Call.Args {
				d.args = append(d.args, k.val(s, f.fid, a))
			}
			dup := 0
			for _, o := range f.defers {
				if o.c == d.c {
					dup++
				}
			}
			if dup < 3 {
				f.defers = append(f.defers, d)
			}
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				outs, done := k.applyCall(s, f, d.c, d.val, d.args, true)
				if done {
					return outs
				}
				continue // the same instruction again
			}
		case *ssa.Panic:
			return nil
		case *ssa.Return:
			var rs []cv
			for _, r := range in.Results {
				rs = append(rs, k.val(s, f.fid, r))
			}
			if len(s.stack) == 1 {
				k.cl.exit(k, s, exitReturn, in, rs)
				return nil
			}
			call, ignore := f.call, f.ignore
			s.stack = s.stack[:len(s.stack)-1]
			g := s.top()
			if !ignore {
				k.bindResults(s, g, call, rs)
				g.idx++
			}
			return []*wstate{s}
		case *ssa.Jump:
			k.enter(s, f.blk.Succs[0])
			return []*wstate{s}
		case *ssa.If:
			c := k.val(s, f.fid, in.Cond)
			t := k.truth(s, c)
			var outs []*wstate
			for e := 0; e < 2; e++ {
				if t == 1 && e == 1 || t == -1 && e == 0 {
					continue
				}
				n := s.clone(k)
				n.from = s
				n.note = k.w.posOf(in)
				if t == 0 && k.worthKnowing(in) {
					k.assume(n, c, e == 0)
				}
				if !k.cl.branch(k, n, in, e) {
					continue
				}
				k.enter(n, f.blk.Succs[e])
				outs = append(outs, n)
			}
			return outs
		default:
			if v, ok := in.(ssa.Value); ok {
				k.def(s, f.fid, v, "")
			}
		}
		f.idx++
	}
}

func (k *walker) cleanCall(c *ssa.Call) bool { return true }

// zero initialises the scalar and reference cells of a fresh allocation.
func (k *walker) zero(s *wstate, a cv, t types.Type, d int) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		s.cells[a] = "nil"
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			s.cells[a] = "false"
		case u.Info()&types.IsInteger != 0:
			s.cells[a] = "#0"
		}
	case *types.Struct:
		if d > 2 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			k.zero(s, a+"."+u.Field(i).Name(), u.Field(i).Type(), d+1)
		}
	}
}

func (k *walker) setCell(s *wstate, a, v cv) {
	for c := range s.cells {
		if strings.HasPrefix(c, a+".") || strings.HasPrefix(c, a+"[") {
			delete(s.cells, c)
		}
	}
	if strings.HasSuffix(a, "[*]") {
		return
	}
	s.cells[a] = v
	// copying a struct value copies its fields
	for c, x := range s.cells {
		if strings.HasPrefix(c, v+".") && strings.HasPrefix(v, "{") {
			if i, ok := k.info[v]; ok {
				if _, isStruct := i.v.Type().Underlying().(*types.Struct); isStruct {
					s.cells[a+c[len(v):]] = x
				}
			}
		}
	}
}

func (k *walker) enter(s *wstate, t *ssa.BasicBlock) {
	f := s.top()
	pi := 0
	for i, p := range t.Preds {
		if p == f.blk {
			pi = i
			break
		}
	}
	type upd struct {
		phi *ssa.Phi
		c   cv
	}
	var us []upd
	for _, in := range t.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{phi, k.val(s, f.fid, phi.Edges[pi])})
	}
	for i, u := range us {
		self := selfCV(f.fid, u.phi)
		if u.c == self {
			continue
		}
		had := k.mentioned(s, self)
		if had {
			k.age(s, f.fid, u.phi)
			old := "{" + envKey(f.fid, u.phi) + "'}"
			for j := i; j < len(us); j++ {
				us[j].c = strings.ReplaceAll(us[j].c, self, old)
			}
		} else {
			delete(s.env, envKey(f.fid, u.phi))
		}
	}
	for _, u := range us {
		self := selfCV(f.fid, u.phi)
		switch {
		case u.c == self:
			k.def(s, f.fid, u.phi, self)
		case u.c[0] == '{' || u.c[0] == '@' || isConstCV(u.c) && (isBool(u.phi.Type()) || u.c == "nil" || u.c[0] == '#' && !inLoopHeader(u.phi)) || isBool(u.phi.Type()):
			k.def(s, f.fid, u.phi, u.c)
		default:
			k.def(s, f.fid, u.phi, "")
			if isErrorType(u.phi.Type()) {
				if n := k.nilness(s, u.c); n != 0 {
					s.facts["nil?"+self] = int8(n)
				}
			}
		}
	}
	f.blk = t
	f.idx = 0
}

// inLoopHeader: the phi's block is reached by a back edge.
func inLoopHeader(p *ssa.Phi) bool {
	b := p.Block()
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

func (k *walker) bindResults(s *wstate, g *wframe, call ssa.CallInstruction, rs []cv) {
	c, ok := call.(*ssa.Call)
	if !ok {
		return
	}
	if len(rs) == 1 {
		r := rs[0]
		if r[0] == '(' || r[0] == '!' {
			if t := k.truth(s, r); t != 0 && isBool(c.Type()) {
				r = map[int]cv{1: "true", -1: "false"}[t]
			}
		}
		k.def(s, g.fid, c, r)
		return
	}
	for i, r := range rs {
		s.cells[fmt.Sprintf("~%s#%d", envKey(g.fid, c), i)] = r
	}
}

func (k *walker) doCall(s *wstate, f *wframe, c ssa.CallInstruction, deferred bool) ([]*wstate, bool) {
	com := c.Common()
	var args []cv
	for _, a := range com.Args {
		args = append(args, k.val(s, f.fid, a))
	}
	return k.applyCall(s, f, c, k.val(s, f.fid, com.Value), args, deferred)
}

// applyCall performs a call. done: the returned states replace s.
func (k *walker) applyCall(s *wstate, f *wframe, c ssa.CallInstruction, fv cv, args []cv, deferred bool) ([]*wstate, bool) {
	com := c.Common()
	cval, _ := c.(*ssa.Call)
	if cval != nil {
		for i := 0; i < com.Signature().Results().Len(); i++ {
			delete(s.cells, fmt.Sprintf("~%s#%d", envKey(f.fid, cval), i))
		}
		k.def(s, f.fid, cval, "")
		if b, ok := com.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			k.def(s, f.fid, cval, "len("+args[0]+")")
		}
		switch isExitCall(cval) {
		case exitFatal:
			return nil, true
		case exitCode:
			a := args[0]
			if strings.HasPrefix(a, "#") && a != "#0" {
				return nil, true
			}
			k.cl.exit(k, s, exitOS0, c, nil)
			return nil, true
		}
	}
	callee := com.StaticCallee()
	var bind []cv
	if com.IsInvoke() {
		args = append([]cv{fv}, args...)
		if t := k.typeOf(fv); t != nil {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				if sel := k.w.prog.MethodSets.MethodSet(t).Lookup(com.Method.Pkg(), com.Method.Name()); sel != nil {
					callee = k.w.prog.MethodValue(sel)
				}
			}
		}
	} else if i, ok := k.info[fv]; ok {
		switch v := i.v.(type) {
		case *ssa.MakeClosure:
			callee, _ = v.Fn.(*ssa.Function)
			for _, b := range v.Bindings {
				bind = append(bind, k.val(s, i.fid, b))
			}
		case *ssa.Function:
			callee = v
		}
	}
	if callee != nil && k.noRet[callee] {
		return nil, true
	}
	outs, inline := k.cl.call(k, s, c, callee, args, deferred)
	if outs != nil {
		if !inline {
			for _, o := range outs {
				if !deferred {
					o.top().idx++
				}
			}
			return outs, true
		}
	}
	if inline && callee != nil && len(callee.Blocks) > 0 && len(s.stack) < k.maxDep {
		rec := false
		for _, g := range s.stack {
			if g.fn == callee {
				rec = true
			}
		}
		if !rec {
			nfid := k.fid(f.fid, c, callee)
			for i, p := range callee.Params {
				if i < len(args) {
					k.age(s, nfid, p)
					k.def(s, nfid, p, args[i])
				}
			}
			for i, fv := range callee.FreeVars {
				if i < len(bind) {
					k.def(s, nfid, fv, bind[i])
				}
			}
			s.stack = append(s.stack, &wframe{fn: callee, fid: nfid, blk: callee.Blocks[0], call: c, ignore: deferred})
			return []*wstate{s}, true
		}
	}
	// not followed: forget the cells the callee may store to
	if callee != nil && k.w.inModule(callee) || callee == nil {
		k.havoc(s, c, callee)
	}
	// variables captured by a closure that is not followed
	if callee != nil && len(bind) > 0 {
		for _, b := range bind {
			delete(s.cells, b)
		}
	}
	return nil, false
}

func (k *walker) havoc(s *wstate, c ssa.CallInstruction, callee *ssa.Function) {
	var fs []*ssa.Function
	if callee != nil {
		fs = []*ssa.Function{callee}
	} else {
		fs = k.w.callees(c)
	}
	for _, g := range fs {
		cls := k.storedFields(g)
		for a := range s.cells {
			i := strings.LastIndexByte(a, '.')
			if i > 0 && cls[a[i+1:]] {
				delete(s.cells, a)
			}
		}
	}
}

// storedFields: names of fields the function may store to, transitively.
func (k *walker) storedFields(g *ssa.Function) map[string]bool {
	if k.storesC == nil {
		k.storesC = map[*ssa.Function]map[string]bool{}
	}
	if m, ok := k.storesC[g]; ok {
		return m
	}
	m := map[string]bool{}
	k.storesC[g] = m
	for h := range k.w.reachable([]*ssa.Function{g}) {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						str := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
						m[str.Field(fa.Field).Name()] = true
					}
				}
			}
		}
	}
	return m
}

// trail lists the branches taken to s.
func (k *walker) trail(s *wstate) []string {
	var p []string
	for x := s; x != nil; x = x.from {
		if x.note != "" && (len(p) == 0 || p[len(p)-1] != x.note) {
			p = append(p, x.note)
		}
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	if len(p) > 14 {
		p = p[len(p)-14:]
	}
	for i := range p {
		p[i] = "branch at " + p[i]
	}
	return p
}

// rootOf: the base a canonical address or value is part of.
func rootOf(a cv) cv {
	if a == "" {
		return a
	}
	if a[0] == '{' {
		if j := strings.IndexByte(a, '}'); j > 0 {
			return a[:j+1]
		}
	}
	if a[0] == '@' {
		return a
	}
	return a
}

// noReturnFns: module functions none of whose paths return.
func noReturnFns(w *World) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range w.allFns {
			if m[f] {
				continue
			}
			seen := map[*ssa.BasicBlock]bool{}
			ret := false
			zero := false
			var visit func(b *ssa.BasicBlock)
			visit = func(b *ssa.BasicBlock) {
				if seen[b] {
					return
				}
				seen[b] = true
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Call:
						switch isExitCall(in) {
						case exitFatal:
							return
						case exitCode:
							if c, ok := in.Call.Args[0].(*ssa.Const); !ok || constant.Sign(c.Value) == 0 {
								zero = true
							}
							return
						}
						if g := in.Call.StaticCallee(); g != nil && m[g] {
							return
						}
					case *ssa.Panic:
						return
					case *ssa.Return:
						ret = true
					}
				}
				for _, t := range b.Succs {
					visit(t)
				}
			}
			visit(f.Blocks[0])
			if !ret && !zero {
				m[f] = true
				ch = true
			}
		}
	}
	return m
}

// worthKnowing: can the outcome of this comparison decide another branch?
// Facts nothing can ask about again only multiply states.
func (k *walker) worthKnowing(in *ssa.If) bool {
	c := in.Cond
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c = u.X
			continue
		}
		break
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return true
	}
	if isNilConst(b.X) || isNilConst(b.Y) {
		return true
	}
	if k.shapes == nil {
		k.shapes = map[*ssa.Function]map[string]int{}
	}
	m, ok := k.shapes[in.Parent()]
	if !ok {
		m = map[string]int{}
		for _, bl := range in.Parent().Blocks {
			for _, x := range bl.Instrs {
				if o, ok := x.(*ssa.BinOp); ok {
					m[shape(o)]++
				}
			}
		}
		k.shapes[in.Parent()] = m
	}
	if m[shape(b)] > 1 {
		return true
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if _, ok := o.(*ssa.Parameter); ok {
			return true
		}
	}
	return false
}

func shape(b *ssa.BinOp) string {
	x, y := operandShape(b.X), operandShape(b.Y)
	if x > y {
		x, y = y, x
	}
	return x + "|" + y
}

func operandShape(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Const:
		return constCV(v)
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return "load " + fieldClass(fa.X.Type(), fa.Field)
		}
		return "u" + v.Op.String() + operandShape(v.X)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && len(v.Call.Args) == 1 {
			return b.Name() + "(" + operandShape(v.Call.Args[0]) + ")"
		}
	case *ssa.Convert:
		return operandShape(v.X)
	}
	return v.Name()
}
