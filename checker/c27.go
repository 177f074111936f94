package main

// C27: the command line prints what the tokenizer gives.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "abstract interpretation of the command from main (typestate per file, line and morpheme; induction over the loops; contents of the lines printed; value numbering of the flags)", checkCommand)
}

type cliCheck struct {
	w    *World
	r    *Report
	seen map[string]bool
}

func (x *cliCheck) bad(k *ai, s *astate, key, at, msg string) {
	if x.seen[key+at] {
		return
	}
	x.seen[key+at] = true
	f := Finding{Key: key, Rule: "command line", Pos: at, Msg: msg}
	if k != nil && s != nil {
		f.Path = k.trail(s)
	}
	x.r.add(f)
}

func checkCommand(w *World, r *Report) {
	x := &cliCheck{w: w, r: r, seen: map[string]bool{}}
	x.command()
	r.floor("flags", 9)
	r.floor("lines of morphemes compared", 1)
	r.floor("sentences finished", 2)
	r.floor("settings compared", 1)
}

const (
	cliNone = iota // no line
	cliRead        // Scan has said whether there is one
	cliDone        // it has been tokenized
)

type cliState struct {
	flags   map[string]*T // name -> where it is kept
	parsed  bool
	scanner *T // what is being read
	stdin   bool
	have    int
	ok      *T // what Scan said last
	ms, err *T
	sink    *T // where the lines of this text go
	out     []piece
	moved   bool
	mh      *ssa.BasicBlock // the loop over the morphemes
	mp      *ssa.Phi
	mi      *T
	all     bool // it is over
	ended   bool
	fl      *listLoop
	sets    []*T // the settings read: base, source
	texts   map[*T][]piece
	rot     map[*ssa.BasicBlock]*ssa.Phi
}

func (d *cliState) clone() *cliState {
	n := *d
	n.out = append([]piece(nil), d.out...)
	n.sets = append([]*T(nil), d.sets...)
	n.flags, n.texts, n.rot = map[string]*T{}, map[*T][]piece{}, map[*ssa.BasicBlock]*ssa.Phi{}
	for a, b := range d.flags {
		n.flags[a] = b
	}
	for a, b := range d.texts {
		n.texts[a] = b
	}
	for a, b := range d.rot {
		n.rot[a] = b
	}
	return &n
}

func piecesKey(ps []piece) string {
	r := ""
	for _, p := range ps {
		id := 0
		if p.v != nil {
			id = p.v.id
		}
		r += fmt.Sprint(p.lit, p.verb, id, ";")
	}
	return r
}

func (d *cliState) key() string {
	id := func(t *T) int {
		if t == nil {
			return -1
		}
		return t.id
	}
	r := fmt.Sprint(len(d.flags), d.parsed, id(d.scanner), d.stdin, d.have, id(d.ok), id(d.ms), id(d.err), id(d.sink), piecesKey(d.out), d.moved, d.mh != nil, d.all, d.ended, d.fl != nil, len(d.texts))
	for _, t := range d.sets {
		r += fmt.Sprint(" ", id(t))
	}
	return r
}

// merged: the pieces with literal ones joined.
func merged(ps []piece) (out []piece) {
	for _, p := range ps {
		if p.v == nil && p.verb == 0 {
			if p.lit == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].v == nil && out[n-1].verb == 0 {
				out[n-1].lit += p.lit
				continue
			}
		}
		out = append(out, p)
	}
	return
}

func (x *cliCheck) command() {
	w := x.w
	f := w.mainFns("gosudachicli")[0]
	who := "gosudachicli"
	x.r.oblige(who + ": every line of every file, with every morpheme of it")
	mlT, mT, jsT, tkT := w.typ("", "MorphemeList"), w.typ("", "Morpheme"), w.typ("", "SettingsJSON"), w.typ("", "JapaneseTokenizer")
	cfT := w.typ("", "BaseConfig")
	get := w.must(w.method("", "MorphemeList", "Get"), "MorphemeList.Get")
	tokenize := w.must(w.method("", "JapaneseTokenizer", "Tokenize"), "JapaneseTokenizer.Tokenize")
	newDict := w.must(w.pkgFunc("", "NewJapaneseDictionary"), "NewJapaneseDictionary")
	strT := types.Typ[types.String]
	k := newAI(w, aclient{})
	k.keep = true
	k.keepFact = func(s *astate, t *T) bool { return true }
	dat := func(s *astate) *cliState { return s.data.(*cliState) }
	prim := func(n string, t types.Type, args ...*T) *T {
		return k.mk(&T{op: "prim", s: n, typ: t, args: args})
	}
	isPrim := func(t *T, n string) bool { return t != nil && t.op == "prim" && t.s == n }
	own := func(g *ssa.Function) bool {
		if g.Parent() != nil {
			g = g.Parent()
		}
		return g.Pkg != nil && g.Pkg == f.Pkg
	}
	flag := func(n string) *T {
		t := types.Type(strT)
		if strings.Contains("afdj", n) {
			t = types.Typ[types.Bool]
		}
		return prim("flag "+n, t)
	}
	given := func(s *astate, n string) int { return -k.truth(s, k.eq(flag(n), k.str(""))) }
	files := prim("flag.Args", types.NewSlice(strT))
	morphs := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == get
	})
	scans := transitively(w, func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() == tokenize
	})
	does := func(h *ssa.BasicBlock, what *ssa.Function, fs map[*ssa.Function]bool) bool {
		for b := range k.loop(h) {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g == what || g != nil && fs[g] && own(g) {
						return true
					}
				}
			}
		}
		return false
	}
	takesArg := func(l map[*ssa.BasicBlock]bool) bool {
		for b := range l {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "flag.Arg" {
					return true
				}
			}
		}
		return false
	}
	base := func(t *T) *T {
		for {
			switch {
			case t.op == "iface":
				t = t.args[0]
			case isRes(t, "bufio.NewWriter") && len(t.args) > 0:
				t = t.args[0]
			default:
				return t
			}
		}
	}
	isStd := func(t *T, n string) bool {
		return t.op == "load" && t.args[0].op == "global" && strings.HasSuffix(t.args[0].v.(*ssa.Global).String(), "os."+n)
	}
	// path: the path a flag gives
	isPath := func(t *T, n string) bool {
		if isRes(t, "filepath.Abs") || isRes(t, "filepath.Clean") {
			t = t.args[0]
		}
		return t == flag(n)
	}
	opened := func(t *T) (path *T, flags *T) { // a file that has been opened
		switch {
		case isRes(t, "os.OpenFile") && t.c0 == 0:
			return t.args[0], t.args[1]
		case (isRes(t, "os.Open@") || isRes(t, "os.Create@")) && t.c0 == 0:
			return t.args[0], nil
		}
		return nil, nil
	}
	osConst := func(n string) int64 {
		for _, p := range w.prog.AllPackages() {
			if p.Pkg.Path() == "os" {
				v, _ := constant.Int64Val(p.Pkg.Scope().Lookup(n).(*types.Const).Val())
				return v
			}
		}
		return 0
	}
	isBuilder := func(t *T) bool {
		n := namedOf(t.typ)
		return t.op == "alloc" && n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder" || n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer")
	}
	// ---- texts
	elems := func(s *astate, l *T) []*T {
		es := k.elemsOf(s, l)
		for i, e := range es {
			for e.op == "iface" {
				e = e.args[0]
			}
			es[i] = e
		}
		return es
	}
	var text func(s *astate, v *T) []piece
	text = func(s *astate, v *T) []piece {
		d := dat(s)
		v = strip(v)
		if sv, ok := v.strVal(); ok {
			return []piece{{lit: sv}}
		}
		if ps, ok := d.texts[v]; ok {
			return ps
		}
		if (v.op == "concat" || v.op == "+" || v.op == "add") && isStrT(v.typ) {
			var ps []piece
			for _, a := range v.args {
				ps = append(ps, text(s, a)...)
			}
			return ps
		}
		if isRes(v, "strconv.Itoa") {
			return []piece{{verb: 'd', v: v.args[0]}}
		}
		if isRes(v, "strconv.FormatInt") {
			if b, ok := v.args[1].intVal(); ok && b == 10 {
				return []piece{{verb: 'd', v: v.args[0]}}
			}
		}
		return []piece{{verb: 's', v: v}}
	}
	words := func(s *astate, as []*T, ln bool) (ps []piece) {
		for i, a := range as {
			if i > 0 && (ln || !isStrT(a.typ) && !isStrT(as[i-1].typ)) {
				ps = append(ps, piece{lit: " "})
			}
			if isStrT(a.typ) {
				ps = append(ps, text(s, a)...)
			} else {
				ps = append(ps, piece{verb: 'd', v: a})
			}
		}
		if ln {
			ps = append(ps, piece{lit: "\n"})
		}
		return
	}
	format := func(s *astate, f *T, args []*T) (ps []piece) {
		fm, ok := f.strVal()
		if !ok {
			return []piece{{verb: '?', v: f}}
		}
		n := 0
		for i := 0; i < len(fm); i++ {
			if fm[i] != '%' || i+1 == len(fm) {
				ps = append(ps, piece{lit: fm[i : i+1]})
				continue
			}
			i++
			if fm[i] == '%' {
				ps = append(ps, piece{lit: "%"})
				continue
			}
			if n >= len(args) {
				return append(ps, piece{verb: '?'})
			}
			a := args[n]
			n++
			switch {
			case (fm[i] == 's' || fm[i] == 'v') && isStrT(a.typ):
				ps = append(ps, text(s, a)...)
			case (fm[i] == 'd' || fm[i] == 'v') && isInteger(a.typ):
				ps = append(ps, piece{verb: 'd', v: a})
			default:
				ps = append(ps, piece{verb: fm[i], v: a})
			}
		}
		if n < len(args) {
			ps = append(ps, piece{verb: '?'})
		}
		return
	}
	// ---- what is printed
	wrote := func(s *astate, to *T, ps []piece, at string) {
		d := dat(s)
		b := base(to)
		if isStd(b, "Stderr") {
			return
		}
		if isBuilder(b) && d.sink != b && (d.have != cliDone || d.sink != nil) {
			// a text put together on its own
			d.texts[b] = append(append([]piece(nil), d.texts[b]...), ps...)
			return
		}
		if isBuilder(b) && d.sink == nil && len(d.texts[b]) > 0 {
			d.texts[b] = append(append([]piece(nil), d.texts[b]...), ps...)
			return
		}
		if d.have != cliDone {
			x.bad(k, s, "stray", at, who+" prints something outside the words of a text")
			return
		}
		if t := k.nonNil(s, d.err); t != -1 {
			x.bad(k, s, "failed", at, who+" prints words though tokenizing may have failed")
			return
		}
		if d.sink == nil {
			d.sink = b
		}
		if d.sink != b {
			if isBuilder(d.sink) && len(ps) == 1 && ps[0].verb == 'B' && ps[0].v == d.sink && !d.moved {
				d.moved = true
				d.sink = b
				return
			}
			x.bad(k, s, "sinks", at, who+" prints the words of a text in different places")
			return
		}
		if d.moved {
			x.bad(k, s, "after", at, who+" prints something behind the words of a text")
		}
		d.out = append(d.out, ps...)
	}
	destination := func(s *astate, at string) {
		d := dat(s)
		b := d.sink
		if b == nil {
			return
		}
		switch given(s, "o") {
		case 1:
			p, fl := opened(b)
			if p == nil || !isPath(p, "o") {
				x.bad(k, s, "output", at, fmt.Sprintf("%s prints to %s, not the file given with -o", who, shortT(b)))
			} else if fl != nil {
				v, ok := fl.intVal()
				if !ok || v&osConst("O_TRUNC") == 0 || v&osConst("O_CREATE") == 0 || v&osConst("O_APPEND") != 0 || v&osConst("O_EXCL") != 0 || v&3 == 0 {
					x.bad(k, s, "output", at, who+" does not open the output file as a new one")
				}
			} else if !isRes(b, "os.Create") {
				x.bad(k, s, "output", at, who+" does not open the output file for writing")
			}
		case -1:
			if !isStd(b, "Stdout") {
				x.bad(k, s, "output", at, fmt.Sprintf("%s prints to %s, not to standard output", who, shortT(b)))
			}
		default:
			x.bad(k, s, "output", at, who+" prints to the same place whether or not -o is given")
		}
	}
	// word: what is wrong with the line of morpheme m
	word := func(s *astate, m *T) string {
		d := dat(s)
		x.r.count("lines of morphemes compared", 1)
		ps := merged(d.out)
		is := func(p piece, n string) bool {
			return p.v != nil && p.verb == 's' && isPrim(p.v, "Morpheme."+n) && p.v.args[0] == m
		}
		all, oov := k.truth(s, flag("a")), k.truth(s, prim("Morpheme.IsOOV", types.Typ[types.Bool], m))
		if all == 0 {
			return "does not depend on -a"
		}
		pos := func(p piece) bool {
			if p.v == nil || p.verb != 's' || !isRes(p.v, "strings.Join") {
				return false
			}
			sep, _ := p.v.args[1].strVal()
			return sep == "," && isPrim(p.v.args[0], "Morpheme.PartOfSpeech") && p.v.args[0].args[0] == m
		}
		type want struct {
			what string
			ok   func(p piece) bool
		}
		lit := func(l, what string) want {
			return want{what, func(p piece) bool { return p.v == nil && p.verb == 0 && p.lit == l }}
		}
		str := func(n, what string) want { return want{what, func(p piece) bool { return is(p, n) }} }
		tab := lit("\t", "a tab")
		ws := []want{str("Surface", "the surface"), tab, {"the part of speech", pos}, tab, str("NormalizedForm", "the normalized form")}
		end := "\n"
		if all == 1 {
			if oov == 0 {
				return "does not depend on whether the word is unknown"
			}
			ws = append(ws, tab, str("DictionaryForm", "the dictionary form"), tab, str("ReadingForm", "the reading"), tab,
				want{"the number of the dictionary", func(p piece) bool {
					return p.verb == 'd' && p.v != nil && isPrim(p.v, "Morpheme.GetDictionaryId") && p.v.args[0] == m
				}})
			if oov == 1 {
				end = "\t(OOV)\n"
			}
		}
		ws = append(ws, lit(end, fmt.Sprintf("%q", end)))
		for i, g := range ws {
			if i >= len(ps) {
				return "lacks " + g.what
			}
			if !g.ok(ps[i]) {
				t := fmt.Sprintf("%q", ps[i].lit)
				if ps[i].v != nil {
					t = shortT(ps[i].v)
				}
				return fmt.Sprintf("has %s for %s", t, g.what)
			}
		}
		if len(ps) > len(ws) {
			return "has more than its fields"
		}
		return ""
	}
	over := func(s *astate) { // the loop over the morphemes is over
		d := dat(s)
		if d.mh == nil {
			return
		}
		n := prim("MorphemeList.Length", types.Typ[types.Int], d.ms)
		d.all = k.rangeOf(s, k.sub(d.mi, n)).lo >= 0
		d.mh = nil
	}
	// finish: the text at hand has been dealt with
	finish := func(s *astate, at string) {
		d := dat(s)
		switch d.have {
		case cliRead:
			switch k.truth(s, d.ok) {
			case -1:
				d.ended = true
			case 1:
				x.bad(k, s, "line", at, who+" can pass over a line")
			default:
				x.bad(k, s, "line", at, who+" can go on without having asked whether there is another line")
			}
		case cliDone:
			x.r.count("sentences finished", 1)
			if k.nonNil(s, d.err) == 1 {
				if k.truth(s, flag("f")) != 1 {
					x.bad(k, s, "ignored", at, who+" can go on after a failure though -f is not given")
				}
				break
			}
			over(s)
			ps := merged(d.out)
			if !d.all {
				x.bad(k, s, "words", at, who+" can leave out morphemes of a text")
			} else if len(ps) != 1 || ps[0].lit != "EOS\n" || ps[0].v != nil {
				x.bad(k, s, "eos", at, who+" does not finish a text with a line EOS")
			} else if isBuilder(d.sink) {
				x.bad(k, s, "output", at, who+" can leave the words of a text unprinted")
			} else {
				destination(s, at)
			}
		}
		d.have, d.ms, d.err, d.out, d.sink, d.moved, d.all, d.mh = cliNone, nil, nil, nil, nil, false, false, nil
	}
	lineOf := func(s *astate) *T { return prim("line", strT, dat(s).scanner, dat(s).ok) }
	// the settings, when the dictionary is loaded
	settings := func(s *astate, args []*T, at string) {
		d := dat(s)
		x.r.count("settings compared", 1)
		say := func(key, msg string) { x.bad(k, s, "settings:"+key, at, who+" "+msg) }
		if !isPrim(args[0], "GetBaseConfig") {
			say("config", "loads the dictionary with other settings than those read")
			return
		}
		n := 1
		if given(s, "r") == -1 && given(s, "s") == 1 {
			n = 2
		}
		if len(d.sets) != 2*n {
			say("read", "does not read exactly the settings given")
			return
		}
		for i := 0; i < n; i++ {
			dir, src := d.sets[2*i], strip(d.sets[2*i+1])
			switch given(s, "p") {
			case 1:
				if dir != flag("p") {
					say("dir", fmt.Sprintf("looks up resources in %s, not where -p says", shortT(dir)))
				}
			case -1:
				if !isRes(dir, "filepath.Dir") || !isRes(dir.args[0], "os.Executable") {
					say("dir", fmt.Sprintf("looks up resources in %s, not beside the program", shortT(dir)))
				}
			default:
				say("dir", "looks up resources in the same place whether or not -p is given")
			}
			switch {
			case i == 1:
				if !isRes(src, "strings.NewReader") || src.args[0] != flag("s") {
					say("merge", fmt.Sprintf("reads %s as additional settings, not those given with -s", shortT(src)))
				}
			case given(s, "r") == 1:
				if p, _ := opened(src); p == nil || !isPath(p, "r") {
					say("file", fmt.Sprintf("reads %s, not the settings given with -r", shortT(src)))
				}
			case given(s, "r") == -1:
				good := false
				walkT(src, func(t *T) bool {
					v, ok := t.strVal()
					good = good || ok && strings.HasSuffix(v, "sudachi.json")
					return true
				})
				if src.op != "res" || !good {
					say("file", fmt.Sprintf("reads %s, not the settings that come with it", shortT(src)))
				}
			default:
				say("file", "reads the same settings whether or not -r is given")
			}
		}
		u := k.ldf(s, args[0], cfT, "Utf16String")
		switch k.truth(s, flag("j")) {
		case 1:
			if k.truth(s, u) != 1 {
				say("utf16", "does not read the dictionary as UTF-16 though -j is given")
			}
		case -1:
			if u.op != "load" {
				say("utf16", "changes the encoding of the dictionary though -j is not given")
			}
		default:
			say("utf16", "does not look at -j")
		}
		for _, a := range args[1:] {
			if a.op != "res" && !isPrim(a, "plugins") {
				say("plugins", "loads the dictionary without the plugins of the settings")
			}
		}
	}
	// ---- events
	k.cl.load = func(k *ai, s *astate, addr *T, in ssa.Instruction) *T {
		if dat(s).parsed && (isRes(addr, "flag.String@") || isRes(addr, "flag.Bool@")) {
			if n, ok := addr.args[0].strVal(); ok {
				return flag(n)
			}
		}
		return nil
	}
	k.cl.clone = func(d any) any { return d.(*cliState).clone() }
	k.cl.key = func(d any) string { return d.(*cliState).key() }
	k.cl.call = func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		d := dat(s)
		if callee == nil {
			return nil, false, true
		}
		at := w.posOf(c)
		name := callee.String()
		recv := namedOf2(callee)
		opq := func() ([]*T, bool, bool) { return k.opaque(s, s.top(), c, callee, args), true, false }
		str := func(ps []piece) ([]*T, bool, bool) {
			r := k.opaque(s, s.top(), c, callee, args)
			d.texts[r[0]] = ps
			return r, true, false
		}
		switch name {
		case "flag.StringVar", "flag.BoolVar", "flag.String", "flag.Bool":
			var res []*T
			if !strings.HasSuffix(name, "Var") {
				res = k.opaque(s, s.top(), c, callee, args)
				args = append([]*T{res[0]}, args...)
				name += "Var"
			}
			n, _ := args[1].strVal()
			def := "C"
			if n != "m" {
				def = ""
			}
			x.r.count("flags", 1)
			v, isS := args[2].strVal()
			if name == "flag.StringVar" && (!isS || v != def) || name == "flag.BoolVar" && k.truth(s, args[2]) != -1 {
				x.bad(k, s, "default:"+n, at, fmt.Sprintf("%s has another default for -%s", who, n))
			}
			if d.parsed {
				x.bad(k, s, "late:"+n, at, fmt.Sprintf("%s does not know -%s when it reads the arguments", who, n))
			}
			if res == nil {
				d.flags[n] = args[0]
			}
			return res, true, false
		case "flag.Parse":
			d.parsed = true
			for n, p := range d.flags {
				k.store(s, s.top(), p, flag(n), flag(n).typ)
			}
			return []*T{}, true, false
		case "flag.Args":
			return []*T{files}, true, false
		case "flag.NArg":
			return []*T{k.lenOf(s, files)}, true, false
		case "flag.Arg":
			return []*T{k.elemAt(s, files, args[0])}, true, false
		case "path/filepath.Abs", "path/filepath.Clean":
			r := k.opaque(s, s.top(), c, callee, args)
			k.assume(s, k.eq(r[0], k.str("")), false) // never empty
			return r, true, false
		case "flag.PrintDefaults":
			return opq()
		case "fmt.Fprintf":
			wrote(s, args[0], format(s, args[1], elems(s, args[2])), at)
			return opq()
		case "fmt.Fprint", "fmt.Fprintln":
			wrote(s, args[0], words(s, elems(s, args[1]), name == "fmt.Fprintln"), at)
			return opq()
		case "fmt.Sprintf":
			return str(format(s, args[0], elems(s, args[1])))
		case "fmt.Sprint", "fmt.Sprintln":
			return str(words(s, elems(s, args[0]), name == "fmt.Sprintln"))
		case "io.WriteString":
			wrote(s, args[0], text(s, args[1]), at)
			return opq()
		case "strings.Join":
			if es := elems(s, args[0]); es != nil {
				var ps []piece
				for i, e := range es {
					if i > 0 {
						ps = append(ps, text(s, args[1])...)
					}
					ps = append(ps, text(s, e)...)
				}
				return str(ps)
			}
			return opq()
		}
		if strings.HasPrefix(name, "fmt.Print") {
			x.bad(k, s, "print", at, who+" prints to standard output whether or not -o is given")
			return opq()
		}
		if recv != nil && !w.inModule(callee) && len(args) > 0 {
			switch callee.Name() {
			case "WriteString", "Write":
				wrote(s, args[0], text(s, args[1]), at)
				return opq()
			case "WriteByte", "WriteRune":
				if b, ok := args[1].intVal(); ok {
					wrote(s, args[0], []piece{{lit: string(rune(b))}}, at)
				} else {
					wrote(s, args[0], []piece{{verb: 'c', v: args[1]}}, at)
				}
				return opq()
			case "String", "Bytes":
				if b := base(args[0]); isBuilder(b) {
					if d.sink == b {
						return str([]piece{{verb: 'B', v: b}})
					}
					return str(d.texts[b])
				}
			case "Reset":
				if b := base(args[0]); isBuilder(b) {
					delete(d.texts, b)
					return opq()
				}
			}
		}
		switch {
		case recv == jsT && callee.Name() == "ParseSettingsJSON":
			d.sets = append(d.sets, args[1], args[2])
			return opq()
		case recv == jsT && callee.Name() == "GetBaseConfig":
			return []*T{prim("GetBaseConfig", callee.Signature.Results().At(0).Type())}, true, false
		case callee == newDict:
			settings(s, args, at)
			return opq()
		case recv == mT || recv == mlT:
			return []*T{prim(recv.Obj().Name()+"."+callee.Name(), callee.Signature.Results().At(0).Type(), args...)}, true, false
		case callee == tokenize:
			if d.have != cliRead || k.truth(s, d.ok) != 1 {
				x.bad(k, s, "again", at, who+" tokenizes a text that may not be the next line")
			}
			if args[1] != flag("m") {
				x.bad(k, s, "mode", at, fmt.Sprintf("%s tokenizes in the mode %s, not the one given with -m", who, shortT(args[1])))
			}
			if strip(args[2]) != lineOf(s) {
				x.bad(k, s, "text", at, fmt.Sprintf("%s tokenizes %s, not the line read", who, shortT(args[2])))
			}
			dump := k.ldf(s, args[0], tkT, "DumpOutput")
			switch k.truth(s, flag("d")) {
			case 1:
				if b := base(dump); given(s, "o") == -1 && !isStd(b, "Stdout") {
					x.bad(k, s, "dump", at, who+" does not print debug output though -d is given")
				} else if p, _ := opened(b); given(s, "o") == 1 && (p == nil || !isPath(p, "o")) {
					x.bad(k, s, "dump", at, who+" does not print debug output where -o says")
				}
			case -1:
				if k.nonNil(s, dump) == 1 {
					x.bad(k, s, "dump", at, who+" prints debug output though -d is not given")
				}
			default:
				x.bad(k, s, "dump", at, who+" does not look at -d")
			}
			r := k.opaque(s, s.top(), c, callee, args)
			d.have, d.ms, d.err, d.out, d.sink, d.moved, d.all, d.mh = cliDone, r[0], r[1], nil, nil, false, false, nil
			return r, true, false
		case recv != nil && own(callee) && recv.Obj().Name() == "lineScanner":
			switch callee.Name() {
			case "Scan":
				finish(s, at)
				if d.ended {
					x.bad(k, s, "end", at, who+" can go on behind the last line")
				}
				d.scanner = args[0]
				src := base(args[0])
				if isRes(src, "newLineScanner") {
					x.source(k, s, d, base(src.args[0]), files, at)
				} else {
					x.bad(k, s, "source", at, who+" reads lines from elsewhere")
				}
				r := k.opaque(s, s.top(), c, callee, args)
				d.ok, d.have = r[0], cliRead
				return r, true, false
			case "Text", "Bytes":
				if d.scanner == args[0] && d.have != cliNone {
					return []*T{lineOf(s)}, true, false
				}
			}
			return opq()
		case callee.Name() == "newLineScanner":
			return opq()
		}
		return nil, false, own(callee)
	}
	k.cl.head = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := dat(s)
		fr := s.top()
		at := w.pos(h.Parent().Pos())
		if d.have == cliRead {
			for _, p := range phisOf(h) {
				if k.edgeVal(s, p) == d.ok {
					d.rot[h] = p
					d.ok = fr.env[p]
				}
			}
		}
		if d.fl == nil && !d.ended {
			if l, ok := k.listLoopOf(s, h, func(t types.Type) bool { return t != nil && isStrT(t) }); ok && l.list == files {
				d.fl = &l
				return
			}
			for _, p := range phisOf(h) {
				t := fr.env[p]
				if e, ok := k.edgeVal(s, p).intVal(); ok && e == 0 && t.op == "sym" && t.hdr == h && takesArg(k.loop(h)) {
					d.fl = &listLoop{h: h, phi: t, list: files, at: p}
					return
				}
			}
		}
		if d.have != cliDone || !does(h, get, morphs) {
			return
		}
		if d.mh != nil || d.all || len(d.out) > 0 {
			x.bad(k, s, "order", at, who+" prints something in front of the words of a text")
			return
		}
		for _, p := range phisOf(h) {
			t := fr.env[p]
			if e, ok := k.edgeVal(s, p).intVal(); ok && isIntT(p.Type()) && t.op == "sym" && t.hdr == h {
				for i, pb := range h.Preds {
					if b, n := linear(p.Edges[i]); k.loop(h)[pb] && b == ssa.Value(p) && n == 1 {
						d.mh, d.mp, d.mi = h, p, k.add(t, k.num(-e))
					}
				}
			}
		}
		if d.mh == nil {
			x.bad(k, s, "order", at, who+" does not go through the morphemes one by one, from the first")
		}
	}
	k.cl.back = func(k *ai, s *astate, h *ssa.BasicBlock) {
		d := dat(s)
		at := w.pos(h.Parent().Pos())
		switch {
		case d.mh == h:
			n, ok := k.sub(k.edgeVal(s, d.mp), s.top().env[d.mp]).intVal()
			if !ok || n != 1 {
				x.bad(k, s, "order", at, who+" can pass over a morpheme")
			}
			m := prim("MorphemeList.Get", get.Signature.Results().At(0).Type(), d.ms, d.mi)
			if msg := word(s, m); msg != "" {
				x.bad(k, s, "word", at, "the line of a morpheme "+msg)
			}
			d.out = nil
		case d.fl != nil && d.fl.h == h:
			finish(s, at)
			if !d.ended || !k.stepsByOne(s, *d.fl) {
				x.bad(k, s, "file", at, who+" can leave out lines of a file, or a file")
			}
		case d.rot[h] != nil:
			if d.have != cliRead || k.edgeVal(s, d.rot[h]) != d.ok {
				x.bad(k, s, "line", at, who+" can pass over a line")
			}
		default:
			if d.have != cliNone && d.scanner != nil && (d.have == cliDone || k.truth(s, d.ok) == 1) && does(h, tokenize, scans) {
				finish(s, at)
			}
		}
	}
	n := 0
	k.cl.exit = func(k *ai, s *astate, how aexit, at ssa.Instruction, res []*T) {
		d := dat(s)
		pos := w.posOf(at)
		if how == aProcess {
			if v, ok := res[0].intVal(); !ok || v != 0 {
				if d.have == cliDone && k.nonNil(s, d.err) == 1 && k.truth(s, flag("f")) == 1 {
					x.bad(k, s, "stops", pos, who+" can stop at a failure though -f is given")
				}
				return
			}
		} else if how != aReturn {
			return
		}
		n++
		finish(s, pos)
		switch {
		case d.stdin:
			if !d.ended {
				x.bad(k, s, "file", pos, who+" can leave out lines of standard input")
			}
		case d.fl == nil || !k.gone(s, d.fl, files):
			x.bad(k, s, "file", pos, who+" can succeed without having read all files")
		}
	}
	k.run(f, func(s *astate) {
		s.data = &cliState{flags: map[string]*T{}, texts: map[*T][]piece{}, rot: map[*ssa.BasicBlock]*ssa.Phi{}}
	})
	if n == 0 || k.gaveUp {
		x.bad(nil, nil, "gaveup", w.pos(f.Pos()), who+" could not be analysed completely")
	}
}

// source: lines are read from the file at hand, or from standard input if there is none.
func (x *cliCheck) source(k *ai, s *astate, d *cliState, in, files *T, at string) {
	std := in.op == "load" && in.args[0].op == "global" && strings.HasSuffix(in.args[0].v.(*ssa.Global).String(), "os.Stdin")
	if std {
		if k.rangeOf(s, k.lenOf(s, files)).hi > 0 {
			x.bad(k, s, "source", at, "gosudachicli can read standard input though files are named")
		}
		d.stdin = true
		return
	}
	if d.fl != nil && (isRes(in, "os.OpenFile") || isRes(in, "os.Open@")) && in.c0 == 0 && in.args[0].op == "load" && in.args[0].args[0] == k.idx(files, k.index(*d.fl), types.Typ[types.String]) {
		return
	}
	x.bad(k, s, "source", at, fmt.Sprintf("gosudachicli reads lines from %s, not from the file named", shortT(in)))
}
