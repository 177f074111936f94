package main

// C08: the file as a whole: the programs that write one and the function that
// opens one.

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (l *layout) constOf(name string) (uint64, bool) {
	p := l.w.must(l.w.pkgFunc("dictionary", "NewBinaryDictionary"), "NewBinaryDictionary").Pkg.Pkg
	c, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Uint64Val(constant.ToInt(c.Val()))
	return v, ok
}

// openFile: the parts of a file are read where they are written.
func (l *layout) openFile() {
	w := l.w
	f := w.must(w.pkgFunc("dictionary", "NewBinaryDictionary"), "NewBinaryDictionary")
	who := w.fname(f)
	bt := w.typ("dictionary", "BinaryDictionary")
	gt := w.typ("dictionary", "Grammar")
	ht := w.typ("dictionary", "DictionaryHeader")
	l.r.oblige(who + " finds the parts of a file where they are written")
	head := w.pkgFunc("dictionary", "ParseDictionaryHeader")
	gram := w.pkgFunc("dictionary", "NewGrammar")
	lex := w.pkgFunc("dictionary", "NewDoubleArrayLexicon")
	e := newEmitter(w, nil)
	part := func(fn *ssa.Function, args []*T) (buf, off, flag *T) {
		for i, p := range fn.Params {
			switch {
			case isBytesT(p.Type()):
				buf = args[i]
			case isIntT(p.Type()):
				off = args[i]
			case isBoolType(p.Type()):
				flag = args[i]
			}
		}
		return
	}
	l.follow(e, func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		if callee != nil && (callee == head || callee == gram || callee == lex) {
			buf, off, flag := part(callee, args)
			d := s.data.(*emState)
			n := map[*ssa.Function]string{head: "header", gram: "grammar", lex: "lexicon"}[callee]
			res := e.k.opaque(s, s.top(), c, callee, args)
			d.note[n+" buf"], d.note[n+" off"], d.note[n+" flag"], d.note[n] = buf, off, flag, res[0]
			return res, true, false
		}
		return nil, false, true
	})
	var flag *T
	if !e.run(f, nil, func(s *astate) { flag = e.k.val(s, s.top(), w.mustParam(f, isBoolType)) }, nil) {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	k := e.k
	sysV, ok1 := l.constOf("SystemDictVersion")
	usrV, ok2 := l.constOf("UserDictVersion")
	us2V, ok3 := l.constOf("UserDictVersion2")
	if !ok1 || !ok2 || !ok3 {
		l.bad(nil, nil, "versions", w.pos(f.Pos()), "the format versions are not known")
		return
	}
	n := 0
	open := map[string]bool{}
	for _, y := range e.exits {
		if k.nonNil(y.s, y.res[1]) != -1 {
			continue
		}
		n++
		l.count("sections read")
		d := y.s.data.(*emState)
		h := d.note["header"]
		bad := func(key, msg string) { l.bad(k, y.s, "open:"+key, y.at, who+" "+msg) }
		if h == nil || k.equal(y.s, d.note["header off"], k.num(0)) != 1 {
			bad("header", "does not read the header at the beginning of the file")
			continue
		}
		ver := k.getField(y.s, h, ht, "Version")
		isV := func(v uint64) bool {
			return k.equal(y.s, ver, k.constant(ssa.NewConst(constant.MakeUint64(v), ver.typ))) == 1
		}
		one := isV(sysV) || isV(us2V) || isV(usrV)
		for nm, v := range map[string]uint64{"system dictionaries": sysV, "user dictionaries": us2V, "user dictionaries without a grammar": usrV} {
			if isV(v) || !one && k.equal(y.s, ver, k.constant(ssa.NewConst(constant.MakeUint64(v), ver.typ))) != -1 {
				open[nm] = true
			}
		}
		want := k.num(272)
		buf := d.note["header buf"]
		if g := d.note["grammar"]; g != nil {
			if !isV(sysV) && !isV(us2V) {
				bad("grammar", "reads a grammar from a file whose version may be one without")
			}
			if d.note["grammar buf"] != buf || k.equal(y.s, d.note["grammar off"], want) != 1 || d.note["grammar flag"] != flag {
				bad("grammar", fmt.Sprintf("reads the grammar at %s", shortT(d.note["grammar off"])))
			}
			want = k.add(want, k.getField(y.s, g, gt, "StorageSize"))
			if k.getField(y.s, y.res[0], bt, "Grammar") != g {
				bad("grammar", "does not keep the grammar it read")
			}
		} else if !isV(usrV) {
			bad("grammar", "reads no grammar from a file whose version may be one with it")
		} else if k.nonNil(y.s, k.getField(y.s, y.res[0], bt, "Grammar")) != -1 {
			bad("grammar", "has a grammar it did not read")
		}
		if d.note["lexicon"] == nil || d.note["lexicon buf"] != buf || k.equal(y.s, d.note["lexicon off"], want) != 1 || d.note["lexicon flag"] != flag || k.getField(y.s, y.res[0], bt, "Lexicon") != d.note["lexicon"] {
			bad("lexicon", fmt.Sprintf("reads the lexicon at %s, not behind the grammar, with the encoding it is given", shortT(d.note["lexicon off"])))
		}
		if k.getField(y.s, y.res[0], bt, "Header") != h {
			bad("header", "does not keep the header it read")
		}
	}
	for _, nm := range []string{"system dictionaries", "user dictionaries", "user dictionaries without a grammar"} {
		if !open[nm] {
			l.bad(nil, nil, "never:"+nm, w.pos(f.Pos()), who+" never opens "+nm)
		}
	}
	if n == 0 {
		l.bad(nil, nil, "none:"+who, w.pos(f.Pos()), who+" never reports success")
	}
}

// writerCalls: what the methods that write a part of a file send to it.
func (l *layout) writerCalls(e *emitter, main *ssa.Function) func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
	dict := l.w.rel("dictionary")
	kinds := map[string]string{
		"DictionaryBuilder.WriteGrammar": "the grammar", "DictionaryBuilder.WriteGrammarUser": "the grammar of a user dictionary", "DictionaryBuilder.WriteLexicon": "the lexicon",
		"Grammar.WritePOSTableTo": "the parts of speech", "Grammar.WriteConnMatrixTo": "the connection costs",
		"DoubleArrayLexicon.WriteTrieTo": "the trie", "DoubleArrayLexicon.WriteWordIdTableTo": "the word-id table",
		"DoubleArrayLexicon.WriteWordParamsTo": "the words' parameters", "DoubleArrayLexicon.WriteWordInfos": "the words' records",
	}
	return func(s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool, bool) {
		k := e.k
		if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != dict {
			return nil, false, true
		}
		d := s.data.(*emState)
		var out, flag *T
		var nums []*T
		for i, p := range callee.Params {
			switch {
			case i > 0 && isWriterType(p.Type()):
				out = args[i]
			case isBoolType(p.Type()):
				flag = args[i]
			case isInteger(p.Type()):
				nums = append(nums, args[i])
			}
		}
		if n := namedOfRecv(callee); n != nil {
			if kd := kinds[n.Obj().Name()+"."+callee.Name()]; kd != "" && out != nil {
				d.note["recv:"+kd] = args[0]
				for i, x := range nums {
					d.note[fmt.Sprintf("num%d:%s", i, kd)] = x
				}
				x := emEv{kind: kd, to: out, val: args[0], sel: flag, at: c}
				if kd == "the grammar" || kd == "the grammar of a user dictionary" || kd == "the lexicon" {
					for i, p := range callee.Params {
						if i > 0 && !isWriterType(p.Type()) && callee.Params[i].Name() != "" && args[i].op != "const" {
							if it, isI := p.Type().Underlying().(*types.Interface); isI && it.NumMethods() < 2 {
								continue // the matrix to read
							}
							d.note["store:"+kd] = storeRoot(args[i])
						}
					}
				}
				e.emit(s, x)
				x.to = e.canon(out)
				size := e.sizeOf(x)
				var res []*T
				rs := callee.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					t := rs.At(i).Type()
					switch {
					case isErrorType(t):
						res = append(res, k.null())
					case isInteger(t):
						res = append(res, size)
					default:
						b := k.mk(&T{op: "res", s: "bytes.NewBuffer of offsets@" + s.top().here(), typ: t, args: args, in: c})
						d.g[b] = k.num(0)
						d.ev = append(d.ev, emEv{kind: "the offsets", to: b, val: args[0], at: c, pos: k.num(0)})
						d.g[b] = nums[1]
						res = append(res, b)
					}
				}
				return res, true, false
			}
			if callee.Name() == "Size" && len(args) == 1 {
				return []*T{k.mk(&T{op: "res", s: "words of", typ: callee.Signature.Results().At(0).Type(), args: args})}, true, false
			}
			if callee.Name() == "BuildLexicon" {
				for i, p := range callee.Params {
					if it, isI := p.Type().Underlying().(*types.Interface); isI && i > 0 && it.NumMethods() >= 2 {
						d.note["store:build"] = storeRoot(args[i])
						d.note["recv:build"] = args[0]
					}
				}
			}
		}
		res := k.opaque(s, s.top(), c, callee, args)
		switch callee.Name() {
		case "NewDictionaryBuilder":
			d.note["builder"], d.note["builder pos"] = res[0], nums[0]
		case "NewBinaryDictionary":
			d.note["opened"], d.note["opened flag"] = res[0], flag
		}
		return res, true, false
	}
}

// storeRoot: the table of parts of speech a value is, or is part of.
func storeRoot(t *T) *T {
	for {
		t = strip(t)
		if t.op == "fld" {
			t = t.args[0]
			continue
		}
		return t
	}
}

func (l *layout) mainOf(pkg string) *ssa.Function {
	for _, f := range l.w.allFns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == l.w.rel(pkg) && f.Name() == "main" && f.Signature.Recv() == nil && f.Parent() == nil {
			return f
		}
	}
	return nil
}

// onlyOutput: the one file that is written.
func onlyOutput(all map[*T][]emItem) (out *T, items []emItem, n int) {
	for t, its := range all {
		if len(its) > 0 {
			n++
			out, items = t, its
		}
	}
	return
}

func (l *layout) runMain(pkg string, each func(e *emitter, y emExit, who string)) {
	w := l.w
	f := w.must(l.mainOf(pkg), pkg+".main")
	who := pkg + "." + f.Name()
	e := newEmitter(w, nil)
	e.call = l.writerCalls(e, f)
	if !e.run(f, nil, func(s *astate) {}, nil) {
		l.bad(nil, nil, "steps", w.pos(f.Pos()), who+" has more paths than are followed")
		return
	}
	n := 0
	for _, y := range e.exits {
		n++
		each(e, y, who)
	}
	if n == 0 {
		l.bad(nil, nil, "none:"+who, w.pos(f.Pos()), who+" never reports success")
	}
}

// converter: dicconv.
func (l *layout) converter() {
	w := l.w
	bt := w.typ("dictionary", "BinaryDictionary")
	l.r.oblige("the converter writes the parts of a file where they are read")
	l.runMain("dicconv", func(e *emitter, y emExit, who string) {
		k := e.k
		d := y.s.data.(*emState)
		_, items, n := onlyOutput(e.arrives(d.ev))
		l.unflushed(e, y, who)
		if n != 1 {
			l.miss(e, who, &emMiss{y.at, fmt.Sprintf("writes to %d outputs, not 1", n), y.s})
			return
		}
		from := d.note["opened"]
		if from == nil {
			l.miss(e, who, &emMiss{y.at, "opens no dictionary", y.s})
			return
		}
		gr, lx := k.getField(y.s, from, bt, "Grammar"), k.getField(y.s, from, bt, "Lexicon")
		var flag *T
		enc := func(it emItem) bool {
			if flag == nil {
				flag = it.sel
			}
			return it.sel == flag
		}
		sec := func(kind string, recv *T, ok func(s *astate, it emItem) bool) pat {
			return pat{what: kind, kind: kind, ok: func(s *astate, it emItem) bool {
				return it.val == recv && (ok == nil || ok(s, it))
			}}
		}
		ps := []pat{{what: "the header of the dictionary that is read", kind: "bytes", ok: func(s *astate, it emItem) bool {
			return isRes(it.val, "DictionaryHeader).ToBytes") && it.val.args[0] == k.getField(s, from, bt, "Header")
		}}}
		if k.nonNil(y.s, gr) != -1 {
			ps = append(ps, sec("the parts of speech", gr, func(s *astate, it emItem) bool { return enc(it) }), sec("the connection costs", gr, nil))
		}
		size := k.mk(&T{op: "res", s: "words of", typ: types.Typ[types.Int32], args: []*T{lx}})
		room := func(s *astate, t *T) bool {
			for t.op == "conv" {
				t = t.args[0]
			}
			d := k.sub(t, k.mul(size, k.num(4), size.typ))
			c, isC := d.intVal()
			return isC && c == 0 || t == k.mul(size, k.num(4), size.typ) || k.equal(s, t, k.scaled(size, 4)) == 1
		}
		var start *T
		ps = append(ps, sec("the trie", lx, nil), sec("the word-id table", lx, nil), sec("the words' parameters", lx, nil),
			pat{what: "the room for the offsets", kind: "seekcur|seekset", ok: func(s *astate, it emItem) bool {
				start = it.pos
				if it.kind == "seekset" {
					return room(s, k.sub(it.val, it.pos))
				}
				return room(s, it.val)
			}},
			sec("the words' records", lx, func(s *astate, it emItem) bool {
				o, ol := d.note["num0:the words' records"], d.note["num1:the words' records"]
				return enc(it) && start != nil && o != nil && ol != nil && k.equal(s, o, start) == 1 && room(s, ol)
			}),
			pat{what: "a jump to the room for the offsets", kind: "seekset", ok: func(s *astate, it emItem) bool {
				return start != nil && k.equal(s, it.val, start) == 1
			}},
			sec("the offsets", lx, nil))
		if m := e.match(y.s, items, ps, y.at); m != nil {
			l.miss(e, who, m)
			return
		}
		l.count("files written")
		rf := d.note["opened flag"]
		a, b := k.truth(y.s, rf), k.truth(y.s, flag)
		if !(a != 0 && a == -b) && !(rf.op == "not" && rf.args[0] == flag) {
			l.miss(e, who, &emMiss{y.at, "does not write the encoding it does not read", y.s})
		}
	})
}

// builders: the programs that build a dictionary.
func (l *layout) builders(pkg string, user bool) {
	l.r.oblige(pkg + " writes the header, the grammar and the lexicon")
	version := "SystemDictVersion"
	kind := "the grammar"
	if user {
		version, kind = "UserDictVersion2", "the grammar of a user dictionary"
	}
	want, okV := l.constOf(version)
	l.runMain(pkg, func(e *emitter, y emExit, who string) {
		k := e.k
		d := y.s.data.(*emState)
		_, items, n := onlyOutput(e.arrives(d.ev))
		l.unflushed(e, y, who)
		if n != 1 {
			l.miss(e, who, &emMiss{y.at, fmt.Sprintf("writes to %d outputs, not 1", n), y.s})
			return
		}
		b := d.note["builder"]
		if m := e.match(y.s, items, []pat{
			{what: "the header", kind: "bytes", ok: func(s *astate, it emItem) bool {
				if !isRes(it.val, "DictionaryHeader).ToBytes") || !isRes(it.val.args[0], "NewDictionaryHeader") {
					return false
				}
				v := it.val.args[0].args[0]
				return okV && k.equal(s, v, k.constant(ssa.NewConst(constant.MakeUint64(want), types.Typ[types.Uint64]))) == 1
			}},
			{what: kind, kind: kind, ok: func(s *astate, it emItem) bool {
				return it.val == b && b != nil && d.note["builder pos"] != nil && k.equal(s, it.pos, d.note["builder pos"]) == 1
			}},
			{what: "the lexicon", kind: "the lexicon", ok: func(s *astate, it emItem) bool { return it.val == b }},
		}, y.at); m != nil {
			l.miss(e, who, m)
			return
		}
		l.count("files written")
		st := d.note["store:"+kind]
		if st == nil || d.note["store:the lexicon"] != st || d.note["store:build"] != nil && d.note["store:build"] != st {
			l.miss(e, who, &emMiss{y.at, "does not write the parts of speech its words refer to", y.s})
		}
	})
}

// partsOfSpeech: every part of speech in a table has the same number of
// strings.
func (l *layout) partsOfSpeech() {
	w := l.w
	tabT := w.typ("dictionary", "PosTable")
	fTab := oneField(tabT, "the table", func(t types.Type) bool { return sliceOfT(t) != nil })
	el := sliceOfT(tabT.Underlying().(*types.Struct).Field(fTab).Type())
	if sliceOfT(el) == nil {
		l.bad(nil, nil, "table", w.pos(tabT.Obj().Pos()), "a table of parts of speech does not keep their strings apart")
		return
	}
	l.r.oblige("every part of speech has 6 strings")
	l.lookups(func(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
		l.count("parts of speech looked up")
		if l.ownStrings(v, in.Block(), 0) != posParts {
			l.bad(nil, nil, "parts:"+w.fname(f), w.posOf(in), fmt.Sprintf("%s looks up a part of speech that may not have %d strings", w.fname(f), posParts))
		}
	})
	l.r.floor("parts of speech looked up", 1)
}

// lookups: the calls that look up the id of a part of speech.
func (l *layout) lookups(visit func(f *ssa.Function, in ssa.Instruction, v ssa.Value)) {
	w := l.w
	for _, f := range w.allFns {
		if f.Pkg == nil || !w.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := c.Common()
				name := ""
				if com.IsInvoke() {
					name = com.Method.Name()
				} else if g := com.StaticCallee(); g != nil {
					name = g.Name()
				}
				if name != "GetPosId" || len(com.Args) == 0 {
					continue
				}
				v := com.Args[len(com.Args)-1]
				if p, ok := v.(*ssa.Parameter); ok && p.Parent().Name() == "GetPosId" {
					continue
				}
				visit(f, in, v)
			}
		}
	}
}

// ownStrings: how many strings v has, or -1, if nothing else may change them.
func (l *layout) ownStrings(v ssa.Value, use *ssa.BasicBlock, depth int) int64 {
	if in, ok := v.(ssa.Instruction); depth > 4 || ok && !renewed(in.Block(), use) {
		return -1
	}
	switch v := v.(type) {
	case *ssa.Slice:
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if al, ok := v.X.(*ssa.Alloc); ok && renewed(al.Block(), use) {
					if v.Low == nil && v.High == nil {
						return at.Len()
					}
					return sliceLen(v)
				}
			}
			return -1
		}
		if ownLine(v.X) {
			return sliceLen(v)
		}
	case *ssa.MakeSlice:
		if n, ok := constInt(v.Len); ok {
			return int64(n)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(v.Call.Args) == 2 {
			if c, ok := v.Call.Args[0].(*ssa.Const); ok && c.IsNil() {
				if sl, ok := v.Call.Args[1].(*ssa.Slice); ok {
					if n := sliceLen(sl); n >= 0 {
						return n
					}
				}
				return l.ownStrings(v.Call.Args[1], use, depth+1)
			}
		}
	case *ssa.Parameter:
		// every call of the function
		n := int64(-1)
		for i, p := range v.Parent().Params {
			if p != v {
				continue
			}
			for _, g := range l.w.addrTaken() {
				if g == v.Parent() {
					return -1
				}
			}
			for _, g := range l.w.allFns {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						c, ok := in.(ssa.CallInstruction)
						if !ok || c.Common().StaticCallee() != v.Parent() {
							continue
						}
						m := l.ownStrings(c.Common().Args[i], b, depth+1)
						if m < 0 || n >= 0 && n != m {
							return -1
						}
						n = m
					}
				}
			}
		}
		return n
	}
	return -1
}

// renewed: between two runs of use there is always one of def.
func renewed(def, use *ssa.BasicBlock) bool {
	if def == use || def.Parent() != use.Parent() {
		return def == use
	}
	seen := map[*ssa.BasicBlock]bool{def: true}
	todo := append([]*ssa.BasicBlock(nil), use.Succs...)
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == use {
			return false
		}
		if seen[b] {
			continue
		}
		seen[b] = true
		todo = append(todo, b.Succs...)
	}
	return true
}

// sliceLen: the length of x[a:b] with constant a and b, or -1.
func sliceLen(v *ssa.Slice) int64 {
	if v.High == nil {
		return -1
	}
	b, ok := constInt(v.High)
	if !ok {
		return -1
	}
	if v.Low == nil {
		return int64(b)
	}
	a, ok := constInt(v.Low)
	if !ok {
		return -1
	}
	return int64(b - a)
}

// ownLine: v is a line that was read into memory of its own.
func ownLine(v ssa.Value) bool {
	ex, ok := v.(*ssa.Extract)
	if !ok {
		return false
	}
	c, ok := ex.Tuple.(*ssa.Call)
	if !ok {
		return false
	}
	for _, a := range c.Call.Args {
		if !isStrings(a.Type()) {
			continue
		}
		k, ok := a.(*ssa.Const)
		if !ok || !k.IsNil() {
			return false
		}
	}
	return true
}
