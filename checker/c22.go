package main

// C22: the constants compiled into package data are the resource files, and
// every default is read from the resource of its kind.

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "constant decoding of the embedded table against the resource directory; constant propagation of resource names", checkEmbedded)
}

type embedded struct {
	pos     string
	content []byte
	strs    map[string]string
	ints    map[string]int64
	gz      bool
	typ     *types.Named
}

func checkEmbedded(w *World, r *Report) {
	r.Explanation = "The composite literals of package data are decoded at the constant level (the string constants the compiler puts into the binary, unpacked) and compared byte for byte with the files below data/root, in both directions; recorded names and sizes are compared too. Opening an embedded file is checked to hand out the whole constant under the requested cleaned name. Every call that opens an embedded resource has its name resolved to a constant through the call chain, and the name has to be the resource of the configuration field it is the default of."
	w.must(w.pkgFunc("data", "init"), "package data")
	tab := map[string]*embedded{}
	for _, p := range w.pkgs {
		if p.PkgPath != w.rel("data") {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				kv, ok := n.(*ast.KeyValueExpr)
				if !ok {
					return true
				}
				kc := p.TypesInfo.Types[kv.Key].Value
				if kc == nil || kc.Kind() != constant.String {
					return true
				}
				e := &embedded{pos: w.pos(kv.Pos()), strs: map[string]string{}, ints: map[string]int64{}}
				x := kv.Value
				if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
					x = u.X
				}
				cl, ok := x.(*ast.CompositeLit)
				if !ok {
					return true
				}
				e.typ = namedOf(p.TypesInfo.Types[cl].Type)
				has := false
				for _, el := range cl.Elts {
					fkv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						continue
					}
					id, ok := fkv.Key.(*ast.Ident)
					if !ok {
						continue
					}
					tv := p.TypesInfo.Types[fkv.Value]
					if tv.Value != nil && tv.Value.Kind() == constant.String {
						e.strs[id.Name] = constant.StringVal(tv.Value)
					}
					if tv.Value != nil && tv.Value.Kind() == constant.Int {
						e.ints[id.Name], _ = constant.Int64Val(tv.Value)
					}
					if c, ok := fkv.Value.(*ast.CallExpr); ok && len(c.Args) == 1 {
						if av := p.TypesInfo.Types[c.Args[0]].Value; av != nil && av.Kind() == constant.String {
							if sl, ok := tv.Type.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
								e.content = []byte(constant.StringVal(av))
								has = true
							}
						}
					}
				}
				if has {
					name := strings.TrimPrefix(constant.StringVal(kc), "/")
					if _, dup := tab[name]; dup {
						r.add(Finding{Key: "dup:" + name, Pos: e.pos, Rule: "embedded", Msg: "the resource " + name + " is embedded twice"})
					}
					tab[name] = e
				}
				return true
			})
		}
	}
	root := filepath.Join(w.root, "data", "root")
	files := map[string][]byte{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		files[filepath.ToSlash(rel)] = b
		return err
	})
	if err != nil {
		panic(err)
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	for n := range tab {
		if _, ok := files[n]; !ok {
			r.add(Finding{Key: "extra:" + n, Pos: tab[n].pos, Rule: "embedded", Msg: "the embedded resource " + n + " is not a file of data/root"})
		}
	}
	sort.Strings(names)
	for _, n := range names {
		r.count("resources", 1)
		e := tab[n]
		if e == nil {
			r.add(Finding{Key: "missing:" + n, Pos: "data/root/" + n, Rule: "embedded", Msg: "data/root/" + n + " is not embedded"})
			continue
		}
		r.oblige(e.pos + " embedded " + n + " = data/root/" + n)
		got := e.content
		if zr, err := gzip.NewReader(bytes.NewReader(e.content)); err == nil {
			b, err := io.ReadAll(zr)
			if err != nil {
				r.add(Finding{Key: "gzip:" + n, Pos: e.pos, Rule: "embedded", Msg: "the embedded resource " + n + " cannot be unpacked: " + err.Error()})
				continue
			}
			got = b
		}
		if !bytes.Equal(got, files[n]) {
			at := 0
			for at < len(got) && at < len(files[n]) && got[at] == files[n][at] {
				at++
			}
			r.add(Finding{Key: "content:" + n, Pos: e.pos, Rule: "embedded", Msg: fmt.Sprintf("the embedded resource %s (%d bytes) differs from data/root/%s (%d bytes) from byte %d (line %d) on", n, len(got), n, len(files[n]), at, 1+bytes.Count(files[n][:min(at, len(files[n]))], []byte("\n")))})
		}
		for f, s := range e.strs {
			if s != path.Base(n) {
				r.add(Finding{Key: "name:" + n, Pos: e.pos, Rule: "embedded", Msg: fmt.Sprintf("the resource %s is recorded with %s %q", n, f, s)})
			}
		}
		for f, i := range e.ints {
			if i != int64(len(files[n])) {
				r.add(Finding{Key: "size:" + n, Pos: e.pos, Rule: "embedded", Msg: fmt.Sprintf("the resource %s is recorded with %s %d, its length is %d", n, f, i, len(files[n]))})
			}
		}
	}
	r.floor("resources", 4)
	checkOpenEmbedded(w, r)
	checkResourceUses(w, r, files)
}

// checkOpenEmbedded: Open of the embedded file system looks up the cleaned
// requested name, and hands out a reader of the whole constant.
func checkOpenEmbedded(w *World, r *Report) {
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.rel("data") {
			continue
		}
		if !isInitFn(f) && (f.Parent() == nil || !isInitFn(f.Parent())) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					l, ok := in.(*ssa.Lookup)
					if !ok {
						continue
					}
					if _, ok := l.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					r.count("lookups", 1)
					r.oblige(w.posOf(in) + " " + w.fname(f) + " looks up the cleaned requested name")
					if !w.cleanedName(l.Index, 0) {
						r.add(Finding{Key: "open-name", Pos: w.posOf(in), Rule: "embedded", Msg: w.fname(f) + " looks up something other than the cleaned requested name"})
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				if c.Call.StaticCallee().String() == "bytes.NewReader" {
					r.count("content readers", 1)
					r.oblige(w.posOf(in) + " reader of the whole content")
					if u, ok := c.Call.Args[0].(*ssa.UnOp); !ok || u.Op != token.MUL {
						r.add(Finding{Key: "partial:" + w.fname(f), Pos: w.posOf(in), Rule: "embedded", Msg: w.fname(f) + " reads only part of an embedded resource"})
					} else if _, ok := u.X.(*ssa.FieldAddr); !ok {
						r.add(Finding{Key: "partial:" + w.fname(f), Pos: w.posOf(in), Rule: "embedded", Msg: w.fname(f) + " reads something else than an embedded resource"})
					}
				}
			}
		}
		// Read hands the caller's buffer to the decompressor and returns its result
		if f.Name() == "Read" && f.Signature.Recv() != nil && len(f.Params) == 2 {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "Read" || len(c.Call.Args) != 2 {
						continue
					}
					r.oblige(w.posOf(in) + " Read passes the caller's buffer on")
					if c.Call.Args[1] != ssa.Value(f.Params[1]) {
						r.add(Finding{Key: "read-buffer", Pos: w.posOf(in), Rule: "embedded", Msg: w.fname(f) + " does not read into the caller's buffer"})
					}
				}
			}
		}
	}
	r.floor("lookups", 1)
	// nothing writes to the content after initialisation
	for _, f := range w.allFns {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != w.rel("data") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					for g := f; g != nil; g = g.Parent() {
						if isInitFn(g) {
							mu = nil
							break
						}
					}
					if mu != nil {
						r.add(Finding{Key: "table-write", Pos: w.posOf(in), Rule: "embedded", Msg: w.fname(f) + " changes the embedded table"})
					}
				}
			}
		}
	}
}

// cleanedName: v is path.Clean("/" + p) for the name p an Open method was given.
func (w *World) cleanedName(v ssa.Value, d int) bool {
	if d > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.String() == "path.Clean" {
			b, ok := v.Call.Args[0].(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				return false
			}
			c, ok := b.X.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.String || constant.StringVal(c.Value) != "/" {
				return false
			}
			return w.requestedName(b.Y, d+1)
		}
		if !w.inModule(g) || g.Signature.Results().Len() != 1 {
			return false
		}
		n := 0
		for _, b := range g.Blocks {
			if rt, ok := lastInstr(b).(*ssa.Return); ok {
				n++
				if !w.cleanedName(rt.Results[0], d+1) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !w.cleanedName(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		cs := w.index().args[v.Parent()]
		for _, c := range cs {
			if !w.cleanedName(argFor(c, v), d+1) {
				return false
			}
		}
		return len(cs) > 0
	}
	return false
}

func (w *World) requestedName(v ssa.Value, d int) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok || d > 8 {
		return false
	}
	if p.Parent().Name() == "Open" && p.Parent().Signature.Recv() != nil {
		return true
	}
	cs := w.index().args[p.Parent()]
	for _, c := range cs {
		if !w.requestedName(argFor(c, p), d+1) {
			return false
		}
	}
	return len(cs) > 0
}

// defaultOf maps the configuration field whose absence selects a resource to
// that resource.
var defaultOf = map[string]string{
	"CharacterDefinitionFile": "char.def",
	"CharDef":                 "char.def",
	"UnkDef":                  "unk.def",
	"RewriteDef":              "rewrite.def",
}

type openSite struct {
	f    *ssa.Function
	at   ssa.Instruction
	name ssa.Value
	path ssa.Value // the file opened instead, in the same function
}

func checkResourceUses(w *World, r *Report, files map[string][]byte) {
	assets, _ := w.spkg[w.rel("data")].Members["Assets"].(*ssa.Global)
	if assets == nil {
		panic("anchor not found: data.Assets")
	}
	var work []openSite
	for _, f := range w.allFns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == w.rel("data") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Open" {
					continue
				}
				isA := false
				w.trace(c.Call.Value, false, func(l ssa.Value) {})
				if u, ok := c.Call.Value.(*ssa.UnOp); ok && u.X == ssa.Value(assets) {
					isA = true
				}
				if !isA {
					if n := namedOf(c.Call.Value.Type()); n != nil && n.Obj().Name() == "FileSystem" {
						isA = true
					}
				}
				if isA {
					work = append(work, openSite{f, in, c.Call.Args[0], pathOpenedIn(f)})
				}
			}
		}
	}
	seen := map[string]bool{}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		np, okn := s.name.(*ssa.Parameter)
		pp, okp := s.path.(*ssa.Parameter)
		if okn || okp && !isPathField(s.path) {
			// resolved at the call sites
			cs := w.index().args[s.f]
			if okn && len(cs) == 0 {
				r.add(Finding{Key: "unresolved:" + w.fname(s.f), Pos: w.posOf(s.at), Rule: "resource", Msg: "the name of the embedded resource opened in " + w.fname(s.f) + " is not known"})
				continue
			}
			for _, c := range cs {
				t := openSite{c.Parent(), c, s.name, s.path}
				if okn {
					t.name = argFor(c, np)
				}
				if okp {
					t.path = argFor(c, pp)
				} else if s.path == nil {
					t.path = pathOpenedIn(c.Parent())
				}
				k := fmt.Sprintf("%p%p", c, s.at)
				if !seen[k] {
					seen[k] = true
					work = append(work, t)
				}
			}
			if len(cs) > 0 {
				continue
			}
		}
		k, ok := s.name.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			r.add(Finding{Key: "unresolved:" + w.fname(s.f), Pos: w.posOf(s.at), Rule: "resource", Msg: "the name of the embedded resource opened in " + w.fname(s.f) + " is not known"})
			continue
		}
		name := strings.TrimPrefix(constant.StringVal(k.Value), "/")
		r.count("uses", 1)
		if _, ok := files[name]; !ok {
			r.add(Finding{Key: "nofile:" + w.fname(s.f), Pos: w.posOf(s.at), Rule: "resource", Msg: fmt.Sprintf("%s opens the embedded resource %q, which does not exist", w.fname(s.f), name)})
			continue
		}
		want := map[string]bool{}
		if s.path != nil {
			for _, fld := range pathFields(w, s.path) {
				if d := defaultOf[fld]; d != "" {
					want[d] = true
				}
			}
		}
		if strings.HasSuffix(s.f.Pkg.Pkg.Path(), "/gosudachicli") {
			want = map[string]bool{"sudachi.json": true}
		}
		r.oblige(fmt.Sprintf("%s %s opens %s, the default of %v", w.posOf(s.at), w.fname(s.f), name, keysOf(want)))
		if len(want) == 0 {
			r.add(Finding{Key: "unknown-default:" + w.fname(s.f), Pos: w.posOf(s.at), Rule: "resource", Msg: fmt.Sprintf("%s opens %s, but not as the default of a known configuration field", w.fname(s.f), name)})
		} else if !want[name] || len(want) > 1 {
			r.add(Finding{Key: "wrong-default:" + w.fname(s.f), Pos: w.posOf(s.at), Rule: "resource", Msg: fmt.Sprintf("%s reads %s where the default is %v", w.fname(s.f), name, keysOf(want))})
		}
	}
	r.floor("uses", 5)
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func argFor(c ssa.CallInstruction, p *ssa.Parameter) ssa.Value {
	for i, q := range p.Parent().Params {
		if q == p {
			if c.Common().IsInvoke() {
				i--
			}
			if i >= 0 && i < len(c.Common().Args) {
				return c.Common().Args[i]
			}
		}
	}
	return nil
}

func isPathField(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL
}

// pathOpenedIn finds the file a function opens when it is given a name.
func pathOpenedIn(f *ssa.Function) ssa.Value {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && (g.String() == "os.OpenFile" || g.String() == "os.Open") {
					return c.Call.Args[0]
				}
			}
		}
	}
	return nil
}

// pathFields names the struct fields a path value can be read from.
func pathFields(w *World, v ssa.Value) []string {
	m := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				visit(e)
			}
		case *ssa.Parameter:
			for _, c := range w.index().args[v.Parent()] {
				visit(argFor(c, v))
			}
		case *ssa.UnOp:
			if v.Op != token.MUL {
				return
			}
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				m[st.Field(a.Field).Name()] = true
				for _, s := range w.index().fst[fieldClass(a.X.Type(), a.Field)] {
					visit(s.Val)
				}
			case *ssa.Alloc:
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						visit(s.Val)
					}
				}
			default:
				visit(v.X) // **string
			}
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && w.inModule(g) {
				for _, b := range g.Blocks {
					if rt, ok := lastInstr(b).(*ssa.Return); ok && len(rt.Results) > 0 {
						visit(rt.Results[0])
					}
				}
			}
		}
	}
	visit(v)
	return keysOf(m)
}
