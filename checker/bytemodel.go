package main

// What the standard library does with bytes: numbers read from and put into
// byte slices, in terms of (slice, offset) pairs.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type byteHooks struct {
	put func(s *astate, base, off *T, kind string, val *T, in ssa.Instruction)
	cp  func(s *astate, dst, doff, src, soff, n *T, in ssa.Instruction)
	// emit: a number (kind le2, be4, ...) or bytes (kind "bytes") go to a writer
	emit func(s *astate, to *T, kind string, val *T, in ssa.Instruction)
}

// baseOff splits a slice term.
func (k *ai) baseOff(x *T) (base, off *T) {
	off = k.num(0)
	for x.op == "slice" {
		if lo := x.args[1]; lo.op != "nil" {
			off = k.add(lo, off)
		}
		x = x.args[0]
	}
	return x, off
}

func uintOf(n int) types.Type {
	switch n {
	case 1:
		return types.Typ[types.Uint8]
	case 2:
		return types.Typ[types.Uint16]
	case 4:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

// rd: the number of n bytes at base[off:], as the memory is now.
func (k *ai) rd(s *astate, base, off *T, n int, order string) *T {
	if n == 1 {
		return k.load(s, k.idx(base, off, types.Typ[types.Uint8]), types.Typ[types.Uint8])
	}
	v := k.version(s, k.idx(base, off, types.Typ[types.Uint8]))
	return k.mk(&T{op: "rd", s: fmt.Sprintf("%s%d", order, n), typ: uintOf(n), args: []*T{base, off, k.str(v)}})
}

func intSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	case types.Int, types.Uint, types.Int64, types.Uint64:
		return 8
	}
	return 0
}

func kindSize(kind string) int {
	if len(kind) < 3 {
		return 0
	}
	return int(kind[2] - '0')
}

// ghost cells keep what the model knows about library objects.
func (k *ai) ghost(name string, of *T) *T {
	return k.mk(&T{op: "fld", s: "#" + name, typ: types.NewPointer(types.Typ[types.Int]), args: []*T{of}})
}

func orderOf(t *T) string {
	switch {
	case strings.Contains(t.s, "littleEndian"):
		return "le"
	case strings.Contains(t.s, "bigEndian"):
		return "be"
	}
	return ""
}

// byteModel makes k understand encoding/binary, bytes.Buffer and bytes.Reader
// on bytes.
func (k *ai) byteModel(h byteHooks) func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
	return func(k *ai, s *astate, c ssa.CallInstruction, callee *ssa.Function, args []*T) ([]*T, bool) {
		com := c.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" && h.cp != nil && len(args) == 2 {
				d, do := k.baseOff(args[0])
				src, so := k.baseOff(args[1])
				h.cp(s, d, do, src, so, k.lenOf(s, args[1]), c)
			}
			return nil, false
		}
		if callee == nil {
			return nil, false
		}
		full := callee.RelString(nil)
		errRes := func() *T {
			return k.mk(&T{op: "res", s: full + "@" + s.top().here(), typ: types.Universe.Lookup("error").Type(), in: c, args: args, c0: int64(callee.Signature.Results().Len() - 1)})
		}
		switch full {
		case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString":
			t := k.mk(&T{op: "res", s: full + "@" + s.top().here(), typ: callee.Signature.Results().At(0).Type(), args: args, in: c})
			s.mem[k.ghost("pos", t)] = k.num(0)
			return []*T{t}, true
		case "encoding/binary.Read":
			if len(args) != 3 || args[0].op != "iface" || args[2].op != "iface" || args[1].op != "iface" {
				return nil, false
			}
			rdr, data, ord := args[0].args[0], args[2].args[0], orderOf(args[1])
			pt, isP := args[2].typ.Underlying().(*types.Pointer)
			if !isP || ord == "" || intSize(pt.Elem()) == 0 || rdr.op != "res" || len(rdr.args) != 1 {
				return nil, false
			}
			if b := pt.Elem().Underlying().(*types.Basic); b.Kind() == types.Int || b.Kind() == types.Uint {
				return nil, false
			}
			pos, ok := s.mem[k.ghost("pos", rdr)]
			if !ok {
				return nil, false
			}
			n := intSize(pt.Elem())
			base, off := k.baseOff(rdr.args[0])
			v := k.rd(s, base, k.add(off, pos), n, ord)
			if c := k.convert(s, v, uintOf(n), pt.Elem()); c != nil {
				v = c
			}
			s.mem[k.ghost("pos", rdr)] = k.add(pos, k.num(int64(n)))
			k.store(s, s.top(), data, v, pt.Elem())
			if k.rangeOf(s, k.sub(k.lenOf(s, rdr.args[0]), k.add(pos, k.num(int64(n))))).lo >= 0 {
				return []*T{k.null()}, true
			}
			return []*T{errRes()}, true
		}
		if strings.HasPrefix(full, "(encoding/binary.") && len(args) >= 2 {
			ord := "le"
			if strings.Contains(full, "bigEndian") {
				ord = "be"
			}
			n := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[callee.Name()]
			if n == 0 {
				return nil, false
			}
			base, off := k.baseOff(args[1])
			if strings.HasPrefix(callee.Name(), "Put") {
				if h.put != nil {
					h.put(s, base, off, fmt.Sprintf("%s%d", ord, n), args[2], c)
				}
				a := k.idx(base, off, types.Typ[types.Uint8])
				k.kill(s, s.top(), a, class(a))
				return []*T{}, true
			}
			return []*T{k.rd(s, base, off, n, ord)}, true
		}
		return nil, false
	}
}

// resume runs f on args from the memory and facts of s, with other hooks.
func (k *ai) resume(s0 *astate, tag string, f *ssa.Function, args []*T, cl aclient) {
	old, oldM := k.cl, k.model
	defer func() { k.cl, k.model = old, oldM }()
	if cl.clone == nil {
		cl.clone, cl.key = old.clone, old.key
	}
	s := s0.clone(k)
	k.cl = cl
	fr := &aframe{fn: f, fid: k.fid(0, 0, tag, f), blk: f.Blocks[0], env: map[ssa.Value]*T{}, generic: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	s.stack = []*aframe{fr}
	k.explore(s)
}
