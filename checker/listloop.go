package main

// Loops that go through a list, element by element.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A listLoop is a generic loop whose body indexes a list with phi+c.
type listLoop struct {
	h    *ssa.BasicBlock
	phi  *T
	c    int64
	list *T // if it is the same all the way through
	at   *ssa.Phi
}

// listLoopOf: the loop headed by h (just entered, in the top frame), if it
// indexes slices whose elements satisfy elem by a value linear in a counter of
// h, and starts at the first one.
func (k *ai) listLoopOf(s *astate, h *ssa.BasicBlock, elem func(types.Type) bool) (l listLoop, ok bool) {
	fr := s.top()
	for b := range k.loop(h) {
		for _, in := range b.Instrs {
			ia, isIA := in.(*ssa.IndexAddr)
			if !isIA || !elem(elemType(ia.X.Type())) {
				continue
			}
			base, n := linear(ia.Index)
			phi, isPhi := base.(*ssa.Phi)
			if !isPhi || phi.Block() != h {
				continue
			}
			l = listLoop{h: h, phi: fr.env[phi], c: int64(n), at: phi}
			if k.rangeOf(s, k.index(l)).lo == 0 {
				l.list = k.loopValue(s, fr, ia.X, k.loop(h))
				return l, true
			}
		}
	}
	return l, false
}

// index: the term of the current element's index.
func (k *ai) index(l listLoop) *T { return k.add(l.phi, k.num(l.c)) }

// stepsByOne: at l's back edge, the counter goes on with its successor.
func (k *ai) stepsByOne(s *astate, l listLoop) bool {
	fr := s.top()
	for i, p := range l.h.Preds {
		if p == fr.pred {
			n, ok := k.sub(k.val(s, fr, l.at.Edges[i]), l.phi).intVal()
			return ok && n == 1
		}
	}
	return false
}

// gone: the path knows that the loop's index has reached the end of the list
// (or that the list is empty).
func (k *ai) gone(s *astate, l *listLoop, list *T) bool {
	n := k.lenOf(s, list)
	if k.rangeOf(s, n).hi <= 0 || k.nonNil(s, list) == -1 {
		return true
	}
	return l != nil && k.rangeOf(s, k.sub(n, k.index(*l))).hi <= 0
}

// at: element i of the list.
func (k *ai) elemAt(s *astate, list, i *T) *T {
	e := elemType(list.typ)
	return k.load(s, k.idx(list, i, e), e)
}

// elemsOf: the elements of a list of a known, small length.
func (k *ai) elemsOf(s *astate, list *T) []*T {
	n, isC := k.lenOf(s, list).intVal()
	if !isC || n > 64 {
		return nil
	}
	var es []*T
	for i := int64(0); i < n; i++ {
		e := k.elemAt(s, list, k.num(i))
		if e.op == "load" && list.op == "append1" && e.args[0] == k.idx(list, k.num(i), elemType(list.typ)) {
			if m, ok := k.lenOf(s, list.args[0]).intVal(); ok && i >= m {
				e = list.args[1+i-m]
			} else if b := k.elemsOf(s, list.args[0]); ok && int64(len(b)) > i {
				e = b[i]
			}
		}
		es = append(es, e)
	}
	return es
}

// loopValue: the value of x, at the loop's head, if the loop does not change it.
func (k *ai) loopValue(s *astate, fr *aframe, x ssa.Value, loop map[*ssa.BasicBlock]bool) *T {
	if in, ok := x.(ssa.Instruction); !ok || !loop[in.Block()] {
		return k.val(s, fr, x)
	}
	switch x := x.(type) {
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if b := k.loopValue(s, fr, a.X, loop); b != nil {
				pt := a.X.Type().Underlying().(*types.Pointer).Elem()
				return k.load(s, k.fld(b, pt, a.Field), x.Type())
			}
		case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
			if in, ok := a.(ssa.Instruction); !ok || !loop[in.Block()] {
				return k.load(s, k.val(s, fr, a), x.Type())
			}
		default:
			if in, ok := a.(ssa.Instruction); x.Op == token.MUL && ok && !loop[in.Block()] {
				return k.load(s, k.val(s, fr, a), x.Type())
			}
		}
	case *ssa.Phi:
		if x.Block() != nil {
			if t, ok := fr.env[x]; ok && t.op != "sym" {
				return t
			}
		}
	}
	return nil
}
