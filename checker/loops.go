package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loopBlocks returns the natural loop headed by h (empty: h heads no loop).
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return m
	}
	m[h] = true
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if m[b] {
			continue
		}
		m[b] = true
		work = append(work, b.Preds...)
	}
	return m
}

type fieldRef struct {
	n *types.TypeName
	i int
}

func fieldRefOf(v ssa.Value) (fieldRef, bool) {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return fieldRef{}, false
	}
	n := namedOf(fa.X.Type())
	if n == nil {
		return fieldRef{}, false
	}
	return fieldRef{n.Obj(), fa.Field}, true
}

// directFieldStores lists the fields f stores to, its closures included.
func (w *World) fieldStores(f *ssa.Function) map[fieldRef]bool {
	if w.fstores == nil {
		w.fstores = map[*ssa.Function]map[fieldRef]bool{}
		for _, g := range w.allFns {
			m := map[fieldRef]bool{}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if r, ok := fieldRefOf(st.Addr); ok {
							m[r] = true
						}
					}
				}
			}
			w.fstores[g] = m
		}
		for changed := true; changed; {
			changed = false
			for _, g := range w.allFns {
				m := w.fstores[g]
				add := func(h *ssa.Function) {
					for r := range w.fstores[h] {
						if !m[r] {
							m[r] = true
							changed = true
						}
					}
				}
				for _, a := range g.AnonFuncs {
					add(a)
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok {
							for _, h := range w.callees(c) {
								add(h)
							}
						}
					}
				}
			}
		}
	}
	return w.fstores[f]
}

// loopStoresField: an instruction of the loop may store to field r.
func (w *World) loopStoresField(loop map[*ssa.BasicBlock]bool, r fieldRef) bool {
	for b := range loop {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if q, ok := fieldRefOf(in.Addr); ok && q == r {
					return true
				}
			case ssa.CallInstruction:
				for _, h := range w.callees(in) {
					if w.fieldStores(h)[r] {
						return true
					}
				}
			}
		}
	}
	return false
}

// sliceGrowsIn: the slice a loop runs over is reloaded in the loop from a
// field the loop also stores to.
func (w *World) listChangesIn(h *ssa.BasicBlock, list ssa.Value) bool {
	u, ok := list.(*ssa.UnOp)
	if !ok {
		return false
	}
	r, ok := fieldRefOf(u.X)
	if !ok {
		return false
	}
	loop := loopBlocks(h)
	if loop[u.Block()] {
		return w.loopStoresField(loop, r)
	}
	// the length is fixed; elements reloaded through the field may move
	for b := range loop {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok {
				if v, ok := ia.X.(*ssa.UnOp); ok && v != u {
					if q, ok := fieldRefOf(v.X); ok && q == r && w.loopStoresField(loop, r) {
						return true
					}
				}
			}
		}
	}
	return false
}
