package main

// Heap mode (opt heap=T; U): every field of the pointed-to structs of type T is one array over references, so that
// writes through one reference are seen through every other that may be equal to it.

import (
	"go/types"
)

var heapTypes = map[string]*Obj{}

type HeapField struct {
	typ    types.Type
	base   symBase
	writes []heapWrite
}
type heapWrite struct {
	key *Term
	val Value
}

// heapObj: the array of all structs of a type in heap mode, nil otherwise
func heapObj(t types.Type) *Obj {
	n := typeName(t)
	o, ok := heapTypes[n]
	if !ok {
		return nil
	}
	us, isS := t.Underlying().(*types.Struct)
	if !isS {
		return nil
	}
	if o == nil {
		o = newObj("HEAP."+n, t)
		o.init = func() Value {
			v := &VStruct{typ: t}
			for i := 0; i < us.NumFields(); i++ {
				v.f = append(v.f, &HeapField{typ: us.Field(i).Type(), base: symBase{"H." + n + "." + us.Field(i).Name(), nil}})
			}
			return v
		}
		heapTypes[n] = o
	}
	return o
}

func (h *HeapField) get(st *State, t *Term) Value {
	v := symValue(h.typ, h.base.name, append(append([]*Term{}, h.base.args...), t))
	for _, w := range h.writes {
		switch st.light(Eq(w.key, t)) {
		case 1:
			v = w.val
		case -1:
		default:
			v = thaw(Ite(Eq(w.key, t), freeze(st, w.val, h.typ), freeze(st, v, h.typ)), h.typ)
		}
	}
	return v
}

func (s *State) heapRead(o *Obj) Value {
	h := s.read(o.heap).(*VStruct)
	v := &VStruct{typ: h.typ}
	for _, f := range h.f {
		v.f = append(v.f, f.(*HeapField).get(s, o.ref))
	}
	return v
}

func (s *State) heapStore(o *Obj, path []PE, nv Value) {
	cur := s.heapRead(o).(*VStruct)
	upd := s.update(cur, path, nv).(*VStruct)
	h := s.read(o.heap).(*VStruct)
	n := &VStruct{typ: h.typ, f: append([]Value{}, h.f...)}
	for i := range h.f {
		if len(path) > 0 && path[0].f != i {
			continue
		}
		f := h.f[i].(*HeapField)
		g := &HeapField{typ: f.typ, base: f.base}
		for _, w := range f.writes {
			if w.key != o.ref {
				g.writes = append(g.writes, w)
			}
		}
		g.writes = append(g.writes, heapWrite{o.ref, upd.get(i)})
		n.f[i] = g
	}
	s.heap[o.heap] = n
}
