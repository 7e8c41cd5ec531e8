package mint

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
)

// vfBody is an extension body under the test's control.
type vfBody struct {
	typ    ExtensionType
	out    []byte
	outErr bool
	got    []byte
	calls  int
	leave  int // bytes it does not consume
	inErr  bool
}

func (b *vfBody) Type() ExtensionType { return b.typ }
func (b *vfBody) Marshal() ([]byte, error) {
	if b.outErr {
		return nil, errors.New("cannot encode")
	}
	return b.out, nil
}
func (b *vfBody) Unmarshal(data []byte) (int, error) {
	b.calls++
	if b.inErr {
		return 0, errors.New("cannot decode")
	}
	b.got = append([]byte{}, data...)
	if b.leave > len(data) {
		return 0, nil
	}
	return len(data) - b.leave, nil
}

func vfExtList(v *vfRun, n, types int) ExtensionList {
	l := ExtensionList{}
	for i := 0; i < n; i++ {
		d := make([]byte, v.rng.Intn(6))
		v.rng.Read(d)
		l = append(l, Extension{ExtensionType: ExtensionType(v.rng.Intn(types) * 257), ExtensionData: d})
	}
	return l
}
func vfExtCopy(l ExtensionList) ExtensionList {
	var out ExtensionList
	for _, e := range l {
		out = append(out, Extension{e.ExtensionType, append([]byte{}, e.ExtensionData...)})
	}
	return out
}
func vfExtStr(l ExtensionList) string {
	s := ""
	for _, e := range l {
		s += fmt.Sprintf("%d:%x ", e.ExtensionType, e.ExtensionData)
	}
	return "[" + s + "]"
}
func vfExtSame(a, b ExtensionList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ExtensionType != b[i].ExtensionType || !bytes.Equal(a[i].ExtensionData, b[i].ExtensionData) {
			return false
		}
	}
	return true
}

func TestVfC07(t *testing.T) {
	v := vfStart(t, "lists of up to 12 entries over up to 8 types with repeated types, arbitrary bodies that fail, under-read or succeed, against a list model")
	for i := 0; i < v.n(6000) && !v.over(); i++ {
		n := v.rng.Intn(13)
		types := 1 + v.rng.Intn(8)
		l := vfExtList(v, n, types)
		orig := vfExtCopy(l)
		typ := ExtensionType(v.rng.Intn(types+1) * 257)
		first := -1
		cnt := 0
		for k := range l {
			if l[k].ExtensionType == typ {
				if first < 0 {
					first = k
				}
				cnt++
			}
		}
		if cnt > 2 {
			cnt = 2
		}
		switch v.rng.Intn(3) {
		case 0: // Add
			b := &vfBody{typ: typ, out: make([]byte, v.rng.Intn(9)), outErr: v.rng.Intn(6) == 0}
			v.rng.Read(b.out)
			v.run(fmt.Sprintf("add n=%d has=%d fails=%v", n, cnt, b.outErr), func() {
				err := l.Add(b)
				want := vfExtCopy(orig)
				if !b.outErr {
					if first >= 0 {
						want[first].ExtensionData = b.out
					} else {
						want = append(want, Extension{typ, b.out})
					}
				}
				if (err != nil) != b.outErr {
					v.viol("add-error", "Add of type %d to %s: error %v though encoding fails=%v", typ, vfExtStr(orig), err, b.outErr)
				}
				if !vfExtSame(l, want) {
					v.viol("add", "Add of type %d data %x (encoding fails=%v) to %s gives %s, want %s", typ, b.out, b.outErr, vfExtStr(orig), vfExtStr(l), vfExtStr(want))
				}
			})
		case 1: // Find
			b := &vfBody{typ: typ, inErr: v.rng.Intn(6) == 0, leave: v.rng.Intn(4) / 3}
			v.run(fmt.Sprintf("find n=%d has=%d fails=%v leaves=%d", n, cnt, b.inErr, b.leave), func() {
				found, err := l.Find(b)
				if found != (first >= 0) {
					v.viol("find", "Find of type %d in %s: found=%v", typ, vfExtStr(orig), found)
					return
				}
				bad := first >= 0 && (b.inErr || b.leave > 0 && len(orig[first].ExtensionData) > 0)
				if (err != nil) != bad {
					v.viol("find-error", "Find of type %d in %s (decoding fails=%v, leaves %d bytes): error %v", typ, vfExtStr(orig), b.inErr, b.leave, err)
				}
				if first >= 0 && !b.inErr && !bytes.Equal(b.got, orig[first].ExtensionData) {
					v.viol("find-data", "Find of type %d in %s decoded %x", typ, vfExtStr(orig), b.got)
				}
				if !vfExtSame(l, orig) {
					v.viol("find-changes", "Find of type %d changed %s to %s", typ, vfExtStr(orig), vfExtStr(l))
				}
			})
		default: // Parse
			var bodies []*vfBody
			var dsts []ExtensionBody
			perm := v.rng.Perm(types + 1)
			m := v.rng.Intn(types + 2)
			if m > len(perm) {
				m = len(perm)
			}
			for _, k := range perm[:m] {
				b := &vfBody{typ: ExtensionType(k * 257), inErr: v.rng.Intn(20) == 0, leave: v.rng.Intn(20) / 19}
				bodies = append(bodies, b)
				dsts = append(dsts, b)
			}
			counts := map[ExtensionType]int{}
			data := map[ExtensionType][]byte{}
			for _, e := range orig {
				counts[e.ExtensionType]++
				data[e.ExtensionType] = e.ExtensionData
			}
			bad, dup := false, false
			want := map[ExtensionType]bool{}
			for _, b := range bodies {
				if c := counts[b.typ]; c > 0 {
					want[b.typ] = true
					bad = bad || b.inErr || b.leave > 0 && len(data[b.typ]) > 0
					dup = dup || c > 1
				}
			}
			v.run(fmt.Sprintf("parse n=%d asked=%d dup=%v bad=%v", n, m, dup, bad), func() {
				found, err := l.Parse(dsts)
				if (err != nil) != (bad || dup) {
					v.viol("parse-error", "Parse of %d types in %s: error %v (duplicate=%v, undecodable=%v)", m, vfExtStr(orig), err, dup, bad)
					return
				}
				if err != nil {
					return
				}
				for ty := ExtensionType(0); ty < 3000; ty++ {
					if found[ty] != want[ty] {
						v.viol("parse-found", "Parse of %d types in %s: found[%d]=%v", m, vfExtStr(orig), ty, found[ty])
						return
					}
				}
				for _, b := range bodies {
					if want[b.typ] && !bytes.Equal(b.got, data[b.typ]) || !want[b.typ] && b.calls != 0 {
						v.viol("parse-data", "Parse in %s: body of type %d got %x after %d calls", vfExtStr(orig), b.typ, b.got, b.calls)
					}
				}
				if !vfExtSame(l, orig) {
					v.viol("parse-changes", "Parse changed %s to %s", vfExtStr(orig), vfExtStr(l))
				}
			})
		}
	}
}
