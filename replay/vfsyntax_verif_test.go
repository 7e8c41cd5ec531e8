package mint

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/bifurcation/mint/syntax"
)

// The presentation language, written again from RFC 8446 section 3: an encoder and a decoder by recursion on the type.

type vfsInner struct {
	A uint8
	B []uint16 `tls:"head=1"`
}
type vfsOpt struct {
	X uint16
	Y uint8
}
type vfsU8 struct{ V uint8 }
type vfsU16 struct{ V uint16 }
type vfsU32 struct{ V uint32 }
type vfsU64 struct{ V uint64 }
type vfsVar8 struct {
	V uint8 `tls:"varint"`
	T uint8
}
type vfsVar16 struct {
	V uint16 `tls:"varint"`
	T uint8
}
type vfsVar32 struct {
	V uint32 `tls:"varint"`
	T uint8
}
type vfsVar64 struct {
	V uint64 `tls:"varint"`
	T uint8
}
type vfsArr struct {
	V [5]uint16
	W [2][3]uint8
}
type vfsH1 struct {
	V []uint8 `tls:"head=1"`
	T uint8
}
type vfsH1b struct {
	V []uint8 `tls:"head=1,min=2,max=7"`
	T uint8
}
type vfsH2 struct {
	V []uint8 `tls:"head=2"`
}
type vfsH2b struct {
	V []uint16 `tls:"head=2,min=4,max=254"`
	T uint16
}
type vfsH3 struct {
	V []vfsInner `tls:"head=3"`
	T uint8
}
type vfsH4 struct {
	V []uint32 `tls:"head=4,max=40"`
}
type vfsH5 struct {
	V []uint8 `tls:"head=5,max=12"`
}
type vfsH8 struct {
	V []uint8 `tls:"head=8,max=12"`
}
type vfsHv struct {
	V []uint8 `tls:"head=varint"`
	T uint8
}
type vfsHvb struct {
	V []uint16 `tls:"head=varint,min=2,max=140"`
	T uint8
}
type vfsNone struct {
	A uint16
	V []uint16 `tls:"head=none"`
}
type vfsNoneb struct {
	V []uint8 `tls:"head=none,min=3,max=9"`
}
type vfsNest struct {
	A uint8
	I vfsInner
	L []vfsInner `tls:"head=2,min=2"`
	B uint32
}
type vfsPtr struct {
	P *vfsOpt `tls:"optional"`
	T uint8
	Q *uint16 `tls:"optional"`
}
type vfsPtrReq struct {
	P *vfsOpt
	T uint8
}
type vfsOmit struct {
	A uint8
	O string `tls:"omit"`
	B uint16
}
type vfsMap struct {
	M map[uint16]uint8 `tls:"head=2"`
	T uint8
}
type vfsMapB struct {
	M map[uint8]vfsOpt `tls:"head=1,min=4,max=20"`
}

var vfsTypes = []interface{}{vfsU8{}, vfsU16{}, vfsU32{}, vfsU64{}, vfsVar8{}, vfsVar16{}, vfsVar32{}, vfsVar64{}, vfsArr{}, vfsH1{}, vfsH1b{}, vfsH2{}, vfsH2b{},
	vfsH3{}, vfsH4{}, vfsH5{}, vfsH8{}, vfsHv{}, vfsHvb{}, vfsNone{}, vfsNoneb{}, vfsNest{}, vfsPtr{}, vfsPtrReq{}, vfsOmit{}, vfsMap{}, vfsMapB{}, vfsInner{}}

type vfsTag struct {
	head           string
	min, max       int
	varint, opt, o bool
}

func vfsParse(t reflect.StructTag) (r vfsTag) {
	for _, p := range strings.Split(t.Get("tls"), ",") {
		kv := strings.SplitN(p, "=", 2)
		switch kv[0] {
		case "head":
			r.head = kv[1]
		case "min":
			r.min, _ = strconv.Atoi(kv[1])
		case "max":
			r.max, _ = strconv.Atoi(kv[1])
		case "varint":
			r.varint = true
		case "optional":
			r.opt = true
		case "omit":
			r.o = true
		}
	}
	return
}
func vfsBE(u uint64, n int) []byte {
	b := new(big.Int).SetUint64(u).Bytes()
	return append(make([]byte, n-len(b)), b...)
}
func vfsVarint(u uint64) ([]byte, bool) {
	switch {
	case u <= 63:
		return []byte{byte(u)}, true
	case u <= 16383:
		b := vfsBE(u, 2)
		b[0] |= 0x40
		return b, true
	case u <= 1073741823:
		b := vfsBE(u, 4)
		b[0] |= 0x80
		return b, true
	case u <= 4611686018427387903:
		b := vfsBE(u, 8)
		b[0] |= 0xc0
		return b, true
	}
	return nil, false
}
func vfsVec(body []byte, t vfsTag) ([]byte, bool) {
	if len(body) < t.min || t.max > 0 && len(body) > t.max {
		return nil, false
	}
	switch t.head {
	case "none":
		return body, true
	case "varint":
		h, ok := vfsVarint(uint64(len(body)))
		return append(h, body...), ok
	}
	n, _ := strconv.Atoi(t.head)
	if new(big.Int).SetUint64(uint64(len(body))).BitLen() > 8*n {
		return nil, false
	}
	return append(vfsBE(uint64(len(body)), n), body...), true
}

// vfsEnc: the encoding, or false when the value has none
func vfsEnc(v reflect.Value, t vfsTag) ([]byte, bool) {
	var out []byte
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if t.varint {
			return vfsVarint(v.Uint())
		}
		return vfsBE(v.Uint(), int(v.Type().Size())), true
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			b, ok := vfsEnc(v.Index(i), vfsTag{})
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		if v.Kind() == reflect.Array {
			return out, true
		}
		return vfsVec(out, t)
	case reflect.Map:
		var ks []string
		m := map[string][]byte{}
		for _, k := range v.MapKeys() {
			kb, ok1 := vfsEnc(k, vfsTag{})
			vb, ok2 := vfsEnc(v.MapIndex(k), vfsTag{})
			if !ok1 || !ok2 {
				return nil, false
			}
			ks = append(ks, string(kb))
			m[string(kb)] = vb
		}
		sort.Strings(ks)
		for _, k := range ks {
			out = append(append(out, k...), m[k]...)
		}
		return vfsVec(out, t)
	case reflect.Ptr:
		if v.IsNil() {
			return []byte{0}, t.opt
		}
		b, ok := vfsEnc(v.Elem(), vfsTag{})
		if t.opt {
			b = append([]byte{1}, b...)
		}
		return b, ok
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ft := vfsParse(v.Type().Field(i).Tag)
			if ft.o {
				continue
			}
			b, ok := vfsEnc(v.Field(i), ft)
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		}
		return out, true
	}
	panic("kind")
}

// vfsDec: what is left of d, or false when d is malformed
func vfsDec(d []byte, v reflect.Value, t vfsTag) ([]byte, bool) {
	num := func(n int) (*big.Int, bool) {
		if len(d) < n {
			return nil, false
		}
		u := new(big.Int).SetBytes(d[:n])
		d = d[n:]
		return u, true
	}
	varint := func() (u *big.Int, n int, ok bool) {
		if len(d) == 0 {
			return nil, 0, false
		}
		n = []int{1, 2, 4, 8}[d[0]>>6]
		if u, ok = num(n); !ok {
			return nil, 0, false
		}
		for b := 8*n - 2; b < 8*n; b++ {
			u.SetBit(u, b, 0)
		}
		return u, n, true
	}
	vec := func() (body []byte, ok bool) {
		var l *big.Int
		switch t.head {
		case "none":
			l = big.NewInt(int64(len(d)))
		case "varint":
			if l, _, ok = varint(); !ok {
				return nil, false
			}
		default:
			n, _ := strconv.Atoi(t.head)
			if l, ok = num(n); !ok {
				return nil, false
			}
		}
		if l.Cmp(big.NewInt(int64(len(d)))) > 0 || l.Cmp(big.NewInt(int64(t.min))) < 0 || t.max > 0 && l.Cmp(big.NewInt(int64(t.max))) > 0 {
			return nil, false
		}
		body, d = d[:l.Int64()], d[l.Int64():]
		return body, true
	}
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		size := int(v.Type().Size())
		if t.varint {
			u, n, ok := varint()
			if !ok || n > size {
				return nil, false
			}
			v.SetUint(u.Uint64())
			return d, true
		}
		u, ok := num(size)
		if !ok {
			return nil, false
		}
		v.SetUint(u.Uint64())
		return d, true
	case reflect.Array:
		ok := true
		for i := 0; i < v.Len(); i++ {
			if d, ok = vfsDec(d, v.Index(i), vfsTag{}); !ok {
				return nil, false
			}
		}
		return d, true
	case reflect.Slice:
		body, ok := vec()
		if !ok {
			return nil, false
		}
		v.Set(reflect.MakeSlice(v.Type(), 0, 0))
		for len(body) > 0 {
			e := reflect.New(v.Type().Elem()).Elem()
			if body, ok = vfsDec(body, e, vfsTag{}); !ok {
				return nil, false
			}
			v.Set(reflect.Append(v, e))
		}
		return d, true
	case reflect.Map:
		body, ok := vec()
		if !ok {
			return nil, false
		}
		v.Set(reflect.MakeMap(v.Type()))
		for len(body) > 0 {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			if body, ok = vfsDec(body, k, vfsTag{}); !ok {
				return nil, false
			}
			if body, ok = vfsDec(body, e, vfsTag{}); !ok {
				return nil, false
			}
			v.SetMapIndex(k, e)
		}
		return d, true
	case reflect.Ptr:
		if t.opt {
			if len(d) == 0 || d[0] > 1 {
				return nil, false
			}
			f := d[0]
			d = d[1:]
			if f == 0 {
				v.Set(reflect.Zero(v.Type()))
				return d, true
			}
		}
		v.Set(reflect.New(v.Type().Elem()))
		return vfsDec(d, v.Elem(), vfsTag{})
	case reflect.Struct:
		ok := true
		for i := 0; i < v.NumField(); i++ {
			ft := vfsParse(v.Type().Field(i).Tag)
			if ft.o {
				continue
			}
			if d, ok = vfsDec(d, v.Field(i), ft); !ok {
				return nil, false
			}
		}
		return d, true
	}
	panic("kind")
}

// vfsRand fills v with a random value; vector lengths lie around the declared bounds
func vfsRand(r *vfRun, v reflect.Value, t vfsTag) {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u := r.rng.Uint64() >> uint(r.rng.Intn(64))
		if t.varint && r.rng.Intn(2) == 0 {
			u = []uint64{0, 63, 64, 16383, 16384, 1<<30 - 1, 1 << 30, 1<<62 - 1, 1 << 62, 1<<64 - 1}[r.rng.Intn(10)]
		}
		v.SetUint(u & (1<<(8*uint(v.Type().Size())) - 1))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			vfsRand(r, v.Index(i), vfsTag{})
		}
	case reflect.Slice:
		n := r.rng.Intn(4)
		if v.Type().Elem().Kind() != reflect.Struct {
			n = r.rng.Intn(12)
			c := []int{0, t.min, t.min - 1, t.max, t.max + 1, 63, 64, 255, 256}
			if t.head == "2" && r.rng.Intn(40) == 0 {
				c = []int{65534, 65535, 65536}
			}
			if t.head == "varint" && r.rng.Intn(20) == 0 {
				c = []int{16383, 16384}
			}
			if r.rng.Intn(2) == 0 {
				n = (c[r.rng.Intn(len(c))] + r.rng.Intn(2)) / int(v.Type().Elem().Size())
			}
		}
		if n < 0 {
			n = 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			vfsRand(r, v.Index(i), vfsTag{})
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := r.rng.Intn(7); i > 0; i-- {
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			vfsRand(r, k, vfsTag{})
			vfsRand(r, e, vfsTag{})
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		if r.rng.Intn(3) > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			vfsRand(r, v.Elem(), vfsTag{})
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if ft := vfsParse(v.Type().Field(i).Tag); !ft.o {
				vfsRand(r, v.Field(i), ft)
			}
		}
	}
}
func vfsHex(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x… (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func TestVfC05(t *testing.T) {
	r := vfStart(t, "27 structure types (every integer width, varints, vectors with each header form and bounds, arrays, maps, nested and optional fields); 6000 values with lengths at the declared bounds, every truncation of short encodings and 20000 corrupted encodings (20 times as many in the thorough tier), against an encoder and a decoder written separately")
	check := func(typ reflect.Type, d []byte, class string) {
		r.run(typ.Name()+" decode "+class, func() {
			want := reflect.New(typ)
			rest, wok := vfsDec(d, want.Elem(), vfsTag{})
			got := reflect.New(typ)
			in := append([]byte{}, d...)
			read, err := syntax.Unmarshal(in, got.Interface())
			if (err == nil) != wok {
				r.viol("decode-accept", "%s from %s: error %v, expected accepted=%v", typ.Name(), vfsHex(d), err, wok)
				return
			}
			if !bytes.Equal(in, d) {
				r.viol("decode-input", "%s from %s: the input was changed", typ.Name(), vfsHex(d))
			}
			if !wok {
				return
			}
			if read != len(d)-len(rest) {
				r.viol("decode-consumed", "%s from %s: %d bytes consumed, expected %d", typ.Name(), vfsHex(d), read, len(d)-len(rest))
			}
			if !reflect.DeepEqual(want.Interface(), got.Interface()) {
				r.viol("decode-value", "%s from %s: decoded %.200s, expected %.200s", typ.Name(), vfsHex(d), fmt.Sprintf("%+v", got.Elem()), fmt.Sprintf("%+v", want.Elem()))
			}
		})
	}
	for i := 0; i < r.n(6000) && !r.over(); i++ {
		typ := reflect.TypeOf(vfsTypes[i%len(vfsTypes)])
		v := reflect.New(typ)
		vfsRand(r, v.Elem(), vfsTag{})
		want, wok := vfsEnc(v.Elem(), vfsTag{})
		r.run(typ.Name()+" encode", func() {
			got, err := syntax.Marshal(v.Elem().Interface())
			if (err == nil) != wok {
				r.viol("encode-accept", "%s %.200s: error %v, expected accepted=%v", typ.Name(), fmt.Sprintf("%+v", v.Elem()), err, wok)
			} else if wok && !bytes.Equal(got, want) {
				r.viol("encode-bytes", "%s %.200s: encoded %s, expected %s", typ.Name(), fmt.Sprintf("%+v", v.Elem()), vfsHex(got), vfsHex(want))
			}
		})
		if !wok || len(want) > 1000 && i > 400 {
			continue
		}
		check(typ, want, "whole")
		tail := make([]byte, r.rng.Intn(9))
		r.rng.Read(tail)
		check(typ, append(append([]byte{}, want...), tail...), "with a tail")
		if len(want) < 60 {
			for k := 0; k < len(want); k++ {
				check(typ, want[:k], "truncated")
			}
		}
		for k := 0; k < 3 && len(want) > 0; k++ {
			d := append(append([]byte{}, want...), tail...)
			for m := r.rng.Intn(3); m >= 0; m-- {
				p := r.rng.Intn(len(d))
				if len(d) > 9 && r.rng.Intn(2) == 0 {
					p = r.rng.Intn(9)
				}
				d[p] = []byte{0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xff, byte(r.rng.Intn(256))}[r.rng.Intn(10)]
			}
			check(typ, d, "corrupted")
		}
	}
	// the handshake layer's own integers
	for i := 0; i < r.n(2000) && !r.over(); i++ {
		r.run("encodeUint/decodeUint", func() {
			n := r.rng.Intn(9)
			u := r.rng.Uint64() >> uint(r.rng.Intn(64))
			if n < 8 {
				u &= 1<<(8*uint(n)) - 1
			}
			buf := make([]byte, n+r.rng.Intn(4))
			r.rng.Read(buf)
			tail := append([]byte{}, buf[n:]...)
			rest := encodeUint(u, n, buf)
			if want := append(vfsBE(u, 8)[8-n:], tail...); !bytes.Equal(buf, want) || !bytes.Equal(rest, tail) {
				r.viol("encodeUint", "%d in %d bytes: %x then %x, expected %x then %x", u, n, buf, rest, want, tail)
			}
			got, rest := decodeUint(buf, n)
			if got != u || !bytes.Equal(rest, tail) {
				r.viol("decodeUint", "%x: %d then %x, expected %d then %x", buf, got, rest, u, tail)
			}
		})
	}
	r.done()
}
