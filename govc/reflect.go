package main

import "go/token"

type VRType struct{}
type VRValue struct{ valid *Term }

func (x *Exec) rtypeCall(st *State, r *VRType, m string, args []Value) []Outcome {
	panic(unsupported("reflect.Type." + m))
}
func registerReflect() {
	// reflect.ValueOf(v).IsValid() is v != nil
	models["reflect.ValueOf"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		i := a[0].(*VIface)
		return ret(st, &VRValue{valid: Not(i.nilT)})
	}
	models["(reflect.Value).IsValid"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{a[0].(*VRValue).valid})
	}
}
