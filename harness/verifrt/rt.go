// Package verifrt: primitives of the symbolic harnesses. Under the solver-based engine the primitives are intrinsics;
// natively they read a recorded counterexample, in call order.
package verifrt

import (
	"math/big"
	"reflect"
	"strconv"
)

type Input struct {
	Name  string `json:"name"`
	Value string `json:"value"`
}

type failure struct{ Label string }
type assumeFail struct{}
type divergence struct{ Msg string }

var (
	replay   []Input
	pos      int
	thorough bool
	Covered  []string
)

// Replay runs f on recorded inputs and tells what happened.
func Replay(in []Input, th bool, f func()) (res string) {
	replay, pos, thorough, Covered = in, 0, th, nil
	defer func() {
		switch r := recover().(type) {
		case nil:
		case failure:
			res = "fail:" + r.Label
		case assumeFail:
			res = "assume"
		case divergence:
			res = "diverged:" + r.Msg
		default:
			res = "panic:" + toStr(r)
		}
	}()
	f()
	return "ok"
}

func toStr(r interface{}) string {
	if e, ok := r.(error); ok {
		return e.Error()
	}
	if s, ok := r.(string); ok {
		return s
	}
	return "?"
}

// IsControl tells the panics of this package from those of the code under test.
func IsControl(r interface{}) bool {
	switch r.(type) {
	case failure, assumeFail, divergence:
		return true
	}
	return false
}

func next(name string) string {
	if pos >= len(replay) {
		panic(divergence{"no more inputs at " + name})
	}
	in := replay[pos]
	pos++
	if in.Name != name {
		panic(divergence{"input " + in.Name + " read as " + name})
	}
	return in.Value
}

func Symbolic() bool { return false }
func Thorough() bool { return thorough }

// Int64 is an arbitrary value in [lo, hi].
func Int64(name string, lo, hi int64) int64 {
	v, err := strconv.ParseInt(next(name), 10, 64)
	if err != nil {
		panic(divergence{err.Error()})
	}
	return v
}

func Uint64(name string, lo, hi uint64) uint64 {
	v, err := strconv.ParseUint(next(name), 10, 64)
	if err != nil {
		panic(divergence{err.Error()})
	}
	return v
}

// BigInt is an arbitrary integer in [lo, hi] (decimal strings).
func BigInt(name, lo, hi string) *big.Int {
	v, ok := new(big.Int).SetString(next(name), 10)
	if !ok {
		panic(divergence{"big int"})
	}
	return v
}

func Bool(name string) bool { return next(name) == "1" }

// Choose is an arbitrary index below n; the engine explores every one separately.
func Choose(name string, n int) int {
	v, err := strconv.Atoi(next(name))
	if err != nil {
		panic(divergence{err.Error()})
	}
	return v
}

func Bytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		v, _ := strconv.Atoi(next(name))
		r[i] = byte(v)
	}
	return r
}

// String is an arbitrary ASCII string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Conc2 is an arbitrary value in [lo, hi], explored separately for each value.
func Conc2(name string, lo, hi int64) int64 { return Conc(Int64(name, lo, hi)) }

// Conc splits the exploration on the value of x.
func Conc(x int64) int64 { return x }

// Fork splits the exploration on a condition.
func Fork(c bool) bool { return c }

func Assume(c bool) {
	if !c {
		panic(assumeFail{})
	}
}

func Assert(c bool, label string) {
	if !c {
		panic(failure{label})
	}
}

func Cover(label string) { Covered = append(Covered, label) }
func Bound(k, v string)  {}
func MapOrder(on bool)   {}
func Decimals(on bool)   {}

// Trace prints its arguments when the engine is verbose.
func Trace(xs ...interface{}) {}

// And and Or do not short-circuit, so that no path is forked.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Ite(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// Eq: structural equality; nil and empty slices are the same, big integers compare by value.
func Eq(a, b interface{}) bool { return deq(reflect.ValueOf(a), reflect.ValueOf(b)) }

func deq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.CanInterface() {
		if m, ok := a.Type().MethodByName("Equal"); ok && a.Type().String() == "time.Time" {
			return m.Func.Call([]reflect.Value{a, b})[0].Bool()
		}
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type().Elem() == reflect.TypeOf(big.Int{}) {
			// the fields of big.Int are (neg, abs); abs is normalised
			x, y := a.Elem(), b.Elem()
			if x.Field(0).Bool() != y.Field(0).Bool() || x.Field(1).Len() != y.Field(1).Len() {
				return false
			}
			for i := 0; i < x.Field(1).Len(); i++ {
				if x.Field(1).Index(i).Uint() != y.Field(1).Index(i).Uint() {
					return false
				}
			}
			return true
		}
		return deq(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deq(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deq(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	}
	return false
}

func SymMarshal(v interface{}) []byte                    { panic("symbolic only") }
func SymUnmarshal(b []byte, ptr interface{}, merge bool) { panic("symbolic only") }
func SymUnmarshalJSON(b []byte, ptr interface{})         { panic("symbolic only") }
func SymMarshalIface(v interface{}) []byte               { panic("symbolic only") }
func SymUnmarshalIface(b []byte, ptr interface{})        { panic("symbolic only") }
func IsBlob(b []byte) bool                               { panic("symbolic only") }
func IsProtoZero(b []byte) bool                          { panic("symbolic only") }
