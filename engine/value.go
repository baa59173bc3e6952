package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// symStr: a string of known length with symbolic bytes, or (opaque != "") a string whose content is not modelled.
type symStr struct {
	b      []*Term
	opaque string
}

// blob: a []byte that is the (opaque) serialisation of v.
type blob struct {
	t types.Type
	v value
}

type opaqueFloat struct {
	name string
	t    *Term
}

type mapEntry struct {
	k, v    value
	deleted bool
}

type hashmap struct {
	kt      types.Type
	entries []*mapEntry
	idx     map[string]*mapEntry
	symKeys bool
	n       int
}

type rangeIter struct {
	next func() tuple
}

type targetPanic struct{ v value } // a Go panic of the program under test

type unsupportedErr struct{ msg string }

func unsupported(format string, a ...interface{}) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(format, a...)}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type special int

const (
	notSpecial special = iota
	specBigInt
	specTime
)

func (w *Worker) specialOf(t types.Type) special {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return w.specialOf(types.Unalias(a))
		}
		return notSpecial
	}
	if s, ok := w.specCache[n]; ok {
		return s
	}
	s := notSpecial
	o := n.Obj()
	if o.Pkg() != nil {
		switch {
		case o.Name() == "Int" && o.Pkg().Path() == "math/big":
			s = specBigInt
		case o.Name() == "Time" && o.Pkg().Path() == "time":
			s = specTime
		}
	}
	w.specCache[n] = s
	return s
}

var zeroTimeNs = new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))

func (w *Worker) zero(t types.Type) value {
	switch w.specialOf(t) {
	case specBigInt:
		return w.ts.Int(0)
	case specTime:
		return w.zeroTime
	}
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return w.ts.F
		case t.Info()&types.IsInteger != 0:
			return w.ts.Int(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		n := t.Len()
		if n > 1<<20 {
			panic(unsupported("huge array"))
		}
		a := make(array, n)
		for i := range a {
			a[i] = w.zero(t.Elem())
		}
		return a
	case *types.Named:
		return w.zero(t.Underlying())
	case *types.Alias:
		return w.zero(types.Unalias(t))
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*chanVal)(nil)
	case *types.Map:
		return (*hashmap)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported("type parameter"))
	}
	panic(unsupported("zero of %v", t))
}

type chanVal struct{ q []value }

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// store writes v into *p keeping the addresses of aggregate elements stable, with an undo record.
func (w *Worker) store(p *value, v value) {
	switch v := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(v) {
			for i := range v {
				w.store(&old[i], v[i])
			}
			return
		}
		w.setSlot(p, copyVal(v))
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(v) {
			for i := range v {
				w.store(&old[i], v[i])
			}
			return
		}
		w.setSlot(p, copyVal(v))
	default:
		w.setSlot(p, v)
	}
}

type undoRec struct {
	p   *value
	old value
	f   func()
}

func (w *Worker) setSlot(p *value, v value) {
	if w.logging {
		w.undo = append(w.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (w *Worker) undoF(f func()) {
	if w.logging {
		w.undo = append(w.undo, undoRec{f: f})
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		r := w.undo[i]
		if r.f != nil {
			r.f()
		} else {
			*r.p = r.old
		}
		w.undo[i] = undoRec{}
	}
	w.undo = w.undo[:0]
}

// ---------- equality and hashing

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *closure:
		return f == nil
	case *ssa.Builtin:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (w *Worker) strBytes(v value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = w.ts.Int(int64(s[i]))
		}
		return out
	case *symStr:
		if s.opaque != "" {
			panic(unsupported("content of an opaque string (%s)", s.opaque))
		}
		return s.b
	}
	panic(unsupported("strBytes %T", v))
}

func (w *Worker) mkStr(b []*Term) value {
	for _, x := range b {
		if !x.isConst() {
			return &symStr{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.i64)
	}
	return string(bs)
}

func (w *Worker) eqStr(x, y value) *Term {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return w.ts.Bool(a == b)
		}
	}
	if sx, ok := x.(*symStr); ok && sx.opaque != "" {
		if sy, ok := y.(*symStr); ok && sy.opaque == sx.opaque {
			return w.ts.T
		}
		if sy, ok := y.(string); ok && sy == "" && !strings.HasPrefix(sx.opaque, "coins") {
			return w.ts.F // opaque strings are renderings of numbers/errors: never empty
		}
	}
	if sy, ok := y.(*symStr); ok && sy.opaque != "" {
		if sx, ok := x.(string); ok && sx == "" && !strings.HasPrefix(sy.opaque, "coins") {
			return w.ts.F
		}
	}
	a, b := w.strBytes(x), w.strBytes(y)
	if len(a) != len(b) {
		return w.ts.F
	}
	return w.bytesEq(a, b)
}

func (w *Worker) equals(t types.Type, x, y value) *Term {
	switch w.specialOf(t) {
	case specBigInt, specTime:
		return w.ts.Eq(x.(*Term), y.(*Term))
	}
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		switch a := x.(type) {
		case *Term:
			return w.ts.Eq(a, y.(*Term))
		case string, *symStr:
			return w.eqStr(x, y)
		case float64:
			if b, ok := y.(float64); ok {
				return w.ts.Bool(a == b)
			}
		case complex128:
			return w.ts.Bool(a == y.(complex128))
		case *value:
			return w.ts.Bool(a == y.(*value))
		}
		panic(unsupported("equality of %T at %v", x, t))
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		var c []*Term
		for i := range a {
			if ut.Field(i).Name() == "_" {
				continue
			}
			c = append(c, w.equals(ut.Field(i).Type(), a[i], b[i]))
		}
		return w.ts.And(c...)
	case *types.Array:
		a, b := x.(array), y.(array)
		var c []*Term
		for i := range a {
			c = append(c, w.equals(ut.Elem(), a[i], b[i]))
		}
		return w.ts.And(c...)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return w.ts.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return w.ts.F
		}
		if !types.Comparable(a.t) {
			w.panicRuntime("comparing uncomparable type " + a.t.String())
		}
		return w.equals(a.t, a.v, b.v)
	case *types.Pointer:
		a, _ := x.(*value)
		b, _ := y.(*value)
		return w.ts.Bool(a == b)
	case *types.Chan:
		return w.ts.Bool(x == y)
	case *types.Slice, *types.Map, *types.Signature: // only against nil
		return w.ts.Bool(isNilVal(x) && isNilVal(y))
	}
	panic(unsupported("equality at %v", t))
}

func isNilVal(x value) bool {
	switch x := x.(type) {
	case nil:
		return true
	case []value:
		return x == nil
	case *blob:
		return x == nil
	case *hashmap:
		return x == nil
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	case *chanVal:
		return x == nil
	}
	return isNilFunc(x)
}

func (w *Worker) keyString(v value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.op == OIntConst {
			return v.k.String(), true
		}
		if v.op == OBoolConst {
			return fmt.Sprint(v.b), true
		}
		return "", false
	case string:
		return v, true
	case *symStr:
		if v.opaque != "" {
			return "\x00opaque" + v.opaque, true
		}
		return "", false
	case float64:
		return fmt.Sprint(v), true
	case *value:
		return fmt.Sprintf("%p", v), true
	case iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := w.keyString(v.v)
		return v.t.String() + ":" + s, ok
	case structure:
		return w.keyStrings(v)
	case array:
		return w.keyStrings(v)
	}
	panic(unsupported("map key %T", v))
}

func (w *Worker) keyStrings(vs []value) (string, bool) {
	var sb strings.Builder
	all := true
	for _, x := range vs {
		s, ok := w.keyString(x)
		if !ok {
			all = false
		}
		fmt.Fprintf(&sb, "%d:%s;", len(s), s)
	}
	return sb.String(), all
}

func (w *Worker) mapFind(m *hashmap, k value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, ok := w.keyString(k)
	if ok {
		if e := m.idx[ks]; e != nil {
			return e
		}
		if !m.symKeys {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if _, econc := w.keyString(e.k); ok && econc {
			continue
		}
		if w.branch(w.equals(m.kt, k, e.k)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *hashmap, k, v value) {
	if m == nil {
		w.panicPlain("assignment to entry in nil map")
	}
	if e := w.mapFind(m, k); e != nil {
		w.setSlot(&e.v, copyVal(v))
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	ks, ok := w.keyString(k)
	oldEntries, oldSym, oldN := m.entries, m.symKeys, m.n
	m.entries = append(m.entries[:len(m.entries):len(m.entries)], e)
	m.n++
	if ok {
		m.idx[ks] = e
	} else {
		m.symKeys = true
	}
	w.undoF(func() {
		m.entries, m.symKeys, m.n = oldEntries, oldSym, oldN
		if ok {
			delete(m.idx, ks)
		}
	})
}

func (w *Worker) mapDelete(m *hashmap, k value) {
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	old, oldN := m.entries, m.n
	ks, ok := w.keyString(e.k)
	var out []*mapEntry
	for _, x := range m.entries {
		if x != e {
			out = append(out, x)
		}
	}
	m.entries = out
	m.n--
	e.deleted = true
	if ok {
		delete(m.idx, ks)
	}
	w.undoF(func() {
		m.entries, m.n = old, oldN
		e.deleted = false
		if ok {
			m.idx[ks] = e
		}
	})
}

// ---------- debugging

func (w *Worker) show(v value) string {
	switch v := v.(type) {
	case *Term:
		switch v.op {
		case OIntConst:
			return v.k.String()
		case OBoolConst:
			return fmt.Sprint(v.b)
		}
		return fmt.Sprintf("<t%d>", v.id)
	case string:
		return v
	case *symStr:
		if v.opaque != "" {
			return "<" + v.opaque + ">"
		}
		return "<symbolic string>"
	case iface:
		if v.t == nil {
			return "nil"
		}
		return w.show(v.v)
	case *value:
		if v == nil {
			return "nil"
		}
		return "&" + w.show(*v)
	case structure:
		var s []string
		for _, x := range v {
			s = append(s, w.show(x))
		}
		return "{" + strings.Join(s, " ") + "}"
	case []value:
		var s []string
		for _, x := range v {
			s = append(s, w.show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case array:
		return w.show([]value(v))
	}
	return fmt.Sprintf("%T", v)
}
