package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	sdkbech32 "verif/engine/bech"
)

const rt = modPath + "/verifrt"

// modelTable: functions replaced by Go models living in the harness package verifrt (interpreted like any other code).
var modelTable = map[string]string{
	"M_KVStore":            "(github.com/cosmos/cosmos-sdk/types.Context).KVStore",
	"M_StrToByte":          "github.com/cosmos/cosmos-sdk/store/cachekv.strToByte",
	"M_ByteSliceToStr":     "github.com/cosmos/cosmos-sdk/store/cachekv.byteSliceToStr",
	"M_TransientStore":     "(github.com/cosmos/cosmos-sdk/types.Context).TransientStore",
	"M_ErrorsIs":           "errors.Is",
	"M_Errorf":             "fmt.Errorf",
	"M_WithValue":          "context.WithValue",
	"M_ProtoMarshal":       "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MarshalBinaryBare | (*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MarshalBinaryLengthPrefixed",
	"M_ProtoMustMarshal":   "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustMarshalBinaryBare | (*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustMarshalBinaryLengthPrefixed",
	"M_ProtoUnmarshal":     "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).UnmarshalBinaryBare | (*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).UnmarshalBinaryLengthPrefixed",
	"M_ProtoMustUnmarshal": "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustUnmarshalBinaryBare | (*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustUnmarshalBinaryLengthPrefixed",
	"M_ProtoPkgMarshal":    "github.com/golang/protobuf/proto.Marshal | github.com/gogo/protobuf/proto.Marshal",
	"M_ProtoPkgUnmarshal":  "github.com/golang/protobuf/proto.Unmarshal | github.com/gogo/protobuf/proto.Unmarshal",
	"M_JSONMarshal":        "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MarshalJSON",
	"M_JSONMustMarshal":    "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustMarshalJSON",
	"M_JSONUnmarshal":      "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).UnmarshalJSON",
	"M_JSONMustUnmarshal":  "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MustUnmarshalJSON",
	"M_MarshalInterface":   "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).MarshalInterface",
	"M_UnmarshalInterface": "(*github.com/cosmos/cosmos-sdk/codec.ProtoCodec).UnmarshalInterface",
	"M_Bech32ifyPubKey":    "github.com/cosmos/cosmos-sdk/types.Bech32ifyPubKey",
	"M_PubKeyFromBytes":    "github.com/cosmos/cosmos-sdk/codec/legacy.PubKeyFromBytes",
	"M_AminoMarshal":       "(*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).MarshalJSON | (*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).MarshalBinaryBare",
	"M_AminoUnmarshal":     "(*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).UnmarshalJSON | (*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).UnmarshalBinaryBare",
}

var stubFuncs = map[string]bool{
	"(github.com/cosmos/cosmos-sdk/x/params/types.Subspace).checkType":        true,
	"(*github.com/cosmos/cosmos-sdk/types/module.Manager).RegisterRoutes":     true,
	"(*github.com/cosmos/cosmos-sdk/types/module.Manager).RegisterServices":   true,
	"github.com/cosmos/cosmos-sdk/types/module.NewConfigurator":               true,
	"(*github.com/cosmos/cosmos-sdk/types/module.Manager).RegisterInvariants": true,
	"github.com/cosmos/cosmos-sdk/x/auth/ante.NewAnteHandler":                 true,
	"(*" + modPath + "/app.ArteryApp).RegisterInterfaces":                     true,
	"github.com/cosmos/cosmos-sdk/x/params/keeper.ConsensusParamsKeyTable":    true,
	"github.com/cosmos/cosmos-sdk/x/params/types.NewKeyTable":                 true,
	"(github.com/cosmos/cosmos-sdk/x/params/types.KeyTable).RegisterParamSet": true,
	"(github.com/cosmos/cosmos-sdk/x/params/types.KeyTable).RegisterType":     true,
	"(github.com/cosmos/cosmos-sdk/x/params/types.Subspace).HasKeyTable":      true,
	"github.com/pkg/errors.callers":                                           true,
	modPath + "/util.TagTx":                                                   true,
	modPath + "/util.EmitEvent":                                               true,
	modPath + "/util.EmitEvents":                                              true,
	"(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitTypedEvent":       true,
	"(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitTypedEvents":      true,
	"(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitEvent":            true,
	"(*github.com/cosmos/cosmos-sdk/types.EventManager).EmitEvents":           true,
	"(*sync.Mutex).Lock":                     true,
	"(*sync.Mutex).Unlock":                   true,
	"(*sync.RWMutex).Lock":                   true,
	"(*sync.RWMutex).Unlock":                 true,
	"(*sync.RWMutex).RLock":                  true,
	"(*sync.RWMutex).RUnlock":                true,
	"runtime/debug.PrintStack":               true,
	"(*strings.Builder).copyCheck":           true,
	modPath + "/app.initDefaultGenesisUsers": true,
	"os.ExpandEnv":                           true,
	"(*os.File).Write":                       true,
	"fmt.Println":                            true,
	"fmt.Printf":                             true,
	"fmt.Fprintf":                            true,
	"fmt.Fprintln":                           true,
}

var stubPkgs = []string{
	"github.com/cosmos/cosmos-sdk/telemetry",
	"github.com/cosmos/cosmos-sdk/baseapp",
	"github.com/armon/go-metrics/...",
	"github.com/tendermint/tendermint/libs/log",
	"github.com/gogo/protobuf/proto",
	"github.com/golang/protobuf/proto",
	"google.golang.org/...",
	"github.com/tendermint/go-amino/...",
	"github.com/grpc-ecosystem/...",
	"github.com/spf13/...",
	"github.com/gorilla/...",
}

var stubPrefixes = []string{
	"github.com/cosmos/cosmos-sdk/x/auth/tx.",
	"(*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).Register",
	"(*github.com/cosmos/cosmos-sdk/codec.LegacyAmino).Seal",
	"(*github.com/cosmos/cosmos-sdk/codec/types.interfaceRegistry).Register",
	"github.com/cosmos/cosmos-sdk/types/msgservice.",
	"github.com/cosmos/cosmos-sdk/crypto/codec.Register",
}

var initPkgs = []string{
	"io", "unicode", "unicode/utf8", "strings", "bytes", "sort", "strconv", "context", "encoding/binary", "encoding/hex", "encoding/base64",
	"github.com/pkg/errors",
	"github.com/cosmos/cosmos-sdk/types",
	"github.com/cosmos/cosmos-sdk/types/errors",
	"github.com/cosmos/cosmos-sdk/types/module",
	"github.com/cosmos/cosmos-sdk/types/address",
	"github.com/cosmos/cosmos-sdk/types/query",
	"github.com/cosmos/cosmos-sdk/types/kv",
	"github.com/cosmos/cosmos-sdk/store/types",
	"github.com/cosmos/cosmos-sdk/store/prefix",
	"github.com/cosmos/cosmos-sdk/codec",
	"github.com/cosmos/cosmos-sdk/codec/types",
	"github.com/cosmos/cosmos-sdk/x/auth",
	"github.com/cosmos/cosmos-sdk/x/auth/types",
	"github.com/cosmos/cosmos-sdk/x/auth/keeper",
	"github.com/cosmos/cosmos-sdk/x/gov/types",
	"github.com/cosmos/cosmos-sdk/x/params/...",
	"github.com/cosmos/cosmos-sdk/x/params",
	"github.com/cosmos/cosmos-sdk/x/upgrade/...",
	"github.com/cosmos/cosmos-sdk/x/upgrade",
	"github.com/cosmos/cosmos-sdk/crypto/types",
	"github.com/cosmos/cosmos-sdk/baseapp",
	"github.com/tendermint/tendermint/abci/types",
	"github.com/tendermint/tendermint/crypto",
	"github.com/tendermint/tendermint/crypto/tmhash",
	"github.com/tendermint/tendermint/proto/tendermint/types",
}

var intrinsics map[string]intrinsic

func tm(v value) *Term { return v.(*Term) }

// bi: the Term held by a *big.Int.
func (w *Worker) bi(v value) *Term {
	p, _ := v.(*value)
	if p == nil {
		w.panicRuntime("invalid memory address or nil pointer dereference")
	}
	return (*p).(*Term)
}

func (w *Worker) setBi(v value, t *Term) value {
	p, _ := v.(*value)
	if p == nil {
		w.panicRuntime("invalid memory address or nil pointer dereference")
	}
	w.setSlot(p, t)
	return p
}

func newPtr(v value) *value {
	p := new(value)
	*p = v
	return p
}

func (w *Worker) goStr(v value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func (w *Worker) opaqueStr(kind string) value {
	k := w.varN["\x00opaque"]
	w.varN["\x00opaque"] = k + 1
	return &symStr{opaque: fmt.Sprintf("%s%d", kind, k)}
}

func (w *Worker) mkErr(msg string) value {
	p := w.eng.prog.ImportedPackage("errors")
	if p == nil {
		panic(unsupported("errors package missing"))
	}
	return w.call(nil, p.Func("New"), []value{msg}, nil)
}

func bigBin(f func(w *Worker, a, b *Term) *Term) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		return w.setBi(a[0], f(w, w.bi(a[1]), w.bi(a[2])))
	}
}

func bigDivZero(w *Worker, b *Term) {
	if w.branch(w.ts.Eq(b, w.ts.Int(0))) {
		w.panicRuntime("division by zero")
	}
}

// divE: Euclidean division as in big.Int.Div; SMT-LIB div has the same meaning.
func (w *Worker) gcdTerm(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return w.ts.Big(new(big.Int).GCD(nil, nil, new(big.Int).Abs(a.k), new(big.Int).Abs(b.k)))
	}
	if r := w.ts.gcdRat(a, b, w.gcdTerm); r != nil {
		return r
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.k.Sign() == 0 {
			return w.absTerm(b)
		}
		if _, ok := factors(new(big.Int).Abs(a.k)); ok {
			return w.ts.Gcd(a.k, b)
		}
	}
	// one side has a small range: split on its value
	x, y := a, b
	if small(y) && !small(x) {
		x, y = y, x
	}
	if small(x) && !x.isConst() {
		v := w.concInt(x)
		if v == 0 {
			return w.absTerm(y)
		}
		return w.gcdTerm(w.ts.Int(v), y)
	}
	panic(unsupported("gcd of two unbounded symbolic integers"))
}

func small(t *Term) bool {
	return t.lo != nil && t.hi != nil && new(big.Int).Sub(t.hi, t.lo).Cmp(big.NewInt(130)) <= 0
}

func (w *Worker) absTerm(t *Term) *Term {
	return w.ts.Ite(w.ts.Le(w.ts.Int(0), t), t, w.ts.Neg(t))
}

func (w *Worker) cmpTerm(a, b *Term) *Term {
	return w.ts.Ite(w.ts.Lt(a, b), w.ts.Int(-1), w.ts.Ite(w.ts.Eq(a, b), w.ts.Int(0), w.ts.Int(1)))
}

func (w *Worker) decString(t *Term) value {
	if t.isConst() {
		return t.k.String()
	}
	if w.decimals {
		return w.decDigits(t)
	}
	return w.opaqueStr("dec")
}

// beKey: the eight bytes of an integer stored in big-endian order.
type beKey [8]*Term

// beBlock: the 8-byte integer of either sequence that covers position i.
func (w *Worker) beBlock(a, b []*Term, i int) (int, int, bool) {
	for s := i; s >= 0 && s > i-8; s-- {
		if s+8 > len(a) || s+8 > len(b) {
			continue
		}
		if _, ok := w.beOrigin[beKey(a[s:s+8])]; ok {
			return s, s + 8, true
		}
		if _, ok := w.beOrigin[beKey(b[s:s+8])]; ok {
			return s, s + 8, true
		}
	}
	return 0, 0, false
}

// recombine: the big-endian integer spelled by a byte sequence, simplified when the bytes come from one term.
func (w *Worker) recombine(b []*Term) *Term {
	ts := w.ts
	if len(b) == 8 {
		if x, ok := w.beOrigin[beKey(b)]; ok {
			return x
		}
	}
	// pattern: b[i] == (x div 256^(n-1-i)) mod 256 (the first one possibly without mod)
	if len(b) >= 2 {
		var x *Term
		last := b[len(b)-1]
		if last.op == OMod && last.args[1].isConst() && last.args[1].k.Cmp(big.NewInt(256)) == 0 {
			x = last.args[0]
		}
		if x != nil {
			ok := true
			for i := range b {
				k := uint(8 * (len(b) - 1 - i))
				q := ts.Div(x, ts.Big(new(big.Int).Lsh(bigOne, k)))
				if b[i] != ts.Mod(q, ts.Int(256)) {
					ok = false
					break
				}
			}
			if ok {
				return ts.Mod(x, ts.Big(new(big.Int).Lsh(bigOne, uint(8*len(b)))))
			}
		}
	}
	r := ts.Int(0)
	for _, c := range b {
		r = ts.Add(ts.Scale(r, big.NewInt(256)), c)
	}
	return r
}

func (w *Worker) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return w.ts.F
	}
	// concrete mismatch decides at once
	for i := range a {
		if a[i].isConst() && b[i].isConst() && a[i] != b[i] {
			return w.ts.F
		}
	}
	var cs []*Term
	for i := 0; i < len(a); {
		if a[i] == b[i] {
			i++
			continue
		}
		j := i
		for j < len(a) && j-i < 8 && a[j] != b[j] {
			j++
		}
		// whole runs are compared as integers
		if i+8 <= len(a) && (!a[i].isConst() || !b[i].isConst()) {
			j = i + 8
		}
		if s, e, ok := w.beBlock(a, b, i); ok {
			i, j = s, e
		}
		cs = append(cs, w.ts.Eq(w.recombine(a[i:j]), w.recombine(b[i:j])))
		i = j
	}
	return w.ts.And(cs...)
}

func (w *Worker) bytesLt(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	if i == n {
		return w.ts.Bool(len(a) < len(b))
	}
	if a[i].isConst() && b[i].isConst() && a[i].i64 != b[i].i64 {
		return w.ts.Bool(a[i].i64 < b[i].i64)
	}
	j := i + 8
	if j > n {
		j = n
	}
	// lexicographic order of equally long blocks is integer order
	if s, e, ok := w.beBlock(a, b, i); ok {
		i, j = s, e
	}
	x, y := w.recombine(a[i:j]), w.recombine(b[i:j])
	return w.ts.Or(w.ts.Lt(x, y), w.ts.And(w.ts.Eq(x, y), w.bytesLt(a[j:], b[j:])))
}

func (w *Worker) toNative(fr *frame, v value) (interface{}, bool) {
	i, ok := v.(iface)
	if !ok {
		return nil, false
	}
	if i.t == nil {
		return nil, true
	}
	for _, m := range []string{"Error", "String"} {
		if _, isB := i.t.(*types.Basic); isB {
			break
		}
		f := w.eng.lookupMethod(i.t, nil, m)
		if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		if p, isP := i.v.(*value); isP && p == nil {
			return "<nil>", true
		}
		if w.noStringers {
			return nil, false
		}
		s, ok := w.tryString(fr, f, i.v)
		if !ok {
			return nil, false
		}
		return s, ok
	}
	switch x := i.v.(type) {
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		if x.isBool {
			return x.b, true
		}
		if b, ok := i.t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return uint8(x.i64), true
			case types.Int32:
				return int32(x.i64), true
			case types.Uint64:
				return x.k.Uint64(), true
			}
		}
		if x.small {
			return x.i64, true
		}
		return x.k, true
	case string:
		return x, true
	case float64:
		return x, true
	case []value:
		if sl, ok := i.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				bs, ok := w.concBytes(x)
				return bs, ok
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				var r []string
				for _, e := range x {
					s, ok := e.(string)
					if !ok {
						return nil, false
					}
					r = append(r, s)
				}
				return r, true
			}
		}
	case *blob:
		return nil, false
	}
	return nil, false
}

// tryString runs a String/Error method; a method the engine cannot execute makes the rendering opaque.
func (w *Worker) tryString(fr *frame, f *ssa.Function, recv value) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupportedErr); is {
				s, ok = "", false
				return
			}
			if _, is := r.(targetPanic); is {
				s, ok = "", false
				return
			}
			panic(r)
		}
	}()
	v := w.call(fr, f, []value{recv}, nil)
	s, ok = v.(string)
	return
}

func (w *Worker) sprintf(fr *frame, format string, args value) value {
	var na []interface{}
	xs, _ := args.([]value)
	for _, a := range xs {
		n, ok := w.toNative(fr, a)
		if !ok {
			return w.opaqueStr("fmt")
		}
		na = append(na, n)
	}
	return fmt.Sprintf(format, na...)
}

func strFn1(f func(string) string) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if s, ok := a[0].(string); ok {
			return f(s)
		}
		if isOpaque(a[0]) {
			return w.opaqueStr("str")
		}
		return fallthroughT{}
	}
}

// asciiBytes: the bytes of a partly symbolic string, if all of them are known to be ASCII.
func (w *Worker) asciiBytes(v value) ([]*Term, bool) {
	s, ok := v.(*symStr)
	if !ok || s.opaque != "" {
		return nil, false
	}
	for _, c := range s.b {
		if c.isConst() && c.k.Cmp(big.NewInt(127)) > 0 || !c.isConst() && (c.hi == nil || c.hi.Cmp(big.NewInt(127)) > 0) {
			return nil, false
		}
	}
	return s.b, true
}

func strCase(f func(string) string, lower bool) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		b, ok := w.asciiBytes(a[0])
		if !ok {
			return strFn1(f)(w, fr, fn, a)
		}
		from, to, d := int64('a'), int64('z'), int64(-32)
		if lower {
			from, to, d = 'A', 'Z', 32
		}
		out := make([]*Term, len(b))
		for i, c := range b {
			in := w.ts.And(w.ts.Le(w.ts.Int(from), c), w.ts.Le(c, w.ts.Int(to)))
			out[i] = w.ts.Add(c, w.ts.Ite(in, w.ts.Int(d), w.ts.Int(0)))
		}
		return w.mkStr(out)
	}
}

func strFn2b(f func(a, b string) bool) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		s, ok := a[0].(string)
		t, ok2 := a[1].(string)
		if ok && ok2 {
			return w.ts.Bool(f(s, t))
		}
		return fallthroughT{}
	}
}

func (w *Worker) bcall(f func() value) value { return f() }

var nsPerSec = big.NewInt(1000000000)

func (w *Worker) timeConst(t time.Time) *Term {
	s := new(big.Int).Mul(big.NewInt(t.Unix()), nsPerSec)
	return w.ts.Big(s.Add(s, big.NewInt(int64(t.Nanosecond()))))
}

func (w *Worker) goTime(t *Term) (time.Time, bool) {
	if !t.isConst() {
		return time.Time{}, false
	}
	q, r := new(big.Int).DivMod(t.k, nsPerSec, new(big.Int))
	return time.Unix(q.Int64(), r.Int64()).UTC(), true
}

func timeCmp(f func(w *Worker, a, b *Term) *Term) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return f(w, tm(a[0]), tm(a[1])) }
}

func timeId(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return a[0] }

// yearTerm: the year of a symbolic time, as a chain over the starts of the years within its bounds.
func yearTerm(w *Worker, t *Term) *Term {
	y0, y1 := int64(1), int64(9999)
	if t.lo != nil && t.hi != nil {
		a, _ := w.goTime(w.ts.Big(t.lo))
		b, _ := w.goTime(w.ts.Big(t.hi))
		y0, y1 = int64(a.Year()), int64(b.Year())
	}
	if y1-y0 > 500 {
		panic(unsupported("year of an unbounded symbolic time"))
	}
	r := w.ts.Int(y0)
	for y := y0 + 1; y <= y1; y++ {
		start := time.Date(int(y), 1, 1, 0, 0, 0, 0, time.UTC)
		ns := new(big.Int).Mul(big.NewInt(start.Unix()), nsPerSec)
		r = w.ts.Ite(w.ts.Le(w.ts.Big(ns), t), w.ts.Int(y), r)
	}
	return r
}

func timeField(f func(t time.Time) int64, g func(w *Worker, t *Term) *Term) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		if t, ok := w.goTime(tm(a[0])); ok {
			return w.ts.Int(f(t))
		}
		if g != nil {
			return g(w, tm(a[0]))
		}
		panic(unsupported("calendar field of a symbolic time"))
	}
}

// cloneVal: deep copy, as done by serialising and deserialising. Empty slices come back nil.
func (w *Worker) cloneVal(v value) value {
	switch v := v.(type) {
	case structure:
		n := make(structure, len(v))
		for i, x := range v {
			n[i] = w.cloneVal(x)
		}
		return n
	case array:
		n := make(array, len(v))
		for i, x := range v {
			n[i] = w.cloneVal(x)
		}
		return n
	case []value:
		if len(v) == 0 {
			return []value(nil)
		}
		n := make([]value, len(v))
		for i, x := range v {
			n[i] = w.cloneVal(x)
		}
		return n
	case *value:
		if v == nil {
			return v
		}
		return newPtr(w.cloneVal(*v))
	case iface:
		if v.t == nil {
			return v
		}
		return iface{v.t, w.cloneVal(v.v)}
	case *hashmap:
		if v == nil {
			return v
		}
		n := &hashmap{kt: v.kt, idx: map[string]*mapEntry{}, symKeys: v.symKeys, n: v.n}
		for _, e := range v.entries {
			if e.deleted {
				continue
			}
			ne := &mapEntry{k: w.cloneVal(e.k), v: w.cloneVal(e.v)}
			n.entries = append(n.entries, ne)
			if ks, ok := w.keyString(ne.k); ok {
				n.idx[ks] = ne
			}
		}
		return n
	}
	return v
}

// jsonNorm: an empty list is written as [] and reads back as an empty list, not as none.
func (w *Worker) jsonNorm(t types.Type, v value) value {
	if w.specialOf(t) != notSpecial {
		return v
	}
	switch ut := t.Underlying().(type) {
	case *types.Struct:
		if s, ok := v.(structure); ok {
			if n, ok := t.(*types.Named); ok && customType(n) {
				return v
			}
			for i := range s {
				s[i] = w.jsonNorm(ut.Field(i).Type(), s[i])
			}
		}
	case *types.Slice:
		b, isB := ut.Elem().Underlying().(*types.Basic)
		if isB && b.Kind() == types.Byte {
			return v
		}
		xs, ok := v.([]value)
		if !ok {
			return v
		}
		if len(xs) == 0 {
			return []value{}
		}
		for i := range xs {
			xs[i] = w.jsonNorm(ut.Elem(), xs[i])
		}
	case *types.Pointer:
		if p, ok := v.(*value); ok && p != nil {
			*p = w.jsonNorm(ut.Elem(), *p)
		}
	}
	return v
}

// mergeInto: proto.Unmarshal semantics on an existing message: default scalars are absent from the wire, repeated
// fields are appended, everything else overwritten.
func (w *Worker) mergeInto(p *value, t types.Type, v value) {
	if w.specialOf(t) != notSpecial {
		w.store(p, v)
		return
	}
	switch ut := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(structure)
		old, ok2 := (*p).(structure)
		if !ok || !ok2 {
			w.store(p, v)
			return
		}
		if n, ok := t.(*types.Named); ok && customType(n) {
			w.store(p, v)
			return
		}
		for i := range s {
			w.mergeInto(&old[i], ut.Field(i).Type(), s[i])
		}
	case *types.Slice:
		b, isB := ut.Elem().Underlying().(*types.Basic)
		isBytes := isB && b.Kind() == types.Byte
		if nv, ok := v.([]value); ok && !isBytes {
			ov, _ := (*p).([]value)
			if len(nv) == 0 {
				return
			}
			if len(ov) == 0 {
				w.setSlot(p, nv)
				return
			}
			w.setSlot(p, append(append([]value{}, ov...), nv...))
			return
		}
		if isNilVal(v) {
			return
		}
		w.setSlot(p, v)
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			old, ok := (*p).(*Term)
			if !ok {
				w.setSlot(p, x)
				return
			}
			if old.isBool {
				w.setSlot(p, w.ts.Or(x, w.ts.And(w.ts.Not(x), old)))
				return
			}
			w.setSlot(p, w.ts.Ite(w.ts.Eq(x, w.ts.Int(0)), old, x))
		case string:
			if x != "" {
				w.setSlot(p, x)
			}
		default:
			w.setSlot(p, v)
		}
	case *types.Pointer:
		if isNilVal(v) {
			return
		}
		w.setSlot(p, v)
	case *types.Interface:
		if isNilVal(v) {
			return
		}
		w.setSlot(p, v)
	default:
		w.store(p, v)
	}
}

// customType: types with their own serialisation, replaced as a whole.
func customType(n *types.Named) bool {
	o := n.Obj()
	if o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "github.com/cosmos/cosmos-sdk/types.Int", "github.com/cosmos/cosmos-sdk/types.Dec", modPath + "/util.Fraction":
		return true
	}
	return false
}

func (w *Worker) constStr(v value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported("symbolic label"))
	}
	return s
}

func (w *Worker) inputVar(name string, lo, hi *big.Int) *Term {
	t := w.freshVar(name, lo, hi)
	w.addInput(name, t)
	return t
}

func init() {
	bb := func(b bool) intrinsic {
		return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.ts.Bool(b) }
	}
	intrinsics = map[string]intrinsic{
		// ---- harness primitives
		rt + ".Symbolic": bb(true),
		rt + ".Thorough": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.ts.Bool(w.eng.thorough) },
		rt + ".Int64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.inputVar(w.constStr(a[0]), tm(a[1]).k, tm(a[2]).k)
		},
		rt + ".Uint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.inputVar(w.constStr(a[0]), tm(a[1]).k, tm(a[2]).k)
		},
		rt + ".BigInt": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			lo, _ := new(big.Int).SetString(w.constStr(a[1]), 10)
			hi, _ := new(big.Int).SetString(w.constStr(a[2]), 10)
			return newPtr(w.inputVar(w.constStr(a[0]), lo, hi))
		},
		rt + ".Bool": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			t := w.inputVar(w.constStr(a[0]), bigZero, bigOne)
			return w.ts.Eq(t, w.ts.Int(1))
		},
		rt + ".Choose": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := tm(a[1])
			if !n.isConst() {
				panic(unsupported("symbolic number of alternatives"))
			}
			k := w.choose(w.constStr(a[0]), int(n.i64))
			w.addFixedInput(w.constStr(a[0]), int64(k))
			return w.ts.Int(int64(k))
		},
		rt + ".Conc": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Int(w.concInt(tm(a[0])))
		},
		rt + ".Fork": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Bool(w.branch(tm(a[0])))
		},
		rt + ".Bytes": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := int(tm(a[1]).i64)
			r := make([]value, n)
			for i := range r {
				r[i] = w.inputVar(w.constStr(a[0]), bigZero, big.NewInt(255))
			}
			return r
		},
		rt + ".String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := int(tm(a[1]).i64)
			b := make([]*Term, n)
			for i := range b {
				b[i] = w.inputVar(w.constStr(a[0]), big.NewInt(0), big.NewInt(127))
			}
			return w.mkStr(b)
		},
		rt + ".Assume": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { w.assume(tm(a[0])); return nil },
		rt + ".Assert": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.assert(tm(a[0]), w.constStr(a[1]))
			return nil
		},
		rt + ".Cover": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.h.cover(w.constStr(a[0]))
			return nil
		},
		rt + ".Bound": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.h.bound(w.constStr(a[0]), w.constStr(a[1]))
			return nil
		},
		rt + ".Trace": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if w.eng.verbose {
				xs, _ := a[0].([]value)
				out := "TRACE"
				for _, x := range xs {
					if i, ok := x.(iface); ok && i.t != nil {
						out += " " + w.panicString(targetPanic{v: i})
					} else {
						out += " " + w.show(x)
					}
				}
				fmt.Println(out)
			}
			return nil
		},
		rt + ".MapOrder": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.mapOrderNondet = tm(a[0]).b
			return nil
		},
		rt + ".Decimals": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.decimals = tm(a[0]).b
			return nil
		},
		rt + ".And": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			xs, _ := a[0].([]value)
			r := w.ts.T
			for _, x := range xs {
				r = w.ts.And(r, tm(x))
			}
			return r
		},
		rt + ".Or": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			xs, _ := a[0].([]value)
			r := w.ts.F
			for _, x := range xs {
				r = w.ts.Or(r, tm(x))
			}
			return r
		},
		rt + ".Ite": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Ite(tm(a[0]), tm(a[1]), tm(a[2]))
		},
		rt + ".SymMarshal": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			i := a[0].(iface)
			if i.t == nil {
				return []value(nil)
			}
			v, t := i.v, i.t
			if p, ok := v.(*value); ok {
				if p == nil {
					return []value(nil)
				}
				v, t = *p, deref(t)
			}
			return &blob{t, w.cloneVal(v)}
		},
		rt + ".SymMarshalIface": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			i := a[0].(iface)
			if i.t == nil {
				return []value(nil)
			}
			return &blob{i.t, w.cloneVal(i)}
		},
		rt + ".SymUnmarshalIface": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := a[0].(*blob)
			if !ok || b == nil {
				panic(unsupported("unmarshal of raw bytes"))
			}
			i := a[1].(iface)
			w.store(i.v.(*value), w.cloneVal(b.v))
			return nil
		},
		rt + ".SymUnmarshal": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			i := a[1].(iface)
			p := i.v.(*value)
			b, ok := a[0].(*blob)
			if !ok || b == nil {
				if xs, ok := a[0].([]value); ok && len(xs) == 0 {
					return nil // the empty message
				}
				if b == nil && ok {
					return nil
				}
				panic(unsupported("unmarshal of raw bytes into %v", i.t))
			}
			if !types.Identical(b.t, deref(i.t)) {
				panic(unsupported("unmarshal of %v into %v", b.t, i.t))
			}
			if tm(a[2]).b {
				w.mergeInto(p, b.t, w.cloneVal(b.v))
			} else {
				w.store(p, w.cloneVal(b.v))
			}
			return nil
		},
		"github.com/cosmos/cosmos-sdk/codec/types.NewAnyWithValue": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			t := deref(fn.Signature.Results().At(0).Type())
			v := w.zero(t).(structure)
			st := t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "cachedValue" {
					v[i] = a[0]
				}
			}
			return tuple{newPtr(v), iface{}}
		},
		rt + ".SymUnmarshalJSON": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			i := a[1].(iface)
			b, ok := a[0].(*blob)
			if !ok || b == nil || !types.Identical(b.t, deref(i.t)) {
				panic(unsupported("JSON unmarshal into %v", i.t))
			}
			w.store(i.v.(*value), w.jsonNorm(b.t, w.cloneVal(b.v)))
			return nil
		},
		rt + ".IsBlob": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := a[0].(*blob)
			return w.ts.Bool(ok && b != nil)
		},
		rt + ".IsProtoZero": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := a[0].(*blob)
			if !ok || b == nil {
				xs, _ := a[0].([]value)
				return w.ts.Bool(len(xs) == 0)
			}
			return w.isProtoZero(b.v, b.t)
		},
		rt + ".Eq": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.deepEq(a[0].(iface), a[1].(iface))
		},

		// ---- math/big
		"math/big.NewInt":     func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return newPtr(tm(a[0])) },
		"(*math/big.Int).Add": bigBin(func(w *Worker, a, b *Term) *Term { return w.ts.Add(a, b) }),
		"(*math/big.Int).Sub": bigBin(func(w *Worker, a, b *Term) *Term { return w.ts.Sub(a, b) }),
		"(*math/big.Int).Mul": bigBin(func(w *Worker, a, b *Term) *Term { return w.ts.Mul(a, b) }),
		"(*math/big.Int).Quo": bigBin(func(w *Worker, a, b *Term) *Term { bigDivZero(w, b); return w.ts.QuoT(a, b) }),
		"(*math/big.Int).Rem": bigBin(func(w *Worker, a, b *Term) *Term { bigDivZero(w, b); return w.ts.RemT(a, b) }),
		"(*math/big.Int).Div": bigBin(func(w *Worker, a, b *Term) *Term { bigDivZero(w, b); return w.ts.Div(a, b) }),
		"(*math/big.Int).Mod": bigBin(func(w *Worker, a, b *Term) *Term { bigDivZero(w, b); return w.ts.Mod(a, b) }),
		"(*math/big.Int).QuoRem": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			x, y := w.bi(a[1]), w.bi(a[2])
			bigDivZero(w, y)
			q, r := w.ts.QuoT(x, y), w.ts.RemT(x, y)
			w.setBi(a[0], q)
			w.setBi(a[3], r)
			return tuple{a[0], a[3]}
		},
		"(*math/big.Int).DivMod": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			x, y := w.bi(a[1]), w.bi(a[2])
			bigDivZero(w, y)
			q, r := w.ts.Div(x, y), w.ts.Mod(x, y)
			w.setBi(a[0], q)
			w.setBi(a[3], r)
			return tuple{a[0], a[3]}
		},
		"(*math/big.Int).Neg": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.setBi(a[0], w.ts.Neg(w.bi(a[1])))
		},
		"(*math/big.Int).Abs": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.setBi(a[0], w.absTerm(w.bi(a[1])))
		},
		"(*math/big.Int).Set": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.setBi(a[0], w.bi(a[1]))
		},
		"(*math/big.Int).SetInt64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.setBi(a[0], tm(a[1]))
		},
		"(*math/big.Int).SetUint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.setBi(a[0], tm(a[1]))
		},
		"(*math/big.Int).Int64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.wrap(w.bi(a[0]), 64, true)
		},
		"(*math/big.Int).Uint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.wrap(w.bi(a[0]), 64, false)
		},
		"(*math/big.Int).IsInt64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			lo, hi := intRange(64, true)
			x := w.bi(a[0])
			return w.ts.And(w.ts.Le(w.ts.Big(lo), x), w.ts.Le(x, w.ts.Big(hi)))
		},
		"(*math/big.Int).IsUint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			lo, hi := intRange(64, false)
			x := w.bi(a[0])
			return w.ts.And(w.ts.Le(w.ts.Big(lo), x), w.ts.Le(x, w.ts.Big(hi)))
		},
		"(*math/big.Int).Sign": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.cmpTerm(w.bi(a[0]), w.ts.Int(0))
		},
		"(*math/big.Int).Cmp": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.cmpTerm(w.bi(a[0]), w.bi(a[1]))
		},
		"(*math/big.Int).CmpAbs": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.cmpTerm(w.absTerm(w.bi(a[0])), w.absTerm(w.bi(a[1])))
		},
		"(*math/big.Int).BitLen": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.BitLen(w.bi(a[0]))
		},
		"(*math/big.Int).GCD": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if !isNilVal(a[1]) || !isNilVal(a[2]) {
				panic(unsupported("extended gcd"))
			}
			return w.setBi(a[0], w.gcdTerm(w.bi(a[3]), w.bi(a[4])))
		},
		"(*math/big.Int).Exp": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			x, y := w.bi(a[1]), w.bi(a[2])
			if !x.isConst() || !y.isConst() || !isNilVal(a[3]) {
				panic(unsupported("symbolic exponentiation"))
			}
			return w.setBi(a[0], w.ts.Big(new(big.Int).Exp(x.k, y.k, nil)))
		},
		"(*math/big.Int).String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if isNilVal(a[0]) {
				return "<nil>"
			}
			return w.decString(w.bi(a[0]))
		},
		"(*math/big.Int).MarshalText": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if isNilVal(a[0]) {
				return tuple{w.goBytes([]byte("<nil>")), iface{}}
			}
			v := w.decString(w.bi(a[0]))
			return tuple{w.convert(types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String], v), iface{}}
		},
		"encoding/json.Marshal": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(iface).v.(string); ok {
				return tuple{w.goBytes([]byte(strconv.Quote(s))), iface{}}
			}
			return tuple{&blob{types.Typ[types.String], w.opaqueStr("json")}, iface{}}
		},
		"(*math/big.Int).SetString": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[1].(string)
			if !ok {
				if isOpaque(a[1]) {
					panic(unsupported("parse of an opaque string"))
				}
				return w.symParse(a[0], a[1], tm(a[2]))
			}
			z, ok := new(big.Int).SetString(s, int(tm(a[2]).i64))
			if !ok {
				return tuple{(*value)(nil), w.ts.F}
			}
			w.setBi(a[0], w.ts.Big(z))
			return tuple{a[0], w.ts.T}
		},
		"(github.com/cosmos/cosmos-sdk/types.Coins).String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.opaqueStr("coins")
		},
		"(*math/big.Int).UnmarshalText": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b := w.bytesOf(a[1])
			sv := w.mkStr(b)
			if s, ok := sv.(string); ok {
				z, ok := new(big.Int).SetString(s, 0)
				if !ok {
					return w.mkErr("math/big: cannot unmarshal into a *big.Int")
				}
				w.setBi(a[0], w.ts.Big(z))
				return iface{}
			}
			// base 0: a leading zero announces another base
			d := b
			if len(d) > 0 && (w.branch(w.ts.Eq(d[0], w.ts.Int('-'))) || w.branch(w.ts.Eq(d[0], w.ts.Int('+')))) {
				d = d[1:]
			}
			if len(d) > 1 && w.branch(w.ts.Eq(d[0], w.ts.Int('0'))) {
				v := w.ts.Int(0)
				for _, c := range d[1:] {
					if !w.branch(w.ts.And(w.ts.Le(w.ts.Int('0'), c), w.ts.Le(c, w.ts.Int('9')))) {
						panic(unsupported("number with a base prefix"))
					}
					if !w.branch(w.ts.Le(c, w.ts.Int('7'))) {
						return w.mkErr("math/big: cannot unmarshal into a *big.Int")
					}
					v = w.ts.Add(w.ts.Scale(v, big.NewInt(8)), w.ts.Sub(c, w.ts.Int('0')))
				}
				if len(d) < len(b) && w.branch(w.ts.Eq(b[0], w.ts.Int('-'))) {
					v = w.ts.Neg(v)
				}
				w.setBi(a[0], v)
				return iface{}
			}
			r := w.symParse(a[0], sv, w.ts.Int(10)).(tuple)
			if r[1].(*Term) == w.ts.F {
				return w.mkErr("math/big: cannot unmarshal into a *big.Int")
			}
			return iface{}
		},
		"(*math/big.Int).Lsh": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := w.concInt(tm(a[2]))
			return w.setBi(a[0], w.ts.Scale(w.bi(a[1]), new(big.Int).Lsh(bigOne, uint(n))))
		},
		"(*math/big.Int).Rsh": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := w.concInt(tm(a[2]))
			return w.setBi(a[0], w.ts.Div(w.bi(a[1]), w.ts.Big(new(big.Int).Lsh(bigOne, uint(n)))))
		},

		// ---- time
		"time.Unix": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Add(w.ts.Scale(tm(a[0]), nsPerSec), tm(a[1]))
		},
		"time.UnixMilli": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Scale(tm(a[0]), big.NewInt(1000000))
		},
		"time.Date": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			var n [7]int
			for i := range n {
				if !tm(a[i]).isConst() {
					panic(unsupported("time.Date with symbolic fields"))
				}
				n[i] = int(tm(a[i]).i64)
			}
			return w.timeConst(time.Date(n[0], time.Month(n[1]), n[2], n[3], n[4], n[5], n[6], time.UTC))
		},
		"time.Now": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Scale(w.ts.Int(1700000000), nsPerSec)
		},
		"(time.Time).UTC":      timeId,
		"(time.Time).Local":    timeId,
		"(time.Time).In":       timeId,
		"(time.Time).Round":    timeRoundTrunc(true),
		"(time.Time).Truncate": timeRoundTrunc(false),
		"(time.Time).Add":      func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.ts.Add(tm(a[0]), tm(a[1])) },
		"(time.Time).Sub": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			d := w.ts.Sub(tm(a[0]), tm(a[1]))
			lo, hi := intRange(64, true)
			if d.lo != nil && d.hi != nil && d.lo.Cmp(lo) >= 0 && d.hi.Cmp(hi) <= 0 {
				return d
			}
			l, h := w.ts.Big(lo), w.ts.Big(hi)
			if w.branch(w.ts.And(w.ts.Le(l, d), w.ts.Le(d, h))) {
				return d
			}
			return w.ts.Ite(w.ts.Lt(d, l), l, w.ts.Ite(w.ts.Lt(h, d), h, d))
		},
		"(time.Time).Before":  timeCmp(func(w *Worker, a, b *Term) *Term { return w.ts.Lt(a, b) }),
		"(time.Time).After":   timeCmp(func(w *Worker, a, b *Term) *Term { return w.ts.Lt(b, a) }),
		"(time.Time).Equal":   timeCmp(func(w *Worker, a, b *Term) *Term { return w.ts.Eq(a, b) }),
		"(time.Time).Compare": timeCmp(func(w *Worker, a, b *Term) *Term { return w.cmpTerm(a, b) }),
		"(time.Time).IsZero": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Eq(tm(a[0]), w.zeroTime)
		},
		"(time.Time).UnixNano": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.wrap(tm(a[0]), 64, true) },
		"(time.Time).Unix": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Div(tm(a[0]), w.ts.Big(nsPerSec))
		},
		"(time.Time).Nanosecond": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Mod(tm(a[0]), w.ts.Big(nsPerSec))
		},
		"(time.Time).Second": timeField(func(t time.Time) int64 { return int64(t.Second()) }, func(w *Worker, t *Term) *Term {
			return w.ts.Mod(w.ts.Div(t, w.ts.Big(nsPerSec)), w.ts.Int(60))
		}),
		"(time.Time).Minute": timeField(func(t time.Time) int64 { return int64(t.Minute()) }, func(w *Worker, t *Term) *Term {
			return w.ts.Mod(w.ts.Div(t, w.ts.Big(new(big.Int).Mul(nsPerSec, big.NewInt(60)))), w.ts.Int(60))
		}),
		"(time.Time).Hour": timeField(func(t time.Time) int64 { return int64(t.Hour()) }, func(w *Worker, t *Term) *Term {
			return w.ts.Mod(w.ts.Div(t, w.ts.Big(new(big.Int).Mul(nsPerSec, big.NewInt(3600)))), w.ts.Int(24))
		}),
		"(time.Time).Year":    timeField(func(t time.Time) int64 { return int64(t.Year()) }, yearTerm),
		"(time.Time).Month":   timeField(func(t time.Time) int64 { return int64(t.Month()) }, nil),
		"(time.Time).Day":     timeField(func(t time.Time) int64 { return int64(t.Day()) }, nil),
		"(time.Time).Weekday": timeField(func(t time.Time) int64 { return int64(t.Weekday()) }, nil),
		"(time.Time).AddDate": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			t, ok := w.goTime(tm(a[0]))
			if !ok || !tm(a[1]).isConst() || !tm(a[2]).isConst() || !tm(a[3]).isConst() {
				if tm(a[1]).isConst() && tm(a[1]).i64 == 0 && tm(a[2]).isConst() && tm(a[2]).i64 == 0 {
					return w.ts.Add(tm(a[0]), w.ts.Scale(tm(a[3]), new(big.Int).Mul(nsPerSec, big.NewInt(86400))))
				}
				panic(unsupported("AddDate on a symbolic time"))
			}
			return w.timeConst(t.AddDate(int(tm(a[1]).i64), int(tm(a[2]).i64), int(tm(a[3]).i64)))
		},
		"(time.Time).Format": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			t, ok := w.goTime(tm(a[0]))
			f, ok2 := a[1].(string)
			if ok && ok2 {
				return t.Format(f)
			}
			return w.opaqueStr("time")
		},
		"(time.Time).String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if t, ok := w.goTime(tm(a[0])); ok {
				return t.String()
			}
			return w.opaqueStr("time")
		},
		"(time.Duration).String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if t := tm(a[0]); t.isConst() {
				return time.Duration(t.i64).String()
			}
			return w.opaqueStr("dur")
		},
		"time.ParseDuration": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			if !ok {
				panic(unsupported("ParseDuration"))
			}
			d, err := time.ParseDuration(s)
			if err != nil {
				return tuple{w.ts.Int(0), w.mkErr(err.Error())}
			}
			return tuple{w.ts.Int(int64(d)), iface{}}
		},
		"time.Parse": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(string)
			s, ok2 := a[1].(string)
			if !ok || !ok2 {
				panic(unsupported("time.Parse"))
			}
			t, err := time.Parse(f, s)
			if err != nil {
				return tuple{w.zeroTime, w.mkErr(err.Error())}
			}
			return tuple{w.timeConst(t), iface{}}
		},
		"time.LoadLocation": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return tuple{(*value)(nil), iface{}} },

		// ---- strings, bytes
		"strings.ToLower":   strCase(strings.ToLower, true),
		"strings.ToUpper":   strCase(strings.ToUpper, false),
		"strings.ToTitle":   strCase(strings.ToTitle, false),
		"strings.TrimSpace": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := w.asciiBytes(a[0])
			if !ok {
				return strFn1(strings.TrimSpace)(w, fr, fn, a)
			}
			space := func(c *Term) bool {
				return w.branch(w.ts.Or(w.ts.Eq(c, w.ts.Int(' ')), w.ts.And(w.ts.Le(w.ts.Int(9), c), w.ts.Le(c, w.ts.Int(13)))))
			}
			for len(b) > 0 && space(b[0]) {
				b = b[1:]
			}
			for len(b) > 0 && space(b[len(b)-1]) {
				b = b[:len(b)-1]
			}
			return w.mkStr(b)
		},
		"strings.ContainsAny": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := w.asciiBytes(a[0])
			cs, ok2 := a[1].(string)
			if !ok || !ok2 {
				return strFn2b(strings.ContainsAny)(w, fr, fn, a)
			}
			var or []*Term
			for _, c := range b {
				for i := 0; i < len(cs); i++ {
					if cs[i] < 128 {
						or = append(or, w.ts.Eq(c, w.ts.Int(int64(cs[i]))))
					}
				}
			}
			return w.ts.Or(or...)
		},
		"strings.Title":     strFn1(strings.Title),
		"strings.HasPrefix": strFn2b(strings.HasPrefix),
		"strings.HasSuffix": strFn2b(strings.HasSuffix),
		"strings.Contains":  strFn2b(strings.Contains),
		"strings.EqualFold": strFn2b(strings.EqualFold),
		"strings.Trim": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			t, ok2 := a[1].(string)
			if ok && ok2 {
				return strings.Trim(s, t)
			}
			return fallthroughT{}
		},
		"strings.Split": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			t, ok2 := a[1].(string)
			if ok && ok2 {
				var r []value
				for _, x := range strings.Split(s, t) {
					r = append(r, x)
				}
				return r
			}
			return fallthroughT{}
		},
		"strings.Join": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			xs, _ := a[0].([]value)
			sep, ok := a[1].(string)
			if !ok {
				return fallthroughT{}
			}
			var ss []string
			for _, x := range xs {
				s, ok := x.(string)
				if !ok {
					if isOpaque(x) {
						return w.opaqueStr("join")
					}
					return fallthroughT{}
				}
				ss = append(ss, s)
			}
			return strings.Join(ss, sep)
		},
		"strings.Index": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			t, ok2 := a[1].(string)
			if ok && ok2 {
				return w.ts.Int(int64(strings.Index(s, t)))
			}
			return fallthroughT{}
		},
		"strings.Repeat": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			if ok && tm(a[1]).isConst() {
				return strings.Repeat(s, int(tm(a[1]).i64))
			}
			return fallthroughT{}
		},
		"strings.Clone": timeId,
		"(*strings.Builder).String": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s := (*(a[0].(*value))).(structure)
			if b, ok := s[1].(*blob); ok && b != nil {
				return w.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), b)
			}
			xs, _ := s[1].([]value)
			return w.mkStr(w.bytesOf(xs))
		},
		"(*strings.Builder).WriteString": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s := (*(a[0].(*value))).(structure)
			if isOpaque(a[1]) || isBlobV(s[1]) {
				w.setSlot(&s[1], &blob{types.Typ[types.String], w.opaqueStr("sb")})
				return tuple{w.ts.Int(1), iface{}}
			}
			xs, _ := s[1].([]value)
			b := w.mkBytes(w.strBytes(a[1]))
			w.setSlot(&s[1], append(xs[:len(xs):len(xs)], b...))
			return tuple{w.ts.Int(int64(len(b))), iface{}}
		},
		"internal/bytealg.IndexByteString": symIndexByte,
		"internal/bytealg.IndexByte":       symIndexByte,
		"internal/bytealg.CountString":     symCount,
		"internal/bytealg.Count":           symCount,
		"internal/bytealg.MakeNoZero": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			n := w.concInt(a[0].(*Term))
			if n < 0 || n > 1<<20 {
				panic(unsupported("MakeNoZero(%d)", n))
			}
			el := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			s := make([]value, n)
			for i := range s {
				s[i] = w.zero(el)
			}
			return s
		},
		"internal/bytealg.Equal":           bytesEqual,
		"internal/bytealg.Compare":         bytesCompare,
		"internal/stringslite.HasPrefix":   strFn2b(strings.HasPrefix),
		"bytes.Equal":                      bytesEqual,
		"bytes.Compare":                    bytesCompare,
		"strings.Compare":                  bytesCompare,
		"bytes.HasPrefix": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
			if len(x) < len(y) {
				return w.ts.F
			}
			return w.bytesEq(x[:len(y)], y)
		},
		"(encoding/binary.bigEndian).PutUint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			xs, ok := a[1].([]value)
			if !ok {
				return fallthroughT{}
			}
			if len(xs) < 8 {
				w.panicRuntime("index out of range")
			}
			v := tm(a[2])
			var key beKey
			for i := 0; i < 8; i++ {
				q := w.ts.Div(v, w.ts.Big(new(big.Int).Lsh(bigOne, uint(8*(7-i)))))
				key[i] = w.ts.Mod(q, w.ts.Int(256))
				w.setSlot(&xs[i], key[i])
			}
			w.beOrigin[key] = v
			return nil
		},
		"(encoding/binary.bigEndian).Uint64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b := w.bytesOf(a[1])
			if len(b) < 8 {
				w.panicRuntime("index out of range")
			}
			return w.recombine(b[:8])
		},
		"unicode/utf8.ValidString": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				return w.ts.Bool(utf8.ValidString(s))
			}
			return fallthroughT{}
		},
		"unicode/utf8.RuneCountInString": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				return w.ts.Int(int64(utf8.RuneCountInString(s)))
			}
			return fallthroughT{}
		},

		// ---- strconv, fmt, errors
		"strconv.Itoa":       func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.decString(tm(a[0])) },
		"strconv.FormatInt":  fmtInt,
		"strconv.FormatUint": fmtInt,
		"strconv.Quote": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if s, ok := a[0].(string); ok {
				return strconv.Quote(s)
			}
			return w.opaqueStr("quote")
		},
		"fmt.Sprintf": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(string)
			if !ok {
				return w.opaqueStr("fmt")
			}
			return w.sprintf(fr, f, a[1])
		},
		"fmt.Sprint": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			var na []interface{}
			xs, _ := a[0].([]value)
			for _, x := range xs {
				n, ok := w.toNative(fr, x)
				if !ok {
					return w.opaqueStr("fmt")
				}
				na = append(na, n)
			}
			return fmt.Sprint(na...)
		},
		"fmt.Sprintln": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.opaqueStr("fmt") },
		"github.com/pkg/errors.Errorf": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(string)
			var msg value
			if !ok {
				msg = w.opaqueStr("fmt")
			} else {
				msg = w.sprintf(fr, f, a[1])
			}
			return w.call(fr, w.eng.prog.ImportedPackage("errors").Func("New"), []value{msg}, nil)
		},

		"github.com/gogo/protobuf/proto.Clone": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.cloneVal(a[0]) },

		// ---- sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"sort.Strings": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			xs, _ := a[0].([]value)
			for i := 1; i < len(xs); i++ {
				for j := i; j > 0 && w.branch(w.strOp(tokLSS, xs[j], xs[j-1]).(*Term)); j-- {
					x, y := xs[j], xs[j-1]
					w.setSlot(&xs[j], y)
					w.setSlot(&xs[j-1], x)
				}
			}
			return nil
		},

		// ---- reflect (the few uses in the params subspace and sdk errors)
		"reflect.ValueOf": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return structure{(*value)(nil), a[0], w.ts.Int(1)}
		},
		"reflect.Indirect": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.reflIndirect(a[0], false) },
		"(reflect.Value).Elem": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.reflIndirect(a[0], true)
		},
		"(reflect.Value).Interface": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.cloneShallow(a[0].(structure)[1])
		},
		"(reflect.Value).IsNil": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return w.ts.Bool(isNilVal(a[0].(structure)[1].(iface).v))
		},
		"(reflect.Value).Kind": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			i, ok := a[0].(structure)[1].(iface)
			if !ok || i.t == nil {
				return w.ts.Int(0)
			}
			switch i.t.Underlying().(type) {
			case *types.Pointer:
				return w.ts.Int(22)
			case *types.Struct:
				return w.ts.Int(25)
			case *types.Slice:
				return w.ts.Int(23)
			case *types.Map:
				return w.ts.Int(21)
			case *types.Interface:
				return w.ts.Int(20)
			}
			return w.ts.Int(2)
		},
		"(github.com/cosmos/cosmos-sdk/x/params/types.Subspace).WithKeyTable": timeId,

		// ---- addresses
		"github.com/cosmos/cosmos-sdk/types/bech32.ConvertAndEncode": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			hrp, ok := a[0].(string)
			b, ok2 := w.concBytes(a[1])
			if !ok || !ok2 {
				return tuple{w.opaqueStr("bech32"), iface{}}
			}
			s, err := sdkbech32.ConvertAndEncode(hrp, b)
			if err != nil {
				return tuple{"", w.mkErr(err.Error())}
			}
			return tuple{s, iface{}}
		},
		"github.com/cosmos/cosmos-sdk/types/bech32.DecodeAndConvert": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			s, ok := a[0].(string)
			if !ok {
				panic(unsupported("bech32 decoding of a symbolic string"))
			}
			hrp, b, err := sdkbech32.DecodeAndConvert(s)
			if err != nil {
				return tuple{"", []value(nil), w.mkErr(err.Error())}
			}
			return tuple{hrp, w.goBytes(b), iface{}}
		},
		"github.com/tendermint/tendermint/crypto/tmhash.SumTruncated": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := w.concBytes(a[0])
			if !ok {
				panic(unsupported("hash of symbolic bytes"))
			}
			return w.goBytes(sumTruncated(b))
		},
		"github.com/tendermint/tendermint/crypto.AddressHash": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := w.concBytes(a[0])
			if !ok {
				panic(unsupported("hash of symbolic bytes"))
			}
			return w.goBytes(sumTruncated(b))
		},
		"encoding/hex.EncodeToString": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			b, ok := w.concBytes(a[0])
			if !ok {
				return w.opaqueStr("hex")
			}
			return fmt.Sprintf("%x", b)
		},
		"regexp.MustCompile": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			return newPtr(regexV{a[0].(string)})
		},
		"(*regexp.Regexp).MatchString":        func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.regexMatch(a[0], a[1]) },
		"(*regexp.Regexp).FindStringSubmatch": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.regexSubmatch(a[0], a[1]) },
		"regexp.Match": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p, ok := a[0].(string)
			b, ok2 := w.concBytes(a[1])
			if !ok || !ok2 {
				panic(unsupported("regexp.Match"))
			}
			m := regexV{p}.get().Match(b)
			return tuple{w.ts.Bool(m), iface{}}
		},

		// ---- math
		"math/bits.Len64": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			if t := tm(a[0]); t.isConst() {
				return w.ts.Int(int64(bits.Len64(t.k.Uint64())))
			}
			return w.ts.BitLen(tm(a[0]))
		},
		"math.Log": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			switch x := a[0].(type) {
			case float64:
				return math.Log(x)
			case opaqueFloat:
				if x.t != nil && x.name == "conv" {
					return opaqueFloat{"log", x.t}
				}
			}
			return opaqueFloat{name: "fn"}
		},
		"math.Floor": floatFn(math.Floor), "math.Ceil": floatFn(math.Ceil), "math.Round": floatFn(math.Round),
		"math.Sqrt": floatFn(math.Sqrt), "math.Trunc": floatFn(math.Trunc), "math.Abs": floatFn(math.Abs),
		"math.IsNaN": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(float64)
			if !ok {
				return w.ts.F
			}
			return w.ts.Bool(math.IsNaN(f))
		},
		"math.Float64bits": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			f, ok := a[0].(float64)
			if !ok {
				panic(unsupported("Float64bits"))
			}
			return w.ts.Big(new(big.Int).SetUint64(math.Float64bits(f)))
		},

		// ---- sync
		"(*sync.Once).Do": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			s := (*p).(structure)
			k := fmt.Sprintf("%p", p)
			_ = s
			if w.onces[k] {
				return nil
			}
			w.onces[k] = true
			if w.logging {
				w.undoF(func() { delete(w.onces, k) })
			}
			w.callValue(fr, a[1], nil)
			return nil
		},
		"runtime.Callers":     func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return w.ts.Int(0) },
		"runtime.GC":          func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return nil },
		"runtime/debug.Stack": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return []value(nil) },
		"os.Getenv":           func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return "" },
		"os.UserHomeDir":      func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return tuple{"/nonexistent", iface{}} },
		"path/filepath.Join":  func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return "/nonexistent" },
		"(github.com/cosmos/cosmos-sdk/types.Context).Logger": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p := w.eng.prog.ImportedPackage(rt)
			return w.call(fr, p.Func("NopLogger"), nil, nil)
		},
		"github.com/tendermint/tendermint/libs/log.NewNopLogger": func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p := w.eng.prog.ImportedPackage(rt)
			return w.call(fr, p.Func("NopLogger"), nil, nil)
		},
	}
	// atomics
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		intrinsics["sync/atomic.Load"+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []value) value { return *(a[0].(*value)) }
		intrinsics["sync/atomic.Store"+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			w.setSlot(a[0].(*value), a[1])
			return nil
		}
		intrinsics["sync/atomic.Add"+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			w.setSlot(p, w.ts.Add((*p).(*Term), tm(a[1])))
			return *p
		}
		intrinsics["sync/atomic.CompareAndSwap"+n] = func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
			p := a[0].(*value)
			if w.branch(w.ts.Eq((*p).(*Term), tm(a[1]))) {
				w.setSlot(p, a[2])
				return w.ts.T
			}
			return w.ts.F
		}
	}
}

func isBlobV(v value) bool {
	b, ok := v.(*blob)
	return ok && b != nil
}

func floatFn(f func(float64) float64) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		x, ok := a[0].(float64)
		if !ok {
			return opaqueFloat{name: "fn"}
		}
		return f(x)
	}
}

func timeRoundTrunc(round bool) intrinsic {
	return func(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
		d := tm(a[1])
		if !d.isConst() {
			panic(unsupported("truncation of a time by a symbolic duration"))
		}
		if d.i64 <= 0 {
			return a[0]
		}
		// relative to the zero time
		x := w.ts.Sub(tm(a[0]), w.zeroTime)
		m := w.ts.Mod(x, d)
		down := w.ts.Sub(tm(a[0]), m)
		if !round {
			return down
		}
		return w.ts.Ite(w.ts.Lt(w.ts.Add(m, m), d), down, w.ts.Add(down, d))
	}
}

func fmtInt(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	if !tm(a[0]).isConst() {
		if w.decimals && tm(a[1]).isConst() && tm(a[1]).i64 == 10 {
			return w.decDigits(tm(a[0]))
		}
		return w.opaqueStr("dec")
	}
	return tm(a[0]).k.Text(int(tm(a[1]).i64))
}

func symIndexByte(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	b := w.bytesOf(a[0])
	c := tm(a[1])
	for i, x := range b {
		if w.branch(w.ts.Eq(x, c)) {
			return w.ts.Int(int64(i))
		}
	}
	return w.ts.Int(-1)
}

func symCount(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	b := w.bytesOf(a[0])
	c := tm(a[1])
	r := w.ts.Int(0)
	for _, x := range b {
		r = w.ts.Add(r, w.ts.Ite(w.ts.Eq(x, c), w.ts.Int(1), w.ts.Int(0)))
	}
	return r
}

func bytesEqual(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	x, ok := a[0].(*blob)
	y, ok2 := a[1].(*blob)
	if (ok && x != nil) || (ok2 && y != nil) {
		if ok && ok2 && x != nil && y != nil && types.Identical(x.t, y.t) {
			return w.deepEq(iface{x.t, x.v}, iface{y.t, y.v})
		}
		panic(unsupported("comparison of serialised values"))
	}
	return w.bytesEq(w.bytesOf(a[0]), w.bytesOf(a[1]))
}

func bytesCompare(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	if x, ok := a[0].(string); ok {
		if y, ok := a[1].(string); ok {
			return w.ts.Int(int64(strings.Compare(x, y)))
		}
	}
	x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
	return w.ts.Ite(w.bytesLt(x, y), w.ts.Int(-1), w.ts.Ite(w.bytesEq(x, y), w.ts.Int(0), w.ts.Int(1)))
}

func sortSlice(w *Worker, fr *frame, fn *ssa.Function, a []value) value {
	xs, _ := a[0].(iface).v.([]value)
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0; j-- {
			r := w.callValue(fr, a[1], []value{w.ts.Int(int64(j)), w.ts.Int(int64(j - 1))}).(*Term)
			if !w.branch(r) {
				break
			}
			x, y := copyVal(xs[j]), copyVal(xs[j-1])
			w.store(&xs[j], y)
			w.store(&xs[j-1], x)
		}
	}
	return nil
}

func (w *Worker) cloneShallow(v value) value {
	if i, ok := v.(iface); ok {
		return iface{i.t, copyVal(i.v)}
	}
	return v
}

func (w *Worker) reflIndirect(v value, must bool) value {
	s := v.(structure)
	i := s[1].(iface)
	if p, ok := i.t.Underlying().(*types.Pointer); ok {
		pv := i.v.(*value)
		if pv == nil {
			return structure{(*value)(nil), iface{}, w.ts.Int(0)}
		}
		// an interface-typed pointee keeps its dynamic value
		if _, isI := p.Elem().Underlying().(*types.Interface); isI {
			return structure{(*value)(nil), (*pv).(iface), w.ts.Int(1)}
		}
		return structure{(*value)(nil), iface{p.Elem(), *pv}, w.ts.Int(1)}
	}
	if must {
		panic(unsupported("reflect Elem of %v", i.t))
	}
	return v
}

// symParse: decimal parsing of a short symbolic string, as big.Int.SetString(s, 10).
func (w *Worker) symParse(z, sv value, base *Term) value {
	if !base.isConst() || base.i64 != 10 {
		panic(unsupported("symbolic parse in base %v", base.k))
	}
	b := w.strBytes(sv)
	neg := false
	fail := tuple{(*value)(nil), w.ts.F}
	if len(b) == 0 {
		return fail
	}
	if w.branch(w.ts.Eq(b[0], w.ts.Int('-'))) {
		neg = true
		b = b[1:]
	} else if w.branch(w.ts.Eq(b[0], w.ts.Int('+'))) {
		b = b[1:]
	}
	if len(b) == 0 {
		return fail
	}
	r := w.ts.Int(0)
	for _, c := range b {
		if !w.branch(w.ts.And(w.ts.Le(w.ts.Int('0'), c), w.ts.Le(c, w.ts.Int('9')))) {
			return fail
		}
		r = w.ts.Add(w.ts.Scale(r, big.NewInt(10)), w.ts.Sub(c, w.ts.Int('0')))
	}
	if neg {
		r = w.ts.Neg(r)
	}
	w.setBi(z, r)
	return tuple{z, w.ts.T}
}

// deepEq: structural equality through pointers and slices (the harness's Eq); nil and empty slices are equal.
func (w *Worker) deepEq(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return w.ts.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return w.ts.F
	}
	return w.deepEqT(a.t, a.v, b.v)
}

func (w *Worker) deepEqT(t types.Type, x, y value) *Term {
	if w.specialOf(t) != notSpecial {
		return w.ts.Eq(tm(x), tm(y))
	}
	switch ut := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		var c []*Term
		for i := range a {
			c = append(c, w.deepEqT(ut.Field(i).Type(), a[i], b[i]))
		}
		return w.ts.And(c...)
	case *types.Array:
		a, b := x.(array), y.(array)
		var c []*Term
		for i := range a {
			c = append(c, w.deepEqT(ut.Elem(), a[i], b[i]))
		}
		return w.ts.And(c...)
	case *types.Slice:
		xb, ok1 := x.(*blob)
		yb, ok2 := y.(*blob)
		if ok1 && xb != nil || ok2 && yb != nil {
			if ok1 && ok2 && xb != nil && yb != nil && types.Identical(xb.t, yb.t) {
				return w.deepEqT(xb.t, xb.v, yb.v)
			}
			panic(unsupported("comparison of a serialised value with raw bytes"))
		}
		a, _ := x.([]value)
		b, _ := y.([]value)
		if len(a) != len(b) {
			return w.ts.F
		}
		var c []*Term
		for i := range a {
			c = append(c, w.deepEqT(ut.Elem(), a[i], b[i]))
		}
		return w.ts.And(c...)
	case *types.Pointer:
		a, _ := x.(*value)
		b, _ := y.(*value)
		if a == nil || b == nil {
			return w.ts.Bool(a == nil && b == nil)
		}
		return w.deepEqT(ut.Elem(), *a, *b)
	case *types.Interface:
		return w.deepEq(x.(iface), y.(iface))
	case *types.Map:
		a, _ := x.(*hashmap)
		b, _ := y.(*hashmap)
		na, nb := 0, 0
		if a != nil {
			na = a.n
		}
		if b != nil {
			nb = b.n
		}
		if na != nb {
			return w.ts.F
		}
		if na == 0 {
			return w.ts.T
		}
		var c []*Term
		for _, e := range a.entries {
			if e.deleted {
				continue
			}
			f := w.mapFind(b, e.k)
			if f == nil {
				return w.ts.F
			}
			c = append(c, w.deepEqT(ut.Elem(), e.v, f.v))
		}
		return w.ts.And(c...)
	}
	return w.equals(t, x, y)
}

var _ = bytes.Equal
