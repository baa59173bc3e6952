package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn           *ssa.Function
	name         string
	idx          map[ssa.Value]int
	n            int
	intr         intrinsic
	resolved     bool
	repl         *ssa.Function
	skip         bool // stub: return zero values
	calls        int
	calledInPath bool
}

type intrinsic func(w *Worker, fr *frame, fn *ssa.Function, args []value) value

// fallthroughT is returned by an intrinsic that declines (the body is then interpreted).
type fallthroughT struct{}

type deferred struct {
	fn   value
	args []value
	tail *deferred
}

type frame struct {
	w         *Worker
	caller    *frame
	fi        *fnInfo
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []value
	defers    *deferred
	result    value
	panicking bool
	panic     interface{}
	cur       ssa.Instruction
	depth     int
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if fi, ok := w.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	w.fns[fn] = fi
	return fi
}

func (w *Worker) resolve(fi *fnInfo) {
	if fi.resolved {
		return
	}
	fi.resolved = true
	fn := fi.fn
	name := fi.name
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		fi.intr = in
	} else if m, ok := w.eng.models[name]; ok {
		fi.repl = m
		return
	} else if w.eng.isStub(fn, name) {
		fi.skip = true
		return
	}
	if fn.Pkg != nil {
		w.eng.build(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		w.eng.build(o.Pkg)
	}
	if len(fn.Blocks) == 0 {
		return
	}
	w.eng.sinkOnce(fn)
	fi.idx = map[ssa.Value]int{}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
}

func (fr *frame) get(v ssa.Value) value {
	if i, ok := fr.fi.idx[v]; ok {
		return fr.env[i]
	}
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.Const:
		return fr.w.constValue(v)
	case *ssa.Global:
		return fr.w.global(v)
	}
	panic(unsupported("get %T", v))
}

func (w *Worker) global(g *ssa.Global) *value {
	if p, ok := w.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = w.zero(deref(g.Type()))
	w.globals[g] = p
	return p
}

func (w *Worker) constValue(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	if v, ok := w.consts[c]; ok {
		return v
	}
	var r value
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			r = w.ts.Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			x := constant.ToInt(c.Value)
			bi, ok := new(big.Int).SetString(x.ExactString(), 10)
			if !ok {
				panic(unsupported("const %v", c))
			}
			r = w.ts.Big(bi)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			r = f
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				r = constant.StringVal(c.Value)
			} else {
				r = string(rune(c.Int64()))
			}
		case b.Info()&types.IsComplex != 0:
			r = complex128(0)
		}
	}
	if r == nil {
		panic(unsupported("const %v : %v", c, c.Type()))
	}
	w.consts[c] = r
	return r
}

// ---------- panics of the interpreted program

func (w *Worker) panicRuntime(msg string) {
	t := w.eng.runtimeErrT
	panic(targetPanic{iface{t, "runtime error: " + msg}})
}

func (w *Worker) panicPlain(msg string) { w.panicRuntime(msg) }

// ---------- calls

func (w *Worker) callValue(fr *frame, f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		return w.call(fr, f, args, nil)
	case *closure:
		return w.call(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return w.builtin(fr, f, args, nil)
	case nil:
		w.panicRuntime("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("call of %T", f))
}

func (w *Worker) call(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if caller != nil && fn.Synthetic == "package initializer" {
		return nil // initPackage runs initialisers in dependency order
	}
	fi := w.info(fn)
	if !fi.resolved {
		w.resolve(fi)
	}
	fi.calls++
	if w.logging {
		fi.calledInPath = true
	}
	if fi.intr != nil {
		r := fi.intr(w, caller, fn, args)
		if _, decline := r.(fallthroughT); !decline {
			return r
		}
	}
	if fi.repl != nil {
		return w.call(caller, fi.repl, args, nil)
	}
	if fi.skip {
		return w.zeroResult(fn)
	}
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: %s", fi.name))
	}
	fr := &frame{w: w, caller: caller, fi: fi, fn: fn, env: make([]value, fi.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 600 {
			panic(unsupported("call depth in %s", fi.name))
		}
	}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		w.runFrame(fr)
	}
	return fr.result
}

func (w *Worker) zeroResult(fn *ssa.Function) value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	return w.zero(res)
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, tp := r.(targetPanic); !tp {
				panic(r) // engine-level: abort everything
			}
			fr.panicking = true
			fr.panic = r
		}
	}()
	fr.w.callDeferred(fr, d)
	ok = true
}

func (w *Worker) callDeferred(fr *frame, d *deferred) {
	if b, ok := d.fn.(*ssa.Builtin); ok {
		w.builtin(fr, b, d.args, nil)
		return
	}
	w.callValue(fr, d.fn, d.args)
}

func (w *Worker) doRecover(caller *frame) value {
	// recover() must be called by a deferred function of a panicking frame
	if caller.caller != nil && caller.caller.panicking && !caller.panicking {
		caller.caller.panicking = false
		p := caller.caller.panic
		caller.caller.panic = nil
		if tp, ok := p.(targetPanic); ok {
			if i, ok := tp.v.(iface); ok {
				return i
			}
			return iface{types.Typ[types.String], tp.v}
		}
		panic(p)
	}
	return iface{}
}

func (w *Worker) runFrame(fr *frame) {
	if fr.fn.Recover != nil || hasDefer(fr.fn) {
		defer func() {
			if fr.block == nil {
				return // normal return
			}
			r := recover()
			if _, un := r.(unsupportedErr); un && w.lastFn == "" {
				w.lastFn = fr.fi.name
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicking = true
			fr.panic = tp
			fr.runDefers()
			fr.block = fr.fn.Recover
			fr.prev = nil
			if fr.block == nil { // recovered, no named results
				fr.result = w.zeroResult(fr.fn)
			}
		}()
	}
	for {
	block:
		for _, ins := range fr.block.Instrs {
			w.steps++
			if w.steps > w.maxSteps {
				panic(unsupported("step limit (unwinding bound) exceeded in %s", fr.fi.name))
			}
			fr.cur = ins
			switch fr.visit(ins) {
			case kNext:
			case kReturn:
				return
			case kJump:
				break block
			}
		}
	}
}

var deferCache = map[*ssa.Function]bool{}

func hasDefer(fn *ssa.Function) bool {
	return fn.Recover != nil
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.fi.idx[v]] = x }

func (fr *frame) visit(instr ssa.Instruction) cont {
	w := fr.w
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, w.unop(fr, in, fr.get(in.X)))
	case *ssa.BinOp:
		fr.set(in, w.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.set(in, w.builtin(fr, b, args, in))
		} else {
			fr.set(in, w.callValue(fr, fn, args))
		}
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, w.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, w.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.MakeInterface:
		fr.set(in, iface{in.X.Type(), copyVal(fr.get(in.X))})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, w.slice(fr.get(in.X), fr.get(in.Low), fr.get(in.High), fr.get(in.Max)))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			var res tuple
			for _, r := range in.Results {
				res = append(res, fr.get(r))
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X)
		if w.eng.verbose && w.eng.stacks && !w.replaying() {
			fmt.Println("PANIC", w.panicString(targetPanic{v}))
			w.eng.where(fr)
		}
		panic(targetPanic{v})
	case *ssa.Send:
		panic(unsupported("channel send"))
	case *ssa.Store:
		p := fr.get(in.Addr).(*value)
		if p == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		w.store(p, fr.get(in.Val))
	case *ssa.If:
		succ := 1
		if w.branch(fr.get(in.Cond).(*Term)) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		fr.phis()
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers}
	case *ssa.Go:
		panic(unsupported("goroutine"))
	case *ssa.MakeChan:
		fr.set(in, &chanVal{})
	case *ssa.Alloc:
		p := new(value)
		*p = w.zero(deref(in.Type()))
		fr.set(in, p)
	case *ssa.MakeSlice:
		n := w.concInt(fr.get(in.Len).(*Term))
		c := w.concInt(fr.get(in.Cap).(*Term))
		if n < 0 || c < n {
			w.panicRuntime("makeslice: len out of range")
		}
		if c > 1<<20 {
			panic(unsupported("makeslice of %d", c))
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]value, c)
		for i := range s {
			s[i] = w.zero(el)
		}
		fr.set(in, s[:n])
	case *ssa.MakeMap:
		fr.set(in, &hashmap{kt: in.Type().Underlying().(*types.Map).Key(), idx: map[string]*mapEntry{}})
	case *ssa.Range:
		fr.set(in, w.rangeIter(fr.get(in.X), in.X.Type()))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(*rangeIter).next())
	case *ssa.FieldAddr:
		p := fr.get(in.X).(*value)
		if p == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			panic(unsupported("field of special type %v in %s", in.X.Type(), fr.fi.name))
		}
		fr.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := fr.get(in.X).(structure)
		if !ok {
			panic(unsupported("field of special type %v in %s", in.X.Type(), fr.fi.name))
		}
		fr.set(in, s[in.Field])
	case *ssa.IndexAddr:
		x := fr.get(in.X)
		i := fr.get(in.Index).(*Term)
		switch x := x.(type) {
		case []value:
			fr.set(in, &x[w.index(i, len(x))])
		case *value:
			if x == nil {
				w.panicRuntime("invalid memory address or nil pointer dereference")
			}
			a := (*x).(array)
			fr.set(in, &a[w.index(i, len(a))])
		case *blob:
			panic(unsupported("byte of a serialised value"))
		default:
			panic(unsupported("IndexAddr %T", x))
		}
	case *ssa.Index:
		x := fr.get(in.X)
		i := fr.get(in.Index).(*Term)
		switch x := x.(type) {
		case array:
			fr.set(in, x[w.index(i, len(x))])
		case string:
			fr.set(in, w.ts.Int(int64(x[w.index(i, len(x))])))
		case *symStr:
			b := w.strBytes(x)
			fr.set(in, b[w.index(i, len(b))])
		default:
			panic(unsupported("Index %T", x))
		}
	case *ssa.Lookup:
		fr.set(in, w.lookup(in, fr.get(in.X), fr.get(in.Index)))
	case *ssa.MapUpdate:
		m, _ := fr.get(in.Map).(*hashmap)
		w.mapSet(m, fr.get(in.Key), fr.get(in.Value))
	case *ssa.TypeAssert:
		fr.set(in, w.typeAssert(in, fr.get(in.X).(iface)))
	case *ssa.MakeClosure:
		var b []value
		for _, x := range in.Bindings {
			b = append(b, fr.get(x))
		}
		fr.set(in, &closure{in.Fn.(*ssa.Function), b})
	case *ssa.Phi:
		// done at block entry
	case *ssa.Select:
		panic(unsupported("select"))
	default:
		panic(unsupported("instruction %T", instr))
	}
	return kNext
}

// phis evaluates the block's phi nodes in parallel.
func (fr *frame) phis() {
	var tmp [16]value
	vals := tmp[:0]
	pi := -1
	for _, ins := range fr.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if pi < 0 {
			for i, p := range fr.block.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
		}
		vals = append(vals, fr.get(phi.Edges[pi]))
	}
	for i, v := range vals {
		fr.set(fr.block.Instrs[i].(*ssa.Phi), v)
	}
}

func (fr *frame) prepareCall(call *ssa.CallCommon) (value, []value) {
	w := fr.w
	v := fr.get(call.Value)
	var fn value
	var args []value
	if call.Method == nil {
		fn = v
	} else {
		recv := v.(iface)
		if recv.t == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		f := w.method(recv.t, call.Method)
		if f == nil {
			panic(unsupported("no method %v on %v", call.Method, recv.t))
		}
		fn = f
		args = append(args, recv.v)
	}
	for _, a := range call.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fn, args
}

type methKey struct {
	t types.Type
	m string
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.eng.lookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

// callMethod calls a named method of an interface value, if it has one.
func (w *Worker) callMethod(fr *frame, recv iface, name string, args ...value) (value, bool) {
	f := w.eng.lookupMethod(recv.t, nil, name)
	if f == nil {
		return nil, false
	}
	return w.call(fr, f, append([]value{recv.v}, args...), nil), true
}

func (w *Worker) index(i *Term, n int) int {
	if i.small {
		if i.i64 < 0 || i.i64 >= int64(n) {
			w.panicRuntime(fmt.Sprintf("index out of range [%d] with length %d", i.i64, n))
		}
		return int(i.i64)
	}
	in := w.ts.And(w.ts.Le(w.ts.Int(0), i), w.ts.Lt(i, w.ts.Int(int64(n))))
	if !w.branch(in) {
		w.panicRuntime(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(w.concInt(i))
}

func (w *Worker) lookup(in *ssa.Lookup, x, idx value) value {
	switch x := x.(type) {
	case string, *symStr:
		b := w.strBytes(x)
		return b[w.index(idx.(*Term), len(b))]
	case *hashmap:
		var v value
		ok := false
		if e := w.mapFind(x, idx); e != nil {
			v, ok = copyVal(e.v), true
		} else {
			v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return tuple{v, w.ts.Bool(ok)}
		}
		return v
	}
	panic(unsupported("lookup %T", x))
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, itf iface) value {
	var v value
	ok := false
	msg := ""
	if itf.t == nil {
		msg = fmt.Sprintf("interface conversion: interface is nil, not %s", in.AssertedType)
	} else if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if w.implements(itf.t, it) {
			v, ok = itf, true
		} else {
			msg = fmt.Sprintf("interface conversion: %v is not %v: missing method", itf.t, in.AssertedType)
		}
	} else if types.Identical(itf.t, in.AssertedType) {
		v, ok = copyVal(itf.v), true
	} else {
		msg = fmt.Sprintf("interface conversion: interface is %s, not %s", itf.t, in.AssertedType)
	}
	if !ok {
		if !in.CommaOk {
			panic(targetPanic{iface{w.eng.runtimeErrT, msg}})
		}
		v = w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return tuple{v, w.ts.Bool(ok)}
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impls[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impls[k] = r
	return r
}

// ---------- operators

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 64, true, true
}

var intRangeCache [65][2][2]*big.Int

func intRange(bits int, signed bool) (lo, hi *big.Int) {
	s := 0
	if signed {
		s = 1
	}
	c := &intRangeCache[bits][s]
	return c[0], c[1]
}

func init() {
	for _, bits := range []int{8, 16, 32, 64} {
		one := big.NewInt(1)
		h := new(big.Int).Lsh(one, uint(bits))
		h.Sub(h, one)
		intRangeCache[bits][0] = [2]*big.Int{big.NewInt(0), h}
		m := new(big.Int).Lsh(one, uint(bits-1))
		intRangeCache[bits][1] = [2]*big.Int{new(big.Int).Neg(m), new(big.Int).Sub(m, one)}
	}
}

// wrap gives the Go value of the mathematical integer t at the given width (two's complement).
func (w *Worker) wrap(t *Term, bits int, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if t.op == OIntConst {
		return w.wrapMod(t, bits, signed)
	}
	inR := w.ts.And(w.ts.Le(w.ts.Big(lo), t), w.ts.Le(t, w.ts.Big(hi)))
	if w.branch(inR) {
		return t
	}
	return w.wrapMod(t, bits, signed)
}

func (w *Worker) wrapMod(t *Term, bits int, signed bool) *Term {
	lo, _ := intRange(bits, signed)
	m := new(big.Int).Lsh(bigOne, uint(bits))
	l := w.ts.Big(lo)
	return w.ts.Add(w.ts.Mod(w.ts.Sub(t, l), w.ts.Big(m)), l)
}

func (w *Worker) unop(fr *frame, in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.MUL:
		p, ok := x.(*value)
		if !ok {
			panic(unsupported("load through %T", x))
		}
		if p == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		return copyVal(*p)
	case token.NOT:
		return w.ts.Not(x.(*Term))
	case token.SUB:
		switch x := x.(type) {
		case *Term:
			bits, signed, _ := intInfo(in.X.Type())
			return w.wrap(w.ts.Neg(x), bits, signed)
		case float64:
			return -x
		}
	case token.XOR:
		bits, signed, _ := intInfo(in.X.Type())
		if signed {
			return w.ts.Sub(w.ts.Int(-1), x.(*Term))
		}
		_, hi := intRange(bits, false)
		return w.ts.Sub(w.ts.Big(hi), x.(*Term))
	case token.ARROW:
		panic(unsupported("channel receive"))
	}
	panic(unsupported("unop %v %T", in.Op, x))
}

func (w *Worker) binop(op token.Token, t, ty types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return w.eqIface(t, ty, x, y)
	case token.NEQ:
		return w.ts.Not(w.eqIface(t, ty, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported("binop %T", y))
		}
		return w.intOp(op, t, ty, a, b)
	case string, *symStr:
		return w.strOp(op, x, y)
	case float64:
		b, ok := y.(float64)
		if !ok {
			return w.opaqueFloatOp(op)
		}
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return w.ts.Bool(a < b)
		case token.LEQ:
			return w.ts.Bool(a <= b)
		case token.GTR:
			return w.ts.Bool(a > b)
		case token.GEQ:
			return w.ts.Bool(a >= b)
		}
		if f32 {
			r = float64(float32(r))
		}
		return r
	case opaqueFloat:
		return w.opaqueFloatOp(op)
	}
	panic(unsupported("binop %v %T", op, x))
}

func (w *Worker) opaqueFloatOp(op token.Token) value {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		return opaqueFloat{name: "f"}
	}
	panic(unsupported("comparison of symbolic floats"))
}

func (w *Worker) eqIface(t, ty types.Type, x, y value) *Term {
	// comparisons may mix an interface with a concrete value after conversions; SSA makes both sides identical types,
	// except for untyped nil
	if xi, ok := x.(iface); ok {
		if yi, ok := y.(iface); ok {
			return w.equals(t, xi, yi)
		}
		return w.ts.Bool(xi.t == nil && isNilVal(y))
	}
	return w.equals(t, x, y)
}

func (w *Worker) strOp(op token.Token, x, y value) value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return w.ts.Bool(a < b)
			case token.LEQ:
				return w.ts.Bool(a <= b)
			case token.GTR:
				return w.ts.Bool(a > b)
			case token.GEQ:
				return w.ts.Bool(a >= b)
			}
		}
	}
	if op == token.ADD {
		if isOpaque(x) || isOpaque(y) {
			return &symStr{opaque: "(" + w.show(x) + "+" + w.show(y) + ")"}
		}
		return w.mkStr(append(append([]*Term{}, w.strBytes(x)...), w.strBytes(y)...))
	}
	a, b := w.strBytes(x), w.strBytes(y)
	lt := w.bytesLt(a, b)
	switch op {
	case token.LSS:
		return lt
	case token.GEQ:
		return w.ts.Not(lt)
	case token.GTR:
		return w.bytesLt(b, a)
	case token.LEQ:
		return w.ts.Not(w.bytesLt(b, a))
	}
	panic(unsupported("string op %v", op))
}

func isOpaque(x value) bool {
	s, ok := x.(*symStr)
	return ok && s.opaque != ""
}

func (w *Worker) intOp(op token.Token, t, ty types.Type, a, b *Term) value {
	ts := w.ts
	if a.isBool {
		switch op {
		case token.AND:
			return ts.And(a, b)
		case token.OR:
			return ts.Or(a, b)
		}
		panic(unsupported("bool op %v", op))
	}
	switch op {
	case token.LSS:
		return ts.Lt(a, b)
	case token.LEQ:
		return ts.Le(a, b)
	case token.GTR:
		return ts.Lt(b, a)
	case token.GEQ:
		return ts.Le(b, a)
	}
	bits, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("intOp on %v", t))
	}
	switch op {
	case token.ADD:
		return w.wrap(ts.Add(a, b), bits, signed)
	case token.SUB:
		return w.wrap(ts.Sub(a, b), bits, signed)
	case token.MUL:
		return w.wrap(ts.Mul(a, b), bits, signed)
	case token.QUO, token.REM:
		if w.branch(ts.Eq(b, ts.Int(0))) {
			w.panicRuntime("integer divide by zero")
		}
		if op == token.QUO {
			return w.wrap(ts.QuoT(a, b), bits, signed)
		}
		return ts.RemT(a, b)
	case token.SHL, token.SHR:
		if ybits, ysigned, _ := intInfo(ty); ysigned && ybits > 0 && (b.lo == nil || b.lo.Sign() < 0) {
			if w.branch(ts.Lt(b, ts.Int(0))) {
				w.panicRuntime("negative shift amount")
			}
		}
		if !b.isConst() {
			if w.branch(ts.Le(ts.Int(int64(bits)), b)) {
				b = ts.Int(int64(bits))
			} else {
				b = ts.Int(w.concInt(b))
			}
		}
		n := int64(bits)
		if b.small && b.i64 < n {
			n = b.i64
		}
		p := new(big.Int).Lsh(bigOne, uint(n))
		if op == token.SHL {
			if n >= int64(bits) {
				return ts.Int(0)
			}
			return w.wrapMod2(ts.Scale(a, p), bits, signed)
		}
		return ts.Div(a, ts.Big(p))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return w.bitOp(op, a, b, bits, signed)
	}
	panic(unsupported("intOp %v", op))
}

// wrapMod2: like wrap but never forks (used for shifts, where discarding bits is the intent).
func (w *Worker) wrapMod2(t *Term, bits int, signed bool) *Term {
	lo, hi := intRange(bits, signed)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	return w.wrapMod(t, bits, signed)
}

func (w *Worker) bitOp(op token.Token, a, b *Term, bits int, signed bool) *Term {
	ts := w.ts
	m := new(big.Int).Lsh(bigOne, uint(bits))
	ua, ub := ts.Mod(a, ts.Big(m)), ts.Mod(b, ts.Big(m))
	if op == token.AND_NOT {
		ub = ts.Sub(ts.Big(new(big.Int).Sub(m, bigOne)), ub)
		op = token.AND
	}
	var r *Term
	if ua.isConst() && ub.isConst() {
		z := new(big.Int)
		switch op {
		case token.AND:
			z.And(ua.k, ub.k)
		case token.OR:
			z.Or(ua.k, ub.k)
		case token.XOR:
			z.Xor(ua.k, ub.k)
		}
		r = ts.Big(z)
	} else {
		if ua.isConst() {
			ua, ub = ub, ua
		}
		if ub.isConst() {
			c := ub.k
			switch {
			case c.Sign() == 0 && op == token.AND:
				r = ts.Int(0)
			case c.Sign() == 0:
				r = ua
			case op == token.AND && new(big.Int).And(c, new(big.Int).Add(c, bigOne)).Sign() == 0: // 2^k-1
				r = ts.Mod(ua, ts.Big(new(big.Int).Add(c, bigOne)))
			case op == token.AND && c.TrailingZeroBits() > 0 && contiguousFrom(c):
				// bits k..j: ((ua / 2^k) mod 2^(j-k)) * 2^k
				k := c.TrailingZeroBits()
				p := new(big.Int).Lsh(bigOne, k)
				q := new(big.Int).Rsh(c, k)
				q.Add(q, bigOne)
				r = ts.Scale(ts.Mod(ts.Div(ua, ts.Big(p)), ts.Big(q)), p)
			case op == token.OR && disjointLow(ua, c):
				r = ts.Add(ua, ub)
			}
		}
		if r == nil && op == token.OR && !ua.isConst() && !ub.isConst() {
			// x<<k | y with y < 2^k
			for i := 0; i < 2 && r == nil; i++ {
				if k := trailingZeros(ua); k > 0 && ub.hi != nil && ub.hi.BitLen() <= k {
					r = ts.Add(ua, ub)
				}
				ua, ub = ub, ua
			}
		}
		if r == nil {
			name := map[token.Token]string{token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor"}[op]
			if ua.id > ub.id {
				ua, ub = ub, ua
			}
			r = ts.BV(name, bits, ua, ub)
		}
	}
	if signed {
		return w.wrapMod2(r, bits, true)
	}
	return r
}

func contiguousFrom(c *big.Int) bool {
	x := new(big.Int).Rsh(c, c.TrailingZeroBits())
	return new(big.Int).And(x, new(big.Int).Add(x, bigOne)).Sign() == 0
}

func trailingZeros(t *Term) int {
	switch t.op {
	case OLin:
		n := uint(1 << 20)
		for _, c := range append([]*big.Int{t.k}, t.coefs...) {
			if c.Sign() == 0 {
				continue
			}
			if z := c.TrailingZeroBits(); z < n {
				n = z
			}
		}
		return int(n)
	case OMod:
		if t.args[1].isConst() {
			a, b := trailingZeros(t.args[0]), int(t.args[1].k.TrailingZeroBits())
			if b < a {
				return b
			}
			return a
		}
	}
	return 0
}

func disjointLow(t *Term, c *big.Int) bool {
	if t.hi == nil {
		return false
	}
	return int(c.TrailingZeroBits()) >= t.hi.BitLen()
}

// ---------- conversions

func (w *Worker) convert(to, from types.Type, x value) value {
	ut, uf := to.Underlying(), from.Underlying()
	switch ut := ut.(type) {
	case *types.Pointer, *types.Struct, *types.Map, *types.Signature, *types.Interface, *types.Chan, *types.Array:
		if _, isB := uf.(*types.Basic); isB {
			if _, ok := ut.(*types.Pointer); ok {
				return x // unsafe.Pointer -> *T
			}
		}
		return x
	case *types.Slice:
		if fb, ok := uf.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			el := ut.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Byte {
				if isOpaque(x) {
					return &blob{types.Typ[types.String], x}
				}
				b := w.strBytes(x)
				r := make([]value, len(b))
				for i := range b {
					r[i] = b[i]
				}
				return r
			}
			// []rune
			s, ok := x.(string)
			if !ok {
				b := w.strBytes(x)
				r := make([]value, len(b))
				for i := range b {
					if !w.branch(w.ts.Lt(b[i], w.ts.Int(128))) {
						panic(unsupported("non-ASCII symbolic rune"))
					}
					r[i] = b[i]
				}
				return r
			}
			var r []value
			for _, c := range s {
				r = append(r, w.ts.Int(int64(c)))
			}
			return r
		}
		return x
	case *types.Basic:
		switch {
		case ut.Info()&types.IsString != 0:
			switch f := uf.(type) {
			case *types.Slice:
				if b, ok := x.(*blob); ok {
					if b != nil {
						if s, ok := b.v.(*symStr); ok {
							return s
						}
						return &symStr{opaque: fmt.Sprintf("blob%p", b)}
					}
				}
				xs := x.([]value)
				if f.Elem().Underlying().(*types.Basic).Kind() == types.Byte {
					bs := make([]*Term, len(xs))
					for i := range xs {
						bs[i] = xs[i].(*Term)
					}
					return w.mkStr(bs)
				}
				var sb strings.Builder
				for _, e := range xs {
					sb.WriteRune(rune(w.concInt(e.(*Term))))
				}
				return sb.String()
			case *types.Basic:
				if f.Info()&types.IsInteger != 0 {
					t := x.(*Term)
					if !t.isConst() {
						if !w.branch(w.ts.And(w.ts.Le(w.ts.Int(0), t), w.ts.Lt(t, w.ts.Int(128)))) {
							panic(unsupported("non-ASCII symbolic rune"))
						}
						return w.mkStr([]*Term{t})
					}
					return string(rune(t.i64))
				}
			}
			return x
		case ut.Info()&types.IsInteger != 0:
			bits, signed, _ := intInfo(ut)
			switch x := x.(type) {
			case *Term:
				return w.wrapConv(x, bits, signed, uf)
			case float64:
				f := new(big.Float).SetFloat64(x)
				i, _ := f.Int(nil)
				return w.wrapMod(w.ts.Big(i), bits, signed)
			case opaqueFloat:
				if x.name == "log" && bits == 64 && signed {
					return w.logFloor(x.t)
				}
				lo, hi := intRange(bits, signed)
				return w.freshVar("float", lo, hi)
			case *value:
				panic(unsupported("pointer to integer"))
			}
		case ut.Info()&types.IsFloat != 0:
			switch x := x.(type) {
			case *Term:
				if x.isConst() {
					f, _ := new(big.Float).SetInt(x.k).Float64()
					if ut.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return f
				}
				return opaqueFloat{"conv", x}
			case float64:
				if ut.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case opaqueFloat:
				return x
			}
		case ut.Info()&types.IsBoolean != 0, ut.Kind() == types.UnsafePointer, ut.Info()&types.IsComplex != 0:
			return x
		}
	}
	panic(unsupported("conversion %v -> %v (%T)", from, to, x))
}

// wrapConv: integer conversion; a plain reduction when it is used to slice bytes out of a wider value.
func (w *Worker) wrapConv(t *Term, bits int, signed bool, from types.Type) *Term {
	if bits < 64 {
		return w.wrapMod2(t, bits, signed)
	}
	return w.wrap(t, bits, signed)
}

// ---------- slices

func (w *Worker) optInt(v value, def int) int {
	if v == nil {
		return def
	}
	return int(w.concInt(v.(*Term)))
}

func (w *Worker) slice(x, lo, hi, max value) value {
	switch x := x.(type) {
	case string, *symStr:
		if s, ok := x.(*symStr); ok && s.opaque != "" {
			panic(unsupported("slice of an opaque string"))
		}
		n := 0
		if s, ok := x.(string); ok {
			n = len(s)
		} else {
			n = len(x.(*symStr).b)
		}
		l, h := w.optInt(lo, 0), w.optInt(hi, n)
		if l < 0 || h < l || h > n {
			w.panicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		if s, ok := x.(string); ok {
			return s[l:h]
		}
		return w.mkStr(x.(*symStr).b[l:h])
	case []value:
		l, h := w.optInt(lo, 0), w.optInt(hi, len(x))
		m := w.optInt(max, cap(x))
		if l < 0 || h < l || m < h || m > cap(x) {
			w.panicRuntime(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(x)))
		}
		if x == nil {
			return x
		}
		return x[l:h:m]
	case *value:
		if x == nil {
			w.panicRuntime("invalid memory address or nil pointer dereference")
		}
		a := (*x).(array)
		l, h := w.optInt(lo, 0), w.optInt(hi, len(a))
		m := w.optInt(max, len(a))
		if l < 0 || h < l || m < h || m > len(a) {
			w.panicRuntime("slice bounds out of range")
		}
		return []value(a)[l:h:m]
	case *blob:
		if lo == nil && hi == nil {
			return x
		}
	}
	panic(unsupported("slice of %T", x))
}

func (w *Worker) bytesOf(v value) []*Term {
	switch v := v.(type) {
	case []value:
		out := make([]*Term, len(v))
		for i := range v {
			out[i] = v[i].(*Term)
		}
		return out
	case string, *symStr:
		return w.strBytes(v)
	case *blob:
		if v == nil {
			return nil
		}
	}
	panic(unsupported("bytes of %T", v))
}

func (w *Worker) mkBytes(b []*Term) []value {
	out := make([]value, len(b))
	for i := range b {
		out[i] = b[i]
	}
	return out
}

func (w *Worker) concBytes(v value) ([]byte, bool) {
	if s, ok := v.(string); ok {
		return []byte(s), true
	}
	if s, ok := v.(*symStr); ok && s.opaque != "" {
		return nil, false
	}
	if b, ok := v.(*blob); ok && b != nil {
		return nil, false
	}
	ts := w.bytesOf(v)
	out := make([]byte, len(ts))
	for i, t := range ts {
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.i64)
	}
	return out, true
}

func (w *Worker) goBytes(b []byte) []value {
	out := make([]value, len(b))
	for i := range b {
		out[i] = w.ts.Int(int64(b[i]))
	}
	return out
}

// ---------- builtins

func (w *Worker) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.Call) value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []value
		switch y := args[1].(type) {
		case []value:
			add = y
		case string, *symStr:
			for _, c := range w.strBytes(y) {
				add = append(add, c)
			}
		case *blob:
			if y != nil {
				if x, ok := args[0].([]value); ok && len(x) == 0 {
					return y
				}
				panic(unsupported("append of a serialised value"))
			}
		}
		xb, isBlob := args[0].(*blob)
		if isBlob && xb != nil {
			if len(add) == 0 {
				return xb
			}
			w.eng.where(fr)
			panic(unsupported("append to a serialised value"))
		}
		x, _ := args[0].([]value)
		if len(add) == 0 {
			return x
		}
		if len(x)+len(add) <= cap(x) {
			r := x[:len(x)+len(add)]
			for i, v := range add {
				w.setSlot(&r[len(x)+i], copyVal(v))
			}
			return r
		}
		nc := growCap(cap(x), len(x)+len(add))
		r := make([]value, len(x)+len(add), nc)
		copy(r, x)
		for i, v := range add {
			r[len(x)+i] = copyVal(v)
		}
		if len(x) > 0 {
			for i := range x { // elements move: aggregates get fresh storage
				r[i] = copyVal(x[i])
			}
		}
		if nc > len(r) { // spare capacity must hold zero values of the element type
			var el types.Type
			if call != nil {
				el = call.Type().Underlying().(*types.Slice).Elem()
			} else {
				el = b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			}
			full := r[:nc]
			for i := len(r); i < nc; i++ {
				full[i] = w.zero(el)
			}
		}
		return r
	case "copy":
		var src []value
		switch y := args[1].(type) {
		case []value:
			src = y
		case string, *symStr:
			src = w.mkBytes(w.strBytes(y))
		default:
			panic(unsupported("copy from %T", y))
		}
		dst := args[0].([]value)
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			w.store(&dst[i], tmp[i])
		}
		return w.ts.Int(int64(n))
	case "close":
		return nil
	case "delete":
		m, _ := args[0].(*hashmap)
		if m != nil {
			w.mapDelete(m, args[1])
		}
		return nil
	case "print", "println":
		return nil
	case "len":
		switch x := args[0].(type) {
		case string:
			return w.ts.Int(int64(len(x)))
		case *symStr:
			if x.opaque != "" {
				panic(unsupported("length of an opaque string (%s)", x.opaque))
			}
			return w.ts.Int(int64(len(x.b)))
		case array:
			return w.ts.Int(int64(len(x)))
		case *value:
			return w.ts.Int(int64(len((*x).(array))))
		case []value:
			return w.ts.Int(int64(len(x)))
		case *hashmap:
			if x == nil {
				return w.ts.Int(0)
			}
			return w.ts.Int(int64(x.n))
		case *blob:
			return w.blobLen(x)
		case *chanVal:
			return w.ts.Int(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case array:
			return w.ts.Int(int64(len(x)))
		case []value:
			return w.ts.Int(int64(cap(x)))
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				panic(unsupported("min/max of %T", r))
			}
			if b.Name() == "min" {
				r = w.ts.Ite(w.ts.Le(x, y), x, y)
			} else {
				r = w.ts.Ite(w.ts.Le(x, y), y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *hashmap:
			if x != nil {
				for _, e := range append([]*mapEntry{}, x.entries...) {
					w.mapDelete(x, e.k)
				}
			}
			return nil
		}
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return w.doRecover(fr)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			w.panicRuntime("value method called using nil pointer")
		}
		return args[0]
	}
	panic(unsupported("builtin %s %T", b.Name(), args[0]))
}

func growCap(old, need int) int {
	dbl := old * 2
	if need > dbl {
		return need
	}
	if old < 256 {
		return dbl
	}
	c := old
	for c < need {
		c += (c + 3*256) >> 2
	}
	return c
}

func (w *Worker) rangeIter(x value, t types.Type) *rangeIter {
	switch x := x.(type) {
	case *hashmap:
		if x == nil {
			return &rangeIter{next: func() tuple { return tuple{w.ts.F, nil, nil} }}
		}
		es := append([]*mapEntry{}, x.entries...)
		if w.mapOrderNondet && len(es) > 1 {
			// every iteration order: choose the next entry among the remaining ones
			rest := es
			return &rangeIter{next: func() tuple {
				var live []*mapEntry
				for _, e := range rest {
					if !e.deleted {
						live = append(live, e)
					}
				}
				if len(live) == 0 {
					return tuple{w.ts.F, nil, nil}
				}
				k := w.choose("map-order", len(live))
				e := live[k]
				rest = append(append([]*mapEntry{}, live[:k]...), live[k+1:]...)
				return tuple{w.ts.T, copyVal(e.k), copyVal(e.v)}
			}}
		}
		i := 0
		return &rangeIter{next: func() tuple {
			for i < len(es) && es[i].deleted {
				i++
			}
			if i >= len(es) {
				return tuple{w.ts.F, nil, nil}
			}
			e := es[i]
			i++
			return tuple{w.ts.T, copyVal(e.k), copyVal(e.v)}
		}}
	case string:
		rs := []rune{}
		pos := []int{}
		for i, r := range x {
			rs = append(rs, r)
			pos = append(pos, i)
		}
		i := 0
		return &rangeIter{next: func() tuple {
			if i >= len(rs) {
				return tuple{w.ts.F, nil, nil}
			}
			i++
			return tuple{w.ts.T, w.ts.Int(int64(pos[i-1])), w.ts.Int(int64(rs[i-1]))}
		}}
	case *symStr:
		b := w.strBytes(x)
		i := 0
		return &rangeIter{next: func() tuple {
			if i >= len(b) {
				return tuple{w.ts.F, nil, nil}
			}
			if !w.branch(w.ts.Lt(b[i], w.ts.Int(128))) {
				panic(unsupported("non-ASCII symbolic string"))
			}
			i++
			return tuple{w.ts.T, w.ts.Int(int64(i - 1)), b[i-1]}
		}}
	}
	panic(unsupported("range over %T", x))
}

// blobLen: the length of a serialised value; only its comparison with zero is meaningful.
func (w *Worker) blobLen(b *blob) *Term {
	if b == nil {
		return w.ts.Int(0)
	}
	z := w.isProtoZero(b.v, b.t)
	v := w.freshVarKeyed(fmt.Sprintf("bloblen%p", b), bigOne, big.NewInt(1<<30))
	return w.ts.Ite(z, w.ts.Int(0), v)
}

// isProtoZero: does the value serialise to the empty byte string (all fields default)?
func (w *Worker) isProtoZero(v value, t types.Type) *Term {
	switch w.specialOf(t) {
	case specBigInt:
		return w.ts.F
	case specTime:
		return w.ts.F
	}
	switch ut := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.isBool {
				return w.ts.Not(x)
			}
			return w.ts.Eq(x, w.ts.Int(0))
		case string:
			return w.ts.Bool(x == "")
		case *symStr:
			return w.ts.Bool(x.opaque == "" && len(x.b) == 0)
		}
	case *types.Slice:
		switch x := v.(type) {
		case []value:
			return w.ts.Bool(len(x) == 0)
		case *blob:
			return w.ts.Bool(x == nil)
		}
	case *types.Pointer:
		return w.ts.Bool(v.(*value) == nil)
	case *types.Interface:
		return w.ts.Bool(v.(iface).t == nil)
	case *types.Struct:
		// an embedded non-nullable message is always written
		var cs []*Term
		s, ok := v.(structure)
		if !ok {
			return w.ts.F
		}
		for i := range s {
			if _, nested := ut.Field(i).Type().Underlying().(*types.Struct); nested {
				return w.ts.F
			}
			cs = append(cs, w.isProtoZero(s[i], ut.Field(i).Type()))
		}
		return w.ts.And(cs...)
	}
	return w.ts.F
}

// where prints the stack of the interpreted program, for debugging.
func (e *Engine) where(fr *frame) {
	if !e.verbose || !e.stacks {
		return
	}
	for f := fr; f != nil; f = f.caller {
		p := ""
		if f.cur != nil {
			p = e.fset.Position(f.cur.Pos()).String()
		}
		fmt.Println("   ", f.fi.name, p)
	}
}
