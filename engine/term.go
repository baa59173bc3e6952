package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed SMT terms over Bool and (unbounded) Int, kept in a light normal form: integer terms are linear
// combinations of atoms, boolean terms are built from "lin <= 0", "lin = 0", boolean variables, not/and/or.

type Op uint8

const (
	OIntConst Op = iota
	OBoolConst
	OVar
	OLin // sum coefs[i]*args[i] + k
	OMul // product of atoms (non-linear monomial)
	ODiv // SMT-LIB div (floor for positive divisors)
	OMod // SMT-LIB mod
	OIte
	OLe0 // args[0] <= 0
	OEq0 // args[0] == 0
	ONot
	OAnd
	OOr
	OBV     // bit-vector operation name applied to ints of the given width
	OBitLen // big.Int.BitLen of a non-constant
	OGcd    // gcd of a positive constant and a term
)

type Term struct {
	id     int
	op     Op
	isBool bool
	args   []*Term
	coefs  []*big.Int
	k      *big.Int // constant (OIntConst, OLin)
	b      bool
	name   string
	width  int
	lo, hi *big.Int
	i64    int64
	small  bool
}

type Terms struct {
	tab  map[string]*Term
	n    int
	ints map[int64]*Term
	T, F *Term
	vars []*Term
	rats map[int]ratInfo
}

var (
	bigZero = big.NewInt(0)
	bigOne  = big.NewInt(1)
)

func NewTerms() *Terms {
	t := &Terms{tab: map[string]*Term{}, ints: map[int64]*Term{}, rats: map[int]ratInfo{}}
	t.T = t.mk(&Term{op: OBoolConst, isBool: true, b: true}, "T")
	t.F = t.mk(&Term{op: OBoolConst, isBool: true, b: false}, "F")
	return t
}

func (ts *Terms) mk(t *Term, key string) *Term {
	if x, ok := ts.tab[key]; ok {
		return x
	}
	ts.n++
	t.id = ts.n
	ts.tab[key] = t
	return t
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.T
	}
	return ts.F
}

func (ts *Terms) Int(i int64) *Term {
	if x, ok := ts.ints[i]; ok {
		return x
	}
	ts.n++
	v := big.NewInt(i)
	t := &Term{id: ts.n, op: OIntConst, k: v, lo: v, hi: v, i64: i, small: true}
	ts.ints[i] = t
	return t
}

func (ts *Terms) Big(v *big.Int) *Term {
	if v.IsInt64() {
		return ts.Int(v.Int64())
	}
	key := "I" + v.String()
	if x, ok := ts.tab[key]; ok {
		return x
	}
	v = new(big.Int).Set(v)
	return ts.mk(&Term{op: OIntConst, k: v, lo: v, hi: v}, key)
}

func (ts *Terms) Var(name string, isBool bool, lo, hi *big.Int) *Term {
	key := fmt.Sprintf("V%s|%v|%v|%v", name, isBool, lo, hi)
	if x, ok := ts.tab[key]; ok {
		return x
	}
	return ts.mk(&Term{op: OVar, isBool: isBool, name: name, lo: lo, hi: hi}, key)
}

func (t *Term) isConst() bool { return t.op == OIntConst || t.op == OBoolConst }

func ids(p string, a ...*Term) string {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range a {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(x.id))
	}
	return sb.String()
}

// ---------- linear arithmetic

type linear struct {
	atoms []*Term
	coefs []*big.Int
	k     *big.Int
}

func (ts *Terms) linOf(t *Term) linear {
	switch t.op {
	case OIntConst:
		return linear{nil, nil, t.k}
	case OLin:
		return linear{t.args, t.coefs, t.k}
	}
	return linear{[]*Term{t}, []*big.Int{bigOne}, bigZero}
}

func (ts *Terms) mkLin(l linear) *Term {
	if len(l.atoms) == 0 {
		return ts.Big(l.k)
	}
	if len(l.atoms) == 1 && l.k.Sign() == 0 && l.coefs[0].Cmp(bigOne) == 0 {
		return l.atoms[0]
	}
	var sb strings.Builder
	sb.WriteByte('L')
	for i, a := range l.atoms {
		sb.WriteString(l.coefs[i].String())
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte('+')
	}
	sb.WriteString(l.k.String())
	key := sb.String()
	if x, ok := ts.tab[key]; ok {
		return x
	}
	lo, hi := new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	var tmp big.Int
	for i, a := range l.atoms {
		c := l.coefs[i]
		al, ah := a.lo, a.hi
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil {
			if al == nil {
				lo = nil
			} else {
				lo.Add(lo, tmp.Mul(c, al))
			}
		}
		if hi != nil {
			if ah == nil {
				hi = nil
			} else {
				hi.Add(hi, tmp.Mul(c, ah))
			}
		}
	}
	return ts.mk(&Term{op: OLin, args: l.atoms, coefs: l.coefs, k: l.k, lo: lo, hi: hi}, key)
}

func (ts *Terms) addScaled(a, b *Term, c *big.Int) *Term { // a + c*b
	if a.small && b.small && c.IsInt64() {
		ci := c.Int64()
		if ci == 1 {
			s := a.i64 + b.i64
			if (s > a.i64) == (b.i64 > 0) {
				return ts.Int(s)
			}
		} else if ci == -1 {
			s := a.i64 - b.i64
			if (s < a.i64) == (b.i64 > 0) {
				return ts.Int(s)
			}
		}
	}
	if len(ts.rats) > 0 {
		if ra, ok := ts.ratOf(a); ok {
			if rb, ok := ts.ratOf(b); ok && sameAtoms(ra.d, rb.d) {
				return ts.setRat(ts.addPlain(a, b, c), ts.addPlain(ra.n, rb.n, c), ra.d)
			}
		} else if rb, ok := ts.ratOf(b); ok && a.isConst() && a.k.Sign() == 0 {
			return ts.setRat(ts.addPlain(a, b, c), ts.addPlain(a, rb.n, c), rb.d)
		}
	}
	return ts.addPlain(a, b, c)
}

func (ts *Terms) addPlain(a, b *Term, c *big.Int) *Term {
	la, lb := ts.linOf(a), ts.linOf(b)
	r := linear{k: new(big.Int).Add(la.k, new(big.Int).Mul(c, lb.k))}
	i, j := 0, 0
	for i < len(la.atoms) || j < len(lb.atoms) {
		switch {
		case j >= len(lb.atoms) || (i < len(la.atoms) && la.atoms[i].id < lb.atoms[j].id):
			r.atoms = append(r.atoms, la.atoms[i])
			r.coefs = append(r.coefs, la.coefs[i])
			i++
		case i >= len(la.atoms) || lb.atoms[j].id < la.atoms[i].id:
			r.atoms = append(r.atoms, lb.atoms[j])
			r.coefs = append(r.coefs, new(big.Int).Mul(c, lb.coefs[j]))
			j++
		default:
			s := new(big.Int).Mul(c, lb.coefs[j])
			s.Add(s, la.coefs[i])
			if s.Sign() != 0 {
				r.atoms = append(r.atoms, la.atoms[i])
				r.coefs = append(r.coefs, s)
			}
			i++
			j++
		}
	}
	return ts.mkLin(r)
}

func (ts *Terms) Add(a, b *Term) *Term { return ts.addScaled(a, b, bigOne) }

var bigMinusOne = big.NewInt(-1)

func (ts *Terms) Sub(a, b *Term) *Term { return ts.addScaled(a, b, bigMinusOne) }
func (ts *Terms) Neg(a *Term) *Term    { return ts.addScaled(ts.Int(0), a, bigMinusOne) }
func (ts *Terms) Scale(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return ts.Int(0)
	}
	return ts.addScaled(ts.Int(0), a, c)
}

func mulBound(a, b *Term) (lo, hi *big.Int) {
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		first := true
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if first || p.Cmp(lo) < 0 {
					lo = p
				}
				if first || p.Cmp(hi) > 0 {
					hi = p
				}
				first = false
			}
		}
		return
	}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		return new(big.Int).Mul(a.lo, b.lo), nil
	}
	return nil, nil
}

func (ts *Terms) mulAtoms(a, b *Term) *Term { // a,b atoms (or monomials)
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == OMul {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	key := ids("M", fs...)
	if x, ok := ts.tab[key]; ok {
		return x
	}
	lo, hi := mulBound(a, b)
	if len(fs) == 2 && fs[0] == fs[1] && (lo == nil || lo.Sign() < 0) {
		lo = bigZero
	}
	return ts.mk(&Term{op: OMul, args: fs, lo: lo, hi: hi}, key)
}

func (ts *Terms) Mul(a, b *Term) *Term {
	if a.op == OIntConst {
		return ts.Scale(b, a.k)
	}
	if b.op == OIntConst {
		return ts.Scale(a, b.k)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) && !(b.op == OIte) {
		return ts.Ite(a.args[0], ts.Mul(a.args[1], b), ts.Mul(a.args[2], b))
	}
	if b.op == OIte && (b.args[1].isConst() || b.args[2].isConst()) && !(a.op == OIte) {
		return ts.Ite(b.args[0], ts.Mul(b.args[1], a), ts.Mul(b.args[2], a))
	}
	if len(ts.rats) > 0 {
		ra, aok := ts.ratOf(a)
		rb, bok := ts.ratOf(b)
		if aok || bok {
			d := sortAtoms(append(append([]*Term{}, ra.d...), rb.d...))
			return ts.setRat(ts.mulPlain(a, b), ts.Mul(ra.n, rb.n), d)
		}
	}
	return ts.mulPlain(a, b)
}

func (ts *Terms) mulPlain(a, b *Term) *Term {
	la, lb := ts.linOf(a), ts.linOf(b)
	r := ts.Int(0)
	for i, x := range la.atoms {
		for j, y := range lb.atoms {
			r = ts.addScaled(r, ts.mulAtoms(x, y), new(big.Int).Mul(la.coefs[i], lb.coefs[j]))
		}
		if lb.k.Sign() != 0 {
			r = ts.addScaled(r, x, new(big.Int).Mul(la.coefs[i], lb.k))
		}
	}
	if la.k.Sign() != 0 {
		r = ts.addScaled(r, b, la.k)
	}
	return r
}

// Div: SMT-LIB euclidean division (b != 0 is the caller's business).
func (ts *Terms) Div(a, b *Term) *Term {
	if b.op == OIntConst {
		if b.k.Sign() == 0 {
			panic("Div by constant zero")
		}
		if b.k.Cmp(bigOne) == 0 {
			return a
		}
		if a.op == OIntConst {
			return ts.Big(new(big.Int).Div(a.k, b.k))
		}
		// pull out the part divisible by b: (b*q + r) div b = q + r div b   (euclidean, any sign of b)
		la := ts.linOf(a)
		q := linear{k: bigZero}
		r := linear{k: bigZero}
		for i, x := range la.atoms {
			var m big.Int
			d, _ := new(big.Int).QuoRem(la.coefs[i], b.k, &m)
			if m.Sign() == 0 {
				q.atoms = append(q.atoms, x)
				q.coefs = append(q.coefs, d)
			} else {
				r.atoms = append(r.atoms, x)
				r.coefs = append(r.coefs, la.coefs[i])
			}
		}
		var kd, km big.Int
		kd.DivMod(la.k, b.k, &km)
		if len(q.atoms) > 0 || (kd.Sign() != 0) {
			q.k = &kd
			r.k = &km
			return ts.Add(ts.mkLin(q), ts.Div(ts.mkLin(r), b))
		}
		if a.lo != nil && a.hi != nil {
			l, h := new(big.Int).Div(a.lo, b.k), new(big.Int).Div(a.hi, b.k)
			if l.Cmp(h) == 0 {
				return ts.Big(l)
			}
		}
	}
	key := ids("/", a, b)
	if x, ok := ts.tab[key]; ok {
		return x
	}
	var lo, hi *big.Int
	if b.op == OIntConst && b.k.Sign() > 0 {
		if a.lo != nil {
			lo = new(big.Int).Div(a.lo, b.k)
		}
		if a.hi != nil {
			hi = new(big.Int).Div(a.hi, b.k)
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		lo = bigZero
		if a.hi != nil {
			hi = new(big.Int).Div(a.hi, b.lo)
		}
	}
	return ts.mk(&Term{op: ODiv, args: []*Term{a, b}, lo: lo, hi: hi}, key)
}

func (ts *Terms) Mod(a, b *Term) *Term {
	if b.op == OIntConst {
		// a - b*(a div b): keeps everything linear in one atom
		return ts.addScaled2(a, b.k)
	}
	key := ids("%", a, b)
	if x, ok := ts.tab[key]; ok {
		return x
	}
	var hi *big.Int
	if b.lo != nil && b.lo.Sign() > 0 && b.hi != nil {
		hi = new(big.Int).Sub(b.hi, bigOne)
	}
	return ts.mk(&Term{op: OMod, args: []*Term{a, b}, lo: bigZero, hi: hi}, key)
}

func (ts *Terms) addScaled2(a *Term, b *big.Int) *Term {
	if a.op == OIntConst {
		return ts.Big(new(big.Int).Mod(a.k, b))
	}
	la := ts.linOf(a)
	r := linear{k: new(big.Int).Mod(la.k, b)}
	for i, x := range la.atoms {
		m := new(big.Int).Mod(la.coefs[i], b)
		if m.Sign() == 0 {
			continue
		}
		r.atoms = append(r.atoms, x)
		r.coefs = append(r.coefs, m)
	}
	rt := ts.mkLin(r)
	if rt.op == OIntConst {
		return ts.Big(new(big.Int).Mod(rt.k, b))
	}
	bb := new(big.Int).Abs(b)
	if rt.lo != nil && rt.hi != nil && rt.lo.Sign() >= 0 && rt.hi.Cmp(bb) < 0 {
		return rt
	}
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(bb) < 0 {
		return a
	}
	key := ids("%", rt, ts.Big(b))
	if x, ok := ts.tab[key]; ok {
		return x
	}
	return ts.mk(&Term{op: OMod, args: []*Term{rt, ts.Big(b)}, lo: bigZero, hi: new(big.Int).Sub(bb, bigOne)}, key)
}

func sgnNonNeg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
func sgnNonPos(t *Term) bool { return t.hi != nil && t.hi.Sign() <= 0 }

// QuoT: Go's truncated division.
func (ts *Terms) QuoT(a, b *Term) *Term {
	if a.op == OIntConst && b.op == OIntConst {
		return ts.Big(new(big.Int).Quo(a.k, b.k))
	}
	if len(ts.rats) > 0 || b.op == OGcd {
		if r := ts.quoRat(a, b); r != nil {
			return r
		}
	}
	return ts.quoPlain(a, b)
}

func (ts *Terms) quoPlain(a, b *Term) *Term {
	if a.op == OIntConst && b.op == OIntConst {
		return ts.Big(new(big.Int).Quo(a.k, b.k))
	}
	if sgnNonNeg(a) {
		// euclidean division of a >= 0 truncates for every sign of b
		return ts.Div(a, b)
	}
	if sgnNonPos(a) {
		return ts.Neg(ts.Div(ts.Neg(a), b))
	}
	return ts.Ite(ts.Le(ts.Int(0), a), ts.Div(a, b), ts.Neg(ts.Div(ts.Neg(a), b)))
}

func (ts *Terms) RemT(a, b *Term) *Term {
	if a.op == OIntConst && b.op == OIntConst {
		return ts.Big(new(big.Int).Rem(a.k, b.k))
	}
	if sgnNonNeg(a) {
		return ts.Mod(a, b)
	}
	if sgnNonPos(a) {
		return ts.Neg(ts.Mod(ts.Neg(a), b))
	}
	return ts.Ite(ts.Le(ts.Int(0), a), ts.Mod(a, b), ts.Neg(ts.Mod(ts.Neg(a), b)))
}

// ---------- booleans

func (ts *Terms) Not(a *Term) *Term {
	switch a.op {
	case OBoolConst:
		return ts.Bool(!a.b)
	case ONot:
		return a.args[0]
	case OLe0: // !(x<=0) = x>=1 = 1-x<=0
		return ts.le0(ts.Sub(ts.Int(1), a.args[0]))
	case OAnd:
		n := make([]*Term, len(a.args))
		for i, x := range a.args {
			n[i] = ts.Not(x)
		}
		return ts.Or(n...)
	case OOr:
		n := make([]*Term, len(a.args))
		for i, x := range a.args {
			n[i] = ts.Not(x)
		}
		return ts.And(n...)
	}
	return ts.mk(&Term{op: ONot, isBool: true, args: []*Term{a}}, ids("!", a))
}

func (ts *Terms) nary(op Op, as []*Term) *Term {
	unit, zero := ts.T, ts.F
	p := "&"
	if op == OOr {
		unit, zero = ts.F, ts.T
		p = "|"
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	for _, x := range out {
		if seen[ts.Not(x).id] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return ts.mk(&Term{op: op, isBool: true, args: out}, ids(p, out...))
}

func (ts *Terms) And(as ...*Term) *Term { return ts.nary(OAnd, as) }
func (ts *Terms) Or(as ...*Term) *Term  { return ts.nary(OOr, as) }

func gcdAll(l linear) *big.Int {
	g := new(big.Int)
	for _, c := range l.coefs {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	return g
}

func (ts *Terms) le0(x *Term) *Term {
	if r, ok := ts.ratOf(x); ok { // the gcds are positive
		return ts.le0(r.n)
	}
	if x.op == OIntConst {
		return ts.Bool(x.k.Sign() <= 0)
	}
	if x.hi != nil && x.hi.Sign() <= 0 {
		return ts.T
	}
	if x.lo != nil && x.lo.Sign() > 0 {
		return ts.F
	}
	l := ts.linOf(x)
	if len(l.atoms) == 1 && l.atoms[0].op == OBitLen {
		// c*bitlen + k <= 0
		c, k := l.coefs[0], l.k
		y := l.atoms[0].args[0]
		if c.Sign() > 0 { // bitlen <= floor(-k/c)
			n := new(big.Int).Div(new(big.Int).Neg(k), c)
			return ts.bitLenLe(y, n)
		}
		// bitlen >= ceil(k/-c)  ==  !(bitlen <= ceil-1)
		mc := new(big.Int).Neg(c)
		n := new(big.Int).Add(k, mc)
		n.Sub(n, bigOne).Div(n, mc)
		n.Sub(n, bigOne)
		return ts.Not(ts.bitLenLe(y, n))
	}
	if g := gcdAll(l); g.Cmp(bigOne) > 0 {
		n := linear{atoms: l.atoms}
		for _, c := range l.coefs {
			n.coefs = append(n.coefs, new(big.Int).Quo(c, g))
		}
		// sum <= -k  ->  sum/g <= floor(-k/g)
		f := new(big.Int).Div(new(big.Int).Neg(l.k), g)
		n.k = f.Neg(f)
		x = ts.mkLin(n)
	}
	return ts.mk(&Term{op: OLe0, isBool: true, args: []*Term{x}}, ids("<=0", x))
}

func (ts *Terms) bitLenLe(y *Term, n *big.Int) *Term {
	if n.Sign() < 0 {
		return ts.F
	}
	if n.BitLen() > 20 {
		return ts.T
	}
	lim := new(big.Int).Lsh(bigOne, uint(n.Int64()))
	lim.Sub(lim, bigOne)
	return ts.And(ts.Le(y, ts.Big(lim)), ts.Le(ts.Big(new(big.Int).Neg(lim)), y))
}

func (ts *Terms) eq0(x *Term) *Term {
	if r, ok := ts.ratOf(x); ok {
		return ts.eq0(r.n)
	}
	if x.op == OIntConst {
		return ts.Bool(x.k.Sign() == 0)
	}
	if (x.hi != nil && x.hi.Sign() < 0) || (x.lo != nil && x.lo.Sign() > 0) {
		return ts.F
	}
	l := ts.linOf(x)
	if len(l.atoms) == 1 && l.atoms[0].op == OIte && l.atoms[0].args[1].isConst() && l.atoms[0].args[2].isConst() {
		it := l.atoms[0]
		ev := func(c *Term) *Term {
			return ts.eq0(ts.addScaled(ts.Big(l.k), c, l.coefs[0]))
		}
		return ts.IteB(it.args[0], ev(it.args[1]), ev(it.args[2]))
	}
	g := gcdAll(l)
	if new(big.Int).Mod(l.k, g).Sign() != 0 {
		return ts.F
	}
	if l.coefs[0].Sign() < 0 {
		g.Neg(g)
	}
	if g.Cmp(bigOne) != 0 {
		n := linear{atoms: l.atoms, k: new(big.Int).Quo(l.k, g)}
		for _, c := range l.coefs {
			n.coefs = append(n.coefs, new(big.Int).Quo(c, g))
		}
		x = ts.mkLin(n)
	}
	return ts.mk(&Term{op: OEq0, isBool: true, args: []*Term{x}}, ids("=0", x))
}

func (ts *Terms) Le(a, b *Term) *Term { return ts.le0(ts.Sub(a, b)) }
func (ts *Terms) Lt(a, b *Term) *Term {
	if len(ts.rats) > 0 {
		if r, ok := ts.ratOf(ts.Sub(a, b)); ok {
			return ts.le0(ts.Add(r.n, ts.Int(1)))
		}
	}
	return ts.le0(ts.Add(ts.Sub(a, b), ts.Int(1)))
}
func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.T
	}
	if a.isBool {
		if a.op == OBoolConst {
			if a.b {
				return b
			}
			return ts.Not(b)
		}
		if b.op == OBoolConst {
			return ts.Eq(b, a)
		}
		return ts.Or(ts.And(a, b), ts.And(ts.Not(a), ts.Not(b)))
	}
	return ts.eq0(ts.Sub(a, b))
}

func (ts *Terms) IteB(c, a, b *Term) *Term {
	if c.op == OBoolConst {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if a.isBool {
		return ts.IteB(c, a, b)
	}
	if c.op == OBoolConst {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	var lo, hi *big.Int
	if a.lo != nil && b.lo != nil {
		lo = a.lo
		if b.lo.Cmp(lo) < 0 {
			lo = b.lo
		}
	}
	if a.hi != nil && b.hi != nil {
		hi = a.hi
		if b.hi.Cmp(hi) > 0 {
			hi = b.hi
		}
	}
	return ts.mk(&Term{op: OIte, args: []*Term{c, a, b}, lo: lo, hi: hi}, ids("?", c, a, b))
}

func (ts *Terms) BV(name string, width int, a, b *Term) *Term {
	hi := new(big.Int).Lsh(bigOne, uint(width))
	hi.Sub(hi, bigOne)
	return ts.mk(&Term{op: OBV, name: name, width: width, args: []*Term{a, b}, lo: bigZero, hi: hi}, ids(fmt.Sprintf("B%s%d", name, width), a, b))
}

func (ts *Terms) BitLen(a *Term) *Term {
	if a.op == OIntConst {
		return ts.Int(int64(a.k.BitLen()))
	}
	var hi *big.Int
	if a.lo != nil && a.hi != nil {
		n := a.lo.BitLen()
		if m := a.hi.BitLen(); m > n {
			n = m
		}
		hi = big.NewInt(int64(n))
	}
	return ts.mk(&Term{op: OBitLen, args: []*Term{a}, lo: bigZero, hi: hi}, ids("bl", a))
}

// ---------- evaluation under a model (total: absent variables are 0/false)

type Model map[int]*big.Int // var id -> value (bools 0/1)

type evaluator struct {
	m    Model
	memo map[int]*big.Int
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func (e *evaluator) eval(t *Term) *big.Int {
	switch t.op {
	case OIntConst:
		return t.k
	case OBoolConst:
		return b2i(t.b)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r *big.Int
	switch t.op {
	case OVar:
		r = e.m[t.id]
		if r == nil {
			r = bigZero
			if t.lo != nil && t.lo.Sign() > 0 {
				r = t.lo
			} else if t.hi != nil && t.hi.Sign() < 0 {
				r = t.hi
			}
		}
	case OLin:
		r = new(big.Int).Set(t.k)
		var tmp big.Int
		for i, a := range t.args {
			r.Add(r, tmp.Mul(t.coefs[i], e.eval(a)))
		}
	case OMul:
		r = new(big.Int).Set(bigOne)
		for _, a := range t.args {
			r.Mul(r, e.eval(a))
		}
	case ODiv, OMod:
		a, b := e.eval(t.args[0]), e.eval(t.args[1])
		if b.Sign() == 0 {
			r = bigZero
		} else if t.op == ODiv {
			r = new(big.Int).Div(a, b)
		} else {
			r = new(big.Int).Mod(a, b)
		}
	case OIte:
		if e.eval(t.args[0]).Sign() != 0 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	case OLe0:
		r = b2i(e.eval(t.args[0]).Sign() <= 0)
	case OEq0:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	case ONot:
		r = b2i(e.eval(t.args[0]).Sign() == 0)
	case OAnd:
		r = bigOne
		for _, a := range t.args {
			if e.eval(a).Sign() == 0 {
				r = bigZero
				break
			}
		}
	case OOr:
		r = bigZero
		for _, a := range t.args {
			if e.eval(a).Sign() != 0 {
				r = bigOne
				break
			}
		}
	case OBV:
		a, b := e.eval(t.args[0]), e.eval(t.args[1])
		m := new(big.Int).Lsh(bigOne, uint(t.width))
		a, b = new(big.Int).Mod(a, m), new(big.Int).Mod(b, m)
		switch t.name {
		case "bvand":
			r = new(big.Int).And(a, b)
		case "bvor":
			r = new(big.Int).Or(a, b)
		case "bvxor":
			r = new(big.Int).Xor(a, b)
		default:
			panic("eval bv " + t.name)
		}
	case OGcd:
		r = new(big.Int).GCD(nil, nil, t.args[0].k, new(big.Int).Abs(e.eval(t.args[1])))
	case OBitLen:
		r = big.NewInt(int64(e.eval(t.args[0]).BitLen()))
	default:
		panic("eval")
	}
	e.memo[t.id] = r
	return r
}
