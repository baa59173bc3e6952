package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Exact rationals behind integer terms. Fractions are kept reduced by the code under test, i.e. numerators and
// denominators are divided by gcd(constant, x), which is hard for solvers. Terms known to be exactly N / (g1*g2*...)
// for gcd atoms gi carry that form, and the gcds are cancelled wherever an operation allows it; what is left is emitted
// as written.

type ratInfo struct {
	n *Term
	d []*Term // gcd atoms, sorted by id
}

func (ts *Terms) ratOf(t *Term) (ratInfo, bool) {
	r, ok := ts.rats[t.id]
	if !ok {
		return ratInfo{n: t}, false
	}
	return r, true
}

func (ts *Terms) setRat(t, n *Term, d []*Term) *Term {
	if len(d) > 0 && !t.isConst() {
		if _, ok := ts.rats[t.id]; !ok {
			ts.rats[t.id] = ratInfo{n, d}
		}
	}
	return t
}

func sameAtoms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sortAtoms(a []*Term) []*Term {
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	return a
}

func cancelAtoms(a, b []*Term) (ra, rb []*Term) {
	used := make([]bool, len(b))
outer:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && x == y {
				used[j] = true
				continue outer
			}
		}
		ra = append(ra, x)
	}
	for j, y := range b {
		if !used[j] {
			rb = append(rb, y)
		}
	}
	return
}

// Gcd of a positive constant and a term.
func (ts *Terms) Gcd(c *big.Int, x *Term) *Term {
	c = new(big.Int).Abs(c)
	if x.isConst() {
		return ts.Big(new(big.Int).GCD(nil, nil, c, new(big.Int).Abs(x.k)))
	}
	if c.Cmp(bigOne) == 0 {
		return ts.Int(1)
	}
	l := ts.linOf(x)
	g := gcdAll(l)
	g.GCD(nil, nil, g, new(big.Int).Abs(l.k))
	if new(big.Int).Mod(g, c).Sign() == 0 {
		return ts.Big(c)
	}
	return ts.mk(&Term{op: OGcd, args: []*Term{ts.Big(c), x}, lo: bigOne, hi: c}, ids("gcd", ts.Big(c), x))
}

// divides: the gcd atom g certainly divides n.
func (ts *Terms) divides(g, n *Term) bool {
	c, x := g.args[0].k, g.args[1]
	if n.isConst() {
		return new(big.Int).Mod(n.k, c).Sign() == 0
	}
	if n == x {
		return true
	}
	ln, lx := ts.linOf(n), ts.linOf(x)
	// n = q*x + (multiple of c)?
	if len(ln.atoms) == len(lx.atoms) {
		var q big.Int
		q.Quo(ln.coefs[0], lx.coefs[0])
		ok := true
		for i := range ln.atoms {
			if ln.atoms[i] != lx.atoms[i] || new(big.Int).Mul(&q, lx.coefs[i]).Cmp(ln.coefs[i]) != 0 {
				ok = false
			}
		}
		if ok {
			d := new(big.Int).Sub(ln.k, new(big.Int).Mul(&q, lx.k))
			return d.Mod(d, c).Sign() == 0
		}
	}
	return false
}

type primePower struct {
	p *big.Int
	k int
}

// factors: the prime powers of a positive n when they are easy to find.
func factors(n *big.Int) ([]primePower, bool) {
	if n.Sign() <= 0 || n.BitLen() > 160 {
		return nil, false
	}
	m := new(big.Int).Set(n)
	var fs []primePower
	q, r := new(big.Int), new(big.Int)
	for p := int64(2); p < 1<<16; p++ {
		bp := big.NewInt(p)
		if m.IsInt64() && p*p > m.Int64() {
			break
		}
		k := 0
		for {
			q.QuoRem(m, bp, r)
			if r.Sign() != 0 {
				break
			}
			m.Set(q)
			k++
		}
		if k > 0 {
			fs = append(fs, primePower{bp, k})
		}
	}
	if m.Cmp(bigOne) > 0 {
		if !m.ProbablyPrime(20) {
			return nil, false
		}
		fs = append(fs, primePower{m, 1})
	}
	return fs, true
}

// gcdFormula writes gcd(c, x), a product over the primes of c.
func gcdFormula(c *big.Int, x string) string {
	fs, _ := factors(c)
	var parts []string
	for _, f := range fs {
		var sb strings.Builder
		pw := new(big.Int).Exp(f.p, big.NewInt(int64(f.k)), nil)
		for i := f.k; i > 0; i-- {
			fmt.Fprintf(&sb, "(ite (= (mod %s %s) 0) %s ", x, pw, pw)
			pw = new(big.Int).Quo(pw, f.p)
		}
		sb.WriteString("1" + strings.Repeat(")", f.k))
		parts = append(parts, sb.String())
	}
	switch len(parts) {
	case 0:
		return "1"
	case 1:
		return parts[0]
	}
	return "(* " + strings.Join(parts, " ") + ")"
}

// quoRat: the exact quotient forms of a / b; nil when there is nothing to gain.
func (ts *Terms) quoRat(a, b *Term) *Term {
	ra, aok := ts.ratOf(a)
	rb, bok := ts.ratOf(b)
	if !aok && !bok && b.op != OGcd {
		return nil
	}
	da := append([]*Term{}, ra.d...)
	db := append([]*Term{}, rb.d...)
	na, nb := ra.n, rb.n
	if nb.op == OGcd {
		da = append(da, nb)
		nb = ts.Int(1)
	}
	if na.op == OGcd {
		db = append(db, na)
		na = ts.Int(1)
	}
	da, db = cancelAtoms(da, db)
	if len(db) == 1 && na.isConst() && na.k.Cmp(bigOne) == 0 { // put a lone gcd numerator back
		na, db = db[0], nil
	}
	if len(db) > 0 {
		return nil
	}
	if len(da) == 0 {
		if nb.isConst() && nb.k.Cmp(bigOne) == 0 {
			return na
		}
		if na.op == OGcd {
			return ts.quoPlain(na, nb)
		}
		return ts.QuoT(na, nb)
	}
	if len(da) != 1 {
		return nil
	}
	n := na
	if !(nb.isConst() && nb.k.Cmp(bigOne) == 0) {
		if !nb.isConst() || nb.k.Sign() == 0 {
			return nil
		}
		l := ts.linOf(na)
		q := linear{atoms: l.atoms, k: new(big.Int)}
		var m big.Int
		q.k.QuoRem(l.k, nb.k, &m)
		if m.Sign() != 0 {
			return nil
		}
		for _, c := range l.coefs {
			d := new(big.Int)
			d.QuoRem(c, nb.k, &m)
			if m.Sign() != 0 {
				return nil
			}
			q.coefs = append(q.coefs, d)
		}
		n = ts.mkLin(q)
	}
	if !ts.divides(da[0], n) {
		return nil
	}
	return ts.setRat(ts.quoPlain(n, da[0]), n, da)
}

// gcdRat: gcd(N1/D, N2/D) = gcd(N1, N2)/D.
func (ts *Terms) gcdRat(a, b *Term, gcd func(a, b *Term) *Term) *Term {
	ra, aok := ts.ratOf(a)
	rb, bok := ts.ratOf(b)
	if !aok || !bok || !sameAtoms(ra.d, rb.d) || len(ra.d) != 1 {
		return nil
	}
	g := gcd(ra.n, rb.n)
	if g == ra.d[0] {
		return ts.Int(1)
	}
	return ts.setRat(ts.quoPlain(g, ra.d[0]), g, ra.d)
}
