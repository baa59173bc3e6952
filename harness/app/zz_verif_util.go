package app

import (
	"encoding/json"
	"math/big"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
)

// ---------- F01: fraction arithmetic is exact

func vDen(name string) int64 {
	if rt.Thorough() {
		if d := rt.Conc(rt.Int64(name, -3, 30)); d != 0 {
			return d
		}
		return -100
	}
	ds := []int64{1, 2, 3, 10, 100, 1000, -1, -6}
	return ds[rt.Choose(name, len(ds))]
}

const vF = int64(1000000000000)

func Verif_F01_add() { vFracOp("add") }
func Verif_F01_sub() { vFracOp("sub") }
func Verif_F01_mul() { vFracOp("mul") }
func Verif_F01_div() { vFracOp("div") }
func Verif_F01_cmp() { vFracOp("cmp") }

func vFracOp(op string) {
	rt.Bound("denominators", "quick {1,2,3,10,100,1000,-1,-6}, thorough -3..30")
	rt.Bound("numerators", "|n| <= 10^12 (second operand of mul/div: 20 values)")
	b, d := vDen("b"), vDen("d")
	a := rt.Int64("a", -vF, vF)
	var c int64
	if op == "mul" || op == "div" {
		c = []int64{0, 1, -1, 2, 3, 5, -6, 7, 10, 12, 15, 21, -25, 99, 100, 101, 150, 1000, 1001, -999983}[rt.Choose("c", 20)]
	} else {
		c = rt.Int64("c", -vF, vF)
	}
	x, y := util.NewFraction(a, b), util.NewFraction(c, d)
	A, B, C, D := big.NewInt(a), big.NewInt(b), big.NewInt(c), big.NewInt(d)
	mul := func(p, q *big.Int) *big.Int { return new(big.Int).Mul(p, q) }
	ad, cb := mul(A, D), mul(C, B)
	var r util.Fraction
	var num, den *big.Int
	switch op {
	case "add":
		r, num, den = x.Add(y), new(big.Int).Add(ad, cb), mul(B, D)
	case "sub":
		r, num, den = x.Sub(y), new(big.Int).Sub(ad, cb), mul(B, D)
	case "mul":
		r, num, den = x.Mul(y), mul(A, C), mul(B, D)
	case "div":
		rt.Assume(c != 0)
		r, num, den = x.Div(y), ad, cb
	case "cmp":
		lt, eq, gt := ad.Cmp(cb) < 0, ad.Cmp(cb) == 0, ad.Cmp(cb) > 0
		neg, pos := a < 0, a > 0
		if (b < 0) != (d < 0) {
			lt, gt = gt, lt
		}
		if b < 0 {
			neg, pos = pos, neg
		}
		rt.Assert(x.LT(y) == lt, "less")
		rt.Assert(x.GT(y) == gt, "greater")
		rt.Assert(x.Equal(y) == eq, "equal")
		rt.Assert(x.LTE(y) == !gt, "less or equal")
		rt.Assert(x.GTE(y) == !lt, "greater or equal")
		rt.Assert(x.IsZero() == (a == 0), "zero")
		rt.Assert(x.IsNegative() == neg, "negative")
		rt.Assert(x.IsPositive() == pos, "positive")
		return
	}
	// whole part: truncation of the exact value towards zero
	rt.Assert(r.BigInt().Cmp(new(big.Int).Quo(num, den)) == 0, "whole part")
	rt.Assert(r.Reduce().BigInt().Cmp(new(big.Int).Quo(num, den)) == 0, "whole part of the reduced one")
	// the exact value: r * den is the integer num
	p := r.Mul(util.FractionInt(den.Int64()))
	rt.Assert(p.Reduce().BigInt().Cmp(num) == 0, "exact value")
	rt.Assert(p.Sub(util.NewFraction(num.Int64(), 1)).IsZero(), "no remainder")
	// operands keep their values
	rt.Assert(x.Equal(util.NewFraction(a, b)), "left operand")
	rt.Assert(y.Equal(util.NewFraction(c, d)), "right operand")
}

// Fractions derived from others do not share their numbers.
func Verif_F01_neg() {
	b := vDen("b")
	a := rt.Int64("a", -vF, vF)
	x := util.NewFraction(a, b)
	var r util.Fraction
	num := big.NewInt(a)
	switch rt.Choose("op", 4) {
	case 0:
		r = x.Neg()
		num.Neg(num)
	case 1:
		r = x.Clone()
	case 2:
		r = x.MulInt64(-3)
		num.Mul(num, big.NewInt(-3))
	case 3:
		r = x.DivInt64(-1)
		num.Neg(num)
	}
	check := func() {
		rt.Assert(x.BigInt().Cmp(new(big.Int).Quo(big.NewInt(a), big.NewInt(b))) == 0, "operand")
		rt.Assert(x.Equal(util.NewFraction(a, b)), "operand")
		rt.Assert(x.IsNegative() == (a < 0) != (b < 0) || a == 0, "operand")
		rt.Assert(r.MulInt64(b).BigInt().Cmp(num) == 0, "exact value")
	}
	check()
	r.Reduce()
	check()
	x.Reduce()
	check()
}

// ---------- F02: text forms

func Verif_F02_roundtrip() {
	rt.Decimals(true)
	rt.Bound("numerators", "|n| < 10^6")
	ds := []int64{1, 2, 30, 99, 100, 101, 1000}
	b := ds[rt.Choose("b", len(ds))]
	a := rt.Int64("a", -999999, 999999)
	x := util.NewFraction(a, b)
	same := func(y util.Fraction, err error, what string) {
		rt.Assert(err == nil, what+" fails")
		// a/b == y exactly
		z := y.Mul(util.FractionInt(b)).Reduce()
		rt.Assert(z.BigInt().Cmp(big.NewInt(a)) == 0, what+" changes the value")
		rt.Assert(y.Sub(x).IsZero(), what+" changes the value slightly")
	}
	y, err := util.ParseFraction(x.String())
	same(y, err, "text")
	bz := make([]byte, x.Size())
	n, err := x.MarshalTo(bz)
	rt.Assert(err == nil && n == len(bz), "size")
	var z util.Fraction
	err = z.Unmarshal(bz)
	same(z, err, "protobuf field")
	s, err := x.MarshalAmino()
	rt.Assert(err == nil, "amino")
	var w util.Fraction
	err = w.UnmarshalAmino(s)
	same(w, err, "amino text")
}

func Verif_F02_json() {
	ds := []int64{1, 2, 100, 101}
	b := ds[rt.Choose("b", len(ds))]
	as := []int64{0, 1, -1, 7, -100, 123456789012, -99}
	a := as[rt.Choose("a", len(as))]
	x := util.NewFraction(a, b)
	bz, err := json.Marshal(x.String())
	rt.Assert(err == nil, "string")
	bz2, err := x.MarshalJSON()
	rt.Assert(err == nil && string(bz) == string(bz2), "json is the quoted text")
}

// Every text that is accepted denotes a number.
func Verif_F02_parse() {
	pre, suf := 4, 1
	if rt.Thorough() {
		pre, suf = 6, 2
	}
	rt.Bound("text length", "quick: <= 4 arbitrary ASCII characters before a slash, <= 1 after it (of 0-9, %, -, /, x); thorough: 6 and 2")
	s := rt.String("s", rt.Choose("len", pre+1))
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] != '/')
	}
	if rt.Choose("slash", 2) == 1 {
		s += "/"
		const alphabet = "0123456789%-/x"
		for n := rt.Choose("suffix", suf+1); n > 0; n-- {
			s += string(alphabet[rt.Choose("char", len(alphabet))])
		}
	}
	x, err := util.ParseFraction(s)
	if err != nil {
		return
	}
	if x.IsNullValue() {
		rt.Assert(rt.Or(s == "", s == "nil"), "null only from an empty text")
		return
	}
	rt.Cover("number")
	// the number it spells in decimal notation
	num, den, seen := int64(0), int64(0), 0
	neg, slash, pct := false, false, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case rt.Fork(c == '-'):
			rt.Assert(i == 0, "sign first")
			neg = true
		case rt.Fork(c == '/'):
			rt.Assert(!slash && !pct && seen > 0, "slash after digits")
			slash, seen = true, 0
		case rt.Fork(c == '%'):
			rt.Assert(!slash && i == len(s)-1 && seen > 0, "percent sign at the end")
			pct = true
		default:
			rt.Assert(rt.And(c >= '0', c <= '9'), "digit")
			seen++
			if slash {
				den = den*10 + int64(c-'0')
			} else {
				num = num*10 + int64(c-'0')
			}
		}
	}
	rt.Assert(seen > 0, "digits")
	if neg {
		num = -num
	}
	if pct {
		den = 100
	} else if !slash {
		den = 1
	}
	rt.Assert(den > 0, "positive denominator")
	rt.Assert(x.Equal(util.NewFraction(num, den)), "the number it spells")
	// arithmetic and conversion never fail on an accepted number
	v := x.Int64()
	y := x.Add(util.FractionInt(1)).Int64()
	rt.Assert(rt.Or(y == v+1, y == v), "successor")
}

// ---------- B01: the transaction fee and its split

func Verif_B01_fee() {
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	// the shares, as pairs of ratios
	type pair struct{ pn, pd, cn, cd int64 }
	ps := []pair{{15, 100, 5, 100}, {1, 3, 1, 2}, {0, 1, 0, 1}, {1, 1, 0, 1}, {33, 100, 67, 100}, {2, 4, 25, 100}, {1, 7, 1, 3},
		{3, 10, 1, 1000}, {1, 2, 1, 2}, {99, 100, 1, 100}, {7, 30, 2, 3}, {3, 2, 0, 1}}
	if rt.Thorough() {
		for _, pd := range []int64{1, 2, 3, 4, 6, 7, 10, 30, 100} {
			for _, cd := range []int64{1, 2, 3, 5, 10, 12, 15, 100} {
				for _, pn := range []int64{0, 1, pd / 2, pd - 1, pd} {
					ps = append(ps, pair{pn, pd, 1, cd}, pair{pn, pd, cd / 3, cd}, pair{pn, pd, cd * (pd - pn) / pd, cd})
				}
			}
		}
	}
	rt.Bound("split ratios", "quick: 12 pairs of ratios; thorough: about 1000 pairs with denominators up to 100")
	rt.Bound("fee rate", "0, 1/1000, 3/1000, 15%, 1/3, 1; limit: any up to 10^12")
	pr := ps[rt.Choose("ratios", len(ps))]
	pn, pd, cn, cd := pr.pn, pr.pd, pr.cn, pr.cd
	rates := [][2]int64{{0, 1}, {1, 1000}, {3, 1000}, {15, 100}, {1, 3}, {1, 1}}
	ri := rt.Choose("rate", len(rates))
	fn, fd := rates[ri][0], rates[ri][1]
	bp.TransactionFee = util.NewFraction(fn, fd)
	bp.MaxTransactionFee = rt.Int64("max", -100, 1000000000000)
	bp.TransactionFeeSplitRatios.ForProposer = util.NewFraction(pn, pd)
	bp.TransactionFeeSplitRatios.ForCompany = util.NewFraction(cn, cd)
	if bp.Validate() != nil {
		return // only configurations the chain accepts
	}
	amt := vInt("amt", "0", "9000000000000000")
	fee := util.CalculateFee(amt, bp.TransactionFee, bp.MaxTransactionFee, bp.TransactionFeeSplitRatios.ForProposer, bp.TransactionFeeSplitRatios.ForCompany)
	rt.Assert(!fee.IsNegative(), "fee is not negative")
	rt.Assert(fee.MulRaw(fd).LTE(amt.MulRaw(fn)), "fee is at most the rate")
	if bp.MaxTransactionFee > 0 {
		rt.Assert(fee.LTE(sdk.NewInt(bp.MaxTransactionFee)), "fee is at most the limit")
	}
	// never less than the rate (or the limit) by a hundred or more
	low := amt.MulRaw(fn).QuoRaw(fd).SubRaw(100)
	if bp.MaxTransactionFee > 0 {
		low = sdk.MinInt(low, sdk.NewInt(bp.MaxTransactionFee).SubRaw(100))
	}
	rt.Assert(fee.GT(low), "fee is not below the rate and the limit by more than rounding")
	p, c, b := util.SplitFee(fee, bp.TransactionFeeSplitRatios.ForProposer, bp.TransactionFeeSplitRatios.ForCompany)
	rt.Assert(p.Add(c).Add(b).Equal(fee), "shares add up")
	rt.Assert(!p.IsNegative() && !c.IsNegative() && !b.IsNegative(), "shares are not negative")
	rt.Assert(p.MulRaw(pd).Equal(fee.MulRaw(pn)), "proposer share is exact")
	rt.Assert(c.MulRaw(cd).Equal(fee.MulRaw(cn)), "company share is exact")
	rt.Cover("fee")
}
