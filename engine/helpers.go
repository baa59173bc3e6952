package main

import (
	"crypto/sha256"
	"go/token"
	"math"
	"math/big"
	"regexp"
	"regexp/syntax"
	"sync"
)

const tokLSS = token.LSS

func sumTruncated(b []byte) []byte { h := sha256.Sum256(b); return h[:20] }

func (h *Harness) cover(l string)    { h.mu.Lock(); h.covered[l]++; h.mu.Unlock() }
func (h *Harness) bound(k, v string) { h.mu.Lock(); h.bounds[k] = v; h.mu.Unlock() }

type regexV struct{ pat string }

var regexCache sync.Map

func (r regexV) get() *regexp.Regexp {
	if x, ok := regexCache.Load(r.pat); ok {
		return x.(*regexp.Regexp)
	}
	x := regexp.MustCompile(r.pat)
	regexCache.Store(r.pat, x)
	return x
}

// regexSym: backtracking match of a regular expression against (ASCII) symbolic bytes with leftmost-first priority.
func (w *Worker) regexSym(pat string, b []*Term) []int {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsupported("regexp %s", pat))
	}
	ncap := re.MaxCap()
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsupported("regexp %s", pat))
	}
	var run func(pc uint32, pos int, caps []int) []int
	run = func(pc uint32, pos int, caps []int) []int {
		for {
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				return caps
			case syntax.InstFail:
				return nil
			case syntax.InstNop:
				pc = in.Out
			case syntax.InstCapture:
				caps = append([]int{}, caps...)
				if int(in.Arg) < len(caps) {
					caps[in.Arg] = pos
				}
				pc = in.Out
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				ok := true
				if op&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
					ok = false
				}
				if op&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != len(b) {
					ok = false
				}
				if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
					panic(unsupported("word boundary in a regexp"))
				}
				if !ok {
					return nil
				}
				pc = in.Out
			case syntax.InstAlt, syntax.InstAltMatch:
				if r := run(in.Out, pos, caps); r != nil {
					return r
				}
				pc = in.Arg
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				if pos >= len(b) {
					return nil
				}
				if !w.branch(w.runeCond(in, b[pos])) {
					return nil
				}
				pos++
				pc = in.Out
			}
		}
	}
	caps := make([]int, 2*(ncap+1))
	for i := range caps {
		caps[i] = -1
	}
	for s := 0; s <= len(b); s++ {
		c := append([]int{}, caps...)
		c[0] = s
		if r := run(uint32(prog.Start), s, c); r != nil {
			return r
		}
	}
	return nil
}

func (w *Worker) runeCond(in *syntax.Inst, c *Term) *Term {
	switch in.Op {
	case syntax.InstRuneAny:
		return w.ts.T
	case syntax.InstRuneAnyNotNL:
		return w.ts.Not(w.ts.Eq(c, w.ts.Int('\n')))
	}
	rs := in.Rune
	if len(rs) == 1 {
		return w.ts.Eq(c, w.ts.Int(int64(rs[0])))
	}
	r := w.ts.F
	for i := 0; i+1 < len(rs); i += 2 {
		r = w.ts.Or(r, w.ts.And(w.ts.Le(w.ts.Int(int64(rs[i])), c), w.ts.Le(c, w.ts.Int(int64(rs[i+1])))))
	}
	return r
}

func (w *Worker) regexMatch(rv, s value) value {
	re := (*(rv.(*value))).(regexV)
	if x, ok := s.(string); ok {
		return w.ts.Bool(re.get().MatchString(x))
	}
	return w.ts.Bool(w.regexSym(re.pat, w.strBytes(s)) != nil)
}

func (w *Worker) regexSubmatch(rv, s value) value {
	re := (*(rv.(*value))).(regexV)
	if x, ok := s.(string); ok {
		m := re.get().FindStringSubmatch(x)
		if m == nil {
			return []value(nil)
		}
		var r []value
		for _, y := range m {
			r = append(r, y)
		}
		return r
	}
	b := w.strBytes(s)
	caps := w.regexSym(re.pat, b)
	if caps == nil {
		return []value(nil)
	}
	var r []value
	for i := 0; i+1 < len(caps); i += 2 {
		if i == 0 {
			e := caps[1]
			if e < 0 {
				e = len(b)
			}
			r = append(r, w.mkStr(b[caps[0]:e]))
			continue
		}
		if caps[i] < 0 || caps[i+1] < 0 {
			r = append(r, "")
			continue
		}
		r = append(r, w.mkStr(b[caps[i]:caps[i+1]]))
	}
	return r
}

// decDigits: the decimal rendering of a bounded symbolic integer, splitting on its sign and number of digits.
func (w *Worker) decDigits(t *Term) value {
	var out []*Term
	ts := w.ts
	if w.branch(ts.Lt(t, ts.Int(0))) {
		out = append(out, ts.Int('-'))
		t = ts.Neg(t)
	}
	n := 1
	p := big.NewInt(10)
	for !w.branch(ts.Lt(t, ts.Big(p))) {
		n++
		p = new(big.Int).Mul(p, big.NewInt(10))
		if n > 20 {
			panic(unsupported("decimal rendering of a large symbolic integer"))
		}
	}
	// digits as fresh variables tied to t: t = sum d_i 10^i
	sum := ts.Int(0)
	for i := 0; i < n; i++ {
		d := w.freshVar("digit", bigZero, big.NewInt(9))
		sum = ts.Add(ts.Scale(sum, big.NewInt(10)), d)
		out = append(out, ts.Add(d, ts.Int('0')))
	}
	w.assumeDef(ts.Eq(sum, t))
	return w.mkStr(out)
}

// logFloor: int64(math.Log(float64(t))) as an if-then-else chain over the exact thresholds of the native function.
func (w *Worker) logFloor(t *Term) *Term {
	ts := w.ts
	minInt, _ := intRange(64, true)
	r := ts.Big(minInt) // amd64 conversion of -Inf and NaN
	r = ts.Ite(ts.Le(ts.Int(1), t), ts.Int(0), r)
	for k := int64(1); k <= 43; k++ {
		lo, hi := int64(1), int64(math.MaxInt64)
		for lo < hi {
			m := lo + (hi-lo)/2
			if int64(math.Log(float64(m))) >= k {
				hi = m
			} else {
				lo = m + 1
			}
		}
		r = ts.Ite(ts.Le(ts.Int(lo), t), ts.Int(k), r)
	}
	return r
}
