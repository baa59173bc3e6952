package app

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/delegating"
	delegatingKeeper "github.com/arterynetwork/artr/x/delegating/keeper"
	delegatingTypes "github.com/arterynetwork/artr/x/delegating/types"
	profileTypes "github.com/arterynetwork/artr/x/profile/types"
)

const vDay = 24 * time.Hour

// vProfile gives account i a profile, with a paid subscription or without one.
func vProfile(i int, active bool) {
	p := profileTypes.Profile{}
	if active {
		t := vT0.Add(1000 * vDay)
		p.ActiveUntil = &t
	}
	vMust(vApp.GetProfileKeeper().SetProfile(vCtx, vAddr(i), p))
}

func vDelegate(i int, amt sdk.Int) error {
	msg := &delegatingTypes.MsgDelegate{Address: vAcc(i), MicroCoins: amt}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	return vTx(func(ctx sdk.Context) error {
		_, err := delegatingKeeper.NewMsgServer(vApp.GetDelegatingKeeper()).Delegate(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vRevoke(i int, amt sdk.Int, express bool) error {
	s := delegatingKeeper.NewMsgServer(vApp.GetDelegatingKeeper())
	if express {
		msg := &delegatingTypes.MsgExpressRevoke{Address: vAcc(i), MicroCoins: amt}
		if err := msg.ValidateBasic(); err != nil {
			return err
		}
		return vTx(func(ctx sdk.Context) error {
			_, err := s.ExpressRevoke(sdk.WrapSDKContext(ctx), msg)
			return err
		})
	}
	msg := &delegatingTypes.MsgRevoke{Address: vAcc(i), MicroCoins: amt}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	return vTx(func(ctx sdk.Context) error {
		_, err := s.Revoke(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

// vDust sets the amount that is too small for interest.
func vDust(lo, hi int64) sdk.Int {
	bk := vApp.GetBankKeeper()
	bp := bk.GetParams(vCtx)
	bp.DustDelegation = rt.Int64("dust", lo, hi)
	bk.SetParams(vCtx, bp)
	return sdk.NewInt(bp.DustDelegation)
}

// vNoFee makes transactions free.
func vNoFee() {
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	bp.TransactionFee = util.FractionZero()
	vApp.GetBankKeeper().SetParams(vCtx, bp)
}

// vAccrualTasks counts the accruals scheduled for account i at time t.
func vAccrualTasks(i int, t time.Time) int {
	n := 0
	for _, x := range vApp.GetScheduleKeeper().GetTasks(vCtx, t, t.Add(1)) {
		if x.HandlerName == delegatingTypes.AccrueHookName && sdk.AccAddress(x.Data).Equals(vAddr(i)) {
			n++
		}
	}
	return n
}

func vAllAccrualTasks(i int) int {
	n := 0
	for _, x := range vApp.GetScheduleKeeper().GetTasks(vCtx, vT0, vT0.Add(10000*vDay)) {
		if x.HandlerName == delegatingTypes.AccrueHookName && sdk.AccAddress(x.Data).Equals(vAddr(i)) {
			n++
		}
	}
	return n
}

// ---------- D01: delegating exchanges coins one for one, less the fee

func Verif_D01_delegate() {
	vTop(1)
	vTop(2)
	vProfile(1, false)
	x, d, r := vInt("x", "0", vMaxCoins), vInt("d", "0", vMaxCoins), vInt("r", "0", vMaxCoins)
	y := vInt("y", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, r))
	vFund(vAddr(2), vCoins(y, y, sdk.ZeroInt()))
	cfg, max := vFeeParams()
	dust := vDust(0, 1000000000)
	dp := vApp.GetDelegatingKeeper().GetParams(vCtx)
	dp.MinDelegate = rt.Int64("min", 1, 1000000)
	vApp.GetDelegatingKeeper().SetParams(vCtx, dp)
	amt := vInt("amt", "-5", vMaxCoins)
	vCtx = vCtx.WithBlockTime(vT0.Add(time.Second))
	err := vDelegate(1, amt)
	x2, d2, r2, c2 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd), vBal(vCtx, vAddr(1), uartrr), vBal(vCtx, vCollector(), uartr)
	rt.Assert(r2.Equal(r), "coins being revoked stay")
	rt.Assert(rt.And(vBal(vCtx, vAddr(2), uartr).Equal(y), vBal(vCtx, vAddr(2), uartrd).Equal(y)), "bystanders keep theirs")
	if err == nil {
		fee := vFee(amt, cfg, max)
		rt.Assert(x2.Equal(x.Sub(amt)), "the delegator pays the amount")
		rt.Assert(c2.Equal(fee), "the fee is collected")
		rt.Assert(d2.Equal(d.Add(amt).Sub(fee)), "the rest is delegated")
		rt.Assert(amt.GTE(sdk.NewInt(dp.MinDelegate)), "at least the minimum")
		vSupplyHolds("delegate")
		next := vCtx.BlockTime().Add(vDay)
		rec := vApp.GetDelegatingKeeper().Get(vCtx, vAddr(1))
		if rt.Fork(d2.GT(dust)) {
			rt.Assert(vAccrualTasks(1, next) == 1 && rec != nil && rec.NextAccrue != nil && rec.NextAccrue.Equal(next), "the first accrual is in a day")
		} else {
			rt.Assert(rec == nil || rec.NextAccrue == nil, "no accrual on dust")
			rt.Assert(vAllAccrualTasks(1) == 0, "no accrual on dust")
		}
		rt.Cover("ok")
	} else {
		rt.Assert(rt.And(x2.Equal(x), d2.Equal(d), c2.IsZero()), "a failed delegation changes nothing")
		rt.Assert(rt.Or(amt.LT(sdk.NewInt(dp.MinDelegate)), x.LT(amt)), "a funded delegation does not fail")
		rt.Cover("err")
	}
}

// ---------- D02: revoking

// vRevokeParams picks the terms of revoking.
func vRevokeParams(n int) (burnN, burnD [2]int64, period [2]int64) {
	dk := vApp.GetDelegatingKeeper()
	dp := dk.GetParams(vCtx)
	cs := [][2][3]int64{{{14, 5, 100}, {7, 10, 100}}, {{2, 1, 3}, {5, 1, 7}}, {{3, 0, 1}, {2, 1, 1}}}
	c := cs[rt.Choose("revoke params", n)]
	dp.Revoke = delegatingTypes.Revoke{Period: uint32(c[0][0]), Burn: util.NewFraction(c[0][1], c[0][2])}
	dp.ExpressRevoke = delegatingTypes.Revoke{Period: uint32(c[1][0]), Burn: util.NewFraction(c[1][1], c[1][2])}
	dk.SetParams(vCtx, dp)
	rt.Bound("revoking terms", "2 or 3 combinations of period and burnt share, one of them the default")
	return [2]int64{c[0][1], c[1][1]}, [2]int64{c[0][2], c[1][2]}, [2]int64{c[0][0], c[1][0]}
}

func Verif_D02_revoke() {
	vTop(1)
	vProfile(1, false)
	x, d, r := vInt("x", "0", vMaxCoins), vInt("d", "0", vMaxCoins), vInt("r", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, r))
	bn, bd, per := vRevokeParams(3)
	dust := vDust(0, 1000000000)
	e := rt.Choose("express", 2)
	amt := vInt("amt", "-5", vMaxCoins)
	vCtx = vCtx.WithBlockTime(vT0.Add(time.Second))
	err := vRevoke(1, amt, e == 1)
	x2, d2, r2 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd), vBal(vCtx, vAddr(1), uartrr)
	rt.Assert(x2.Equal(x), "nothing is paid out at once")
	if err != nil {
		rt.Assert(rt.And(d2.Equal(d), r2.Equal(r)), "a failed revoking changes nothing")
		rt.Assert(rt.Or(!amt.IsPositive(), amt.GT(d)), "what is delegated can be revoked")
		rt.Cover("err")
		return
	}
	rt.Assert(rt.And(amt.IsPositive(), amt.LTE(d)), "no more than is delegated")
	back := amt.Sub(amt.MulRaw(bn[e]).QuoRaw(bd[e]))
	rt.Assert(rt.And(d2.Equal(d.Sub(amt)), r2.Equal(r.Add(back))), "the amount less the burnt share is being revoked")
	vSupplyHolds("revoke")
	due := vCtx.BlockTime().Add(time.Duration(per[e]) * vDay)
	reqs := vApp.GetDelegatingKeeper().GetRevoking(vCtx, vAddr(1))
	rt.Assert(len(reqs) == 1 && reqs[0].Time.Equal(due) && reqs[0].Amount.Equal(back), "one request with the amount and the time")
	rec := vApp.GetDelegatingKeeper().Get(vCtx, vAddr(1))
	if rt.Fork(d2.GT(dust)) {
		next := vCtx.BlockTime().Add(vDay)
		rt.Assert(rec.NextAccrue != nil && rec.NextAccrue.Equal(next) && vAccrualTasks(1, next) == 1, "the rest goes on accruing")
	} else {
		rt.Assert(rec.NextAccrue == nil && vAllAccrualTasks(1) == 0, "dust does not accrue")
	}
	rt.Cover("ok")
}

// Requests are paid in full, each at its time, whatever their order.
func Verif_D02_payout() {
	vTop(1)
	n := 2
	if rt.Thorough() {
		n = 3
	}
	rt.Bound("history", "quick 2, thorough 3 requests, usual or express, 0 or 7 days apart; blocks at and around the due times")
	d, r0 := vInt("d", "0", vMaxCoins), vInt("r", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(sdk.ZeroInt(), d, r0))
	vDust(2000000000000000, 2000000000000000) // no accruals here
	bn, bd, per := vRevokeParams(2)
	var due []time.Time
	var back []sdk.Int
	t := vT0
	for i := 0; i < n; i++ {
		if i > 0 {
			t = t.Add([]time.Duration{0, 7 * vDay, time.Hour}[rt.Choose("gap", 2)])
		}
		vTick(t)
		e := rt.Choose("express", 2)
		amt := vInt("amt", "1", vMaxCoins)
		if vRevoke(1, amt, e == 1) != nil {
			return // D02_revoke
		}
		due = append(due, t.Add(time.Duration(per[e])*vDay))
		back = append(back, amt.Sub(amt.MulRaw(bn[e]).QuoRaw(bd[e])))
	}
	check := func(now time.Time) {
		if now.Before(vCtx.BlockTime()) {
			return
		}
		vTick(now)
		paid, left := sdk.ZeroInt(), r0
		for i := range due {
			if due[i].After(now) {
				left = left.Add(back[i])
			} else {
				paid = paid.Add(back[i])
			}
		}
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(paid), "what is due is paid out")
		rt.Assert(vBal(vCtx, vAddr(1), uartrr).Equal(left), "the rest is kept")
		sum := r0
		for _, q := range vApp.GetDelegatingKeeper().GetRevoking(vCtx, vAddr(1)) {
			sum = sum.Add(q.Amount)
			rt.Assert(q.Time.After(now), "no overdue requests")
		}
		rt.Assert(sum.Equal(left), "the requests make up the rest")
	}
	{
		i := rt.Choose("at", len(due))
		off := time.Duration(rt.Choose("around", 3) - 1)
		check(due[i].Add(off))
	}
	check(t.Add(30 * vDay))
	vSupplyHolds("payout")
	rt.Assert(len(vApp.GetDelegatingKeeper().GetRevoking(vCtx, vAddr(1))) == 0, "nothing is left")
}

// ---------- D03: interest

// vTable sets an interest table and returns the monthly percentage for an amount and a set of bonuses.
func vTable() func(d sdk.Int, flags [5]bool) int64 {
	type row struct {
		start int64
		p     [5]int64
	}
	tables := [][]row{
		{{0, [5]int64{21, 0, 1, 0, 0}}, {1000000000, [5]int64{24, 0, 1, 0, 0}}, {10000000000, [5]int64{27, 0, 1, 0, 0}}, {100000000000, [5]int64{30, 0, 1, 0, 0}}},
		{{0, [5]int64{3, 1, 2, 4, 8}}, {1000000, [5]int64{100, 16, 32, 7, 11}}},
	}
	rt.Bound("interest table", "the default one and one with five different bonuses")
	t := tables[rt.Choose("table", len(tables))]
	dk := vApp.GetDelegatingKeeper()
	dp := dk.GetParams(vCtx)
	dp.AccruePercentageTable = nil
	for _, r := range t {
		var l []util.Fraction
		for _, p := range r.p {
			l = append(l, util.Percent(p))
		}
		dp.AccruePercentageTable = append(dp.AccruePercentageTable, delegatingTypes.PercentageListRange{Start: uint64(r.start), PercentList: l})
	}
	vMust(dp.Validate())
	dk.SetParams(vCtx, dp)
	return func(d sdk.Int, flags [5]bool) int64 {
		res := int64(0)
		for _, r := range t {
			s := int64(0)
			for i, f := range flags {
				if f {
					s += r.p[i]
				}
			}
			if rt.Fork(d.GTE(sdk.NewInt(r.start))) {
				res = s
			}
		}
		return res
	}
}

// The daily interest.
func Verif_D03_daily() {
	vTop(1)
	flags := [5]bool{true}
	flags[2] = rt.Choose("active", 2) == 1
	vProfile(1, flags[2])
	d := vInt("d", "0", vMaxCoins)
	x := vInt("x", "1000", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, sdk.ZeroInt()))
	dust := vDust(0, 1000000000)
	pct := vTable()
	vNoFee()
	vCtx = vCtx.WithBlockTime(vT0)
	a := vInt("amt", "1000", vMaxCoins)
	if vDelegate(1, a) != nil {
		return
	}
	// vpn and storage earners
	now := vT0.Add(vDay - time.Hour)
	switch rt.Choose("earner", 3) {
	case 1:
		flags[3] = true
		vEarn(1, &now, nil)
	case 2:
		flags[4] = true
		vEarn(1, nil, &now)
	}
	x1, d1 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd)
	c1 := vBal(vCtx, vCollector(), uartr)
	s1 := vSupply(vCtx, uartr)
	vTick(vT0.Add(vDay - 1))
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(x1), "not before the time")
	vTick(vT0.Add(vDay))
	x2, d2, c2, s2 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd), vBal(vCtx, vCollector(), uartr), vSupply(vCtx, uartr)
	interest := sdk.ZeroInt()
	if rt.Fork(d1.GT(dust)) {
		interest = d1.MulRaw(pct(d1, flags)).QuoRaw(3000)
		rt.Cover("paid")
	}
	rt.Assert(x2.Equal(x1.Add(interest)), "the interest is paid")
	rt.Assert(c2.Equal(c1), "no fee here")
	rt.Assert(s2.Equal(s1.Add(interest)), "the supply grows by the interest")
	rt.Assert(d2.Equal(d1), "the delegation stays")
	if rt.Fork(d1.GT(dust)) {
		rt.Assert(vAccrualTasks(1, vT0.Add(2*vDay)) == 1, "again in a day")
	}
}

// The fee on the interest.
func Verif_D03_fee() {
	vTop(1)
	vProfile(1, false)
	d := vInt("d", "1000001", vMaxCoins)
	vFund(vAddr(1), vCoins(sdk.NewInt(1000), d, sdk.ZeroInt()))
	vNoFee()
	vDust(1000000, 1000000)
	vCtx = vCtx.WithBlockTime(vT0)
	vMust(vDelegate(1, sdk.NewInt(1000)))
	cfg, max := vFeeParams()
	dk := vApp.GetDelegatingKeeper()
	dp := dk.GetParams(vCtx)
	dp.AccruePercentageTable = dp.AccruePercentageTable[:1]
	dk.SetParams(vCtx, dp)
	s1 := vSupply(vCtx, uartr)
	vTick(vT0.Add(vDay))
	interest := d.AddRaw(1000).MulRaw(21).QuoRaw(3000)
	fee := vFee(interest, cfg, max)
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(interest.Sub(fee)), "the interest less the fee")
	rt.Assert(vBal(vCtx, vCollector(), uartr).Equal(fee), "the fee is collected")
	rt.Assert(vSupply(vCtx, uartr).Equal(s1.Add(interest)), "the supply grows by the interest")
}

// When blocks are late, the missed accruals are made up for, once.
func Verif_D03_late() {
	vTop(1)
	vProfile(1, false)
	d := vInt("d", "1000001", vMaxCoins)
	vFund(vAddr(1), vCoins(sdk.NewInt(3000), d, sdk.ZeroInt()))
	vNoFee()
	vDust(1000000, 1000000)
	dk := vApp.GetDelegatingKeeper()
	dp := dk.GetParams(vCtx)
	dp.AccruePercentageTable = dp.AccruePercentageTable[:1]
	dk.SetParams(vCtx, dp)
	vCtx = vCtx.WithBlockTime(vT0)
	vMust(vDelegate(1, sdk.NewInt(1000)))
	d = d.AddRaw(1000)
	daily := d.MulRaw(21).QuoRaw(3000)
	days := 1 + rt.Choose("days", 3)
	late := []time.Duration{0, 1, 6 * time.Hour, vDay - 1}[rt.Choose("late", 4)]
	now := vT0.Add(time.Duration(days)*vDay + late)
	vTick(now)
	got := vBal(vCtx, vAddr(1), uartr).SubRaw(2000)
	rt.Assert(got.Equal(daily), "an accrual at a time")
	if rt.Choose("tx", 2) == 1 {
		vMust(vDelegate(1, sdk.NewInt(2000)))
		part := int64(days-1)*int64(vDay) + int64(late)
		want := daily.Add(d.MulRaw(21).MulRaw(part).QuoRaw(3000 * int64(vDay/1000)).QuoRaw(1000))
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(want), "the interest up to now")
		vTick(now)
		vTick(now)
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(want), "nothing is paid twice")
		vTick(now.Add(vDay - 1))
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(want), "nothing is paid twice")
		return
	}
	for i := 0; i < 3; i++ {
		vTick(now)
	}
	got = vBal(vCtx, vAddr(1), uartr).SubRaw(2000)
	rt.Assert(got.Equal(daily.MulRaw(int64(days))), "every day is paid for")
	rt.Assert(vAccrualTasks(1, vT0.Add(time.Duration(days+1)*vDay)) == 1, "the next one is on time")
}

// Interest for a part of the day is paid when the delegation changes; no time is paid twice or lost.
func Verif_D03_parts() {
	vTop(1)
	flags := [5]bool{true}
	flags[2] = rt.Choose("active", 2) == 1
	vProfile(1, flags[2])
	d0 := vInt("d", "2000000", vMaxCoins)
	x := vInt("x", "1000000", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d0, sdk.ZeroInt()))
	vNoFee()
	dust := vDust(0, 1000000)
	pct := vTable()
	vCtx = vCtx.WithBlockTime(vT0)
	if vDelegate(1, sdk.NewInt(1000)) != nil {
		return
	}
	n := 1
	if rt.Thorough() {
		n = 2
	}
	rt.Bound("history", "quick 1, thorough 2 delegations or revocations of any amounts at 5 times of the day, then the daily accrual")
	last := vT0 // accrued up to here
	extra := sdk.ZeroInt()
	t := vT0
	for i := 0; i < n; i++ {
		t = t.Add([]time.Duration{0, 1, 8 * time.Hour, 12 * time.Hour, vDay - 1}[rt.Choose("time", 5)])
		vTick(t)
		x1, d1 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd)
		part := t.Sub(last)
		rev := rt.Choose("revoke", 2) == 1
		amt := vInt("amt", "1000", vMaxCoins)
		out := amt
		var err error
		if rev {
			out = sdk.ZeroInt()
			err = vRevoke(1, amt, false)
		} else {
			err = vDelegate(1, amt)
		}
		x2 := vBal(vCtx, vAddr(1), uartr)
		if err != nil {
			rt.Assert(x2.Equal(x1), "nothing changes")
			continue
		}
		interest := sdk.ZeroInt()
		if last.Before(t) && rt.Fork(d1.GT(dust)) {
			interest = d1.MulRaw(pct(d1, flags)).MulRaw(int64(part)).QuoRaw(3000 * int64(vDay/1000)).QuoRaw(1000)
		}
		if part >= vDay {
			interest = sdk.ZeroInt() // the daily accrual has come first
		}
		rt.Assert(x2.Equal(x1.Sub(out).Add(interest)), "the interest for the elapsed part of the day")
		last = t
		extra = extra.Add(interest)
		_ = extra
		if rt.Fork(vBal(vCtx, vAddr(1), uartrd).LTE(dust)) {
			return
		}
	}
	x1, d1 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(1), uartrd)
	vTick(last.Add(vDay - 1))
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(x1), "not before a day has passed")
	vTick(last.Add(vDay))
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(x1.Add(d1.MulRaw(pct(d1, flags)).QuoRaw(3000))), "then for the whole day")
	rt.Assert(vAllAccrualTasks(1) == 1, "one accrual is scheduled")
}

// A part of the day that is paid already is not paid again, and matters on this day only.
func Verif_D03_missed() {
	vTop(1)
	vProfile(1, false)
	d := vInt("d", "2000000", vMaxCoins)
	vFund(vAddr(1), vCoins(vInt("x", "1000000", vMaxCoins), d, sdk.ZeroInt()))
	vNoFee()
	vDust(0, 0)
	pct := vTable()
	flags := [5]bool{true}
	vCtx = vCtx.WithBlockTime(vT0)
	h := []int64{0, 8, 12, 18}[rt.Choose("missed", 4)]
	next, part := vT0.Add(vDay), util.NewFraction(h, 24)
	rec := delegatingTypes.Record{NextAccrue: &next, MissedPart: &part}
	vCtx.KVStore(vApp.keys[delegatingTypes.MainStoreKey]).Set(vAddr(1), vApp.ec.Marshaler.MustMarshalBinaryBare(&rec))
	vApp.GetScheduleKeeper().ScheduleTask(vCtx, next, delegatingTypes.AccrueHookName, vAddr(1))
	bal := func() sdk.Int { return vBal(vCtx, vAddr(1), uartr) }
	x := bal()
	full := d.MulRaw(pct(d, flags)).QuoRaw(3000)
	if rt.Choose("change", 2) == 1 {
		g := []int64{6, 12, 20}[rt.Choose("time", 3)]
		vTick(vT0.Add(time.Duration(g) * time.Hour))
		amt := vInt("amt", "1000", "1000000")
		vMust(vDelegate(1, amt))
		paid := sdk.ZeroInt()
		if g > h {
			paid = d.MulRaw(pct(d, flags)).MulRaw(g - h).QuoRaw(3000 * 24)
		}
		rt.Assert(bal().Equal(x.Sub(amt).Add(paid)), "what is missing of the elapsed part of the day")
		x = bal()
		d = d.Add(amt)
		full = d.MulRaw(pct(d, flags)).QuoRaw(3000)
		next = vCtx.BlockTime().Add(vDay)
		vTick(next)
		rt.Assert(bal().Equal(x.Add(full)), "then for the whole day")
	} else {
		vTick(next)
		rt.Assert(bal().Equal(x.Add(full).Sub(full.MulRaw(h).QuoRaw(24))), "what is missing of the day")
	}
	x = bal()
	vTick(next.Add(vDay))
	rt.Assert(bal().Equal(x.Add(full)), "whole days afterwards")
	rt.Assert(vAllAccrualTasks(1) == 1, "one accrual is scheduled")
}

var _ = delegating.ModuleName
