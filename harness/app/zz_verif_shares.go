package app

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	delegatingTypes "github.com/arterynetwork/artr/x/delegating/types"
	nodingTypes "github.com/arterynetwork/artr/x/noding/types"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
)

// ---------- R06: active validators share in the interest of those below them

// vShare: the share (per mille, a month) of a validator with status s, level lines above.
func vShare(s referralTypes.Status, level int) int64 {
	switch {
	case s >= referralTypes.STATUS_ABSOLUTE_CHAMPION && level <= 20:
		return 6
	case s >= referralTypes.STATUS_TOP_LEADER && level <= 14:
		return 5
	case s >= referralTypes.STATUS_PROFESSIONAL && level <= 12:
		return 4
	case s >= referralTypes.STATUS_BUSINESSMAN && level <= 10:
		return 3
	case s >= referralTypes.STATUS_CHAMPION && level <= 6:
		return 2
	case s >= referralTypes.STATUS_MASTER && level <= 4:
		return 1
	}
	return 0
}

// vNodeOf makes account i, which qualifies, a validator: on, off, jailed, or just out of jail.
func vNodeOf(i, how int, slack int64) {
	v := nodingTypes.Validator{Account: vAcc(i), Staff: true, UnjailAt: rt.Int64("unjail"+vItoa(i), 0, 1000)}
	quiet := 6 * int64(vApp.GetNodingKeeper().GetParams(vCtx).UnjailAfter)
	if how == 3 {
		rt.Assume(vCtx.BlockHeight()-v.UnjailAt < quiet-slack)
	} else {
		rt.Assume(vCtx.BlockHeight()-v.UnjailAt >= quiet)
	}
	v.Jailed = how == 2
	r := v.ToInfo(0)
	r.PubKey, r.Status = vKeyText(i), how != 1
	vCtx.KVStore(vApp.keys[nodingTypes.StoreKey]).Set(vAddr(i), vApp.ec.Marshaler.MustMarshalBinaryBare(&r))
}

type vBoss struct {
	i, level int
	s        referralTypes.Status
	on       bool
}

// vBosses: up to n validators with any statuses among the ancestors of account who at the given levels.
func vBosses(who, n int, levels, hows []int, statuses []referralTypes.Status, slack int64) []vBoss {
	p := vApp.GetNodingKeeper().GetParams(vCtx)
	p.UnjailAfter = 50
	vApp.GetNodingKeeper().SetParams(vCtx, p)
	vCtx = vCtx.WithBlockHeight(1000)
	rs := []vBoss{}
	from := 0
	for j := 0; j < n; j++ {
		x := from + rt.Choose("level", len(levels)-from+1)
		if x == len(levels) {
			break
		}
		from = x + 1
		b := vBoss{i: who - levels[x], level: levels[x], s: referralTypes.Status(rt.Int64("status", 1, 9))}
		if statuses == nil {
			rt.Assume(b.s != referralTypes.HeroDeprecatedStatus)
		} else {
			rt.Assume(b.s == statuses[rt.Choose("statuses", len(statuses))])
			b.s = referralTypes.Status(rt.Conc(int64(b.s)))
		}
		how := 0
		if j == 0 {
			how = hows[rt.Choose("how", len(hows))]
		}
		b.on = how == 0
		vNodeOf(b.i, how, slack)
		rs = append(rs, b)
	}
	return rs
}

// vShares: what they are to get.
func vShares(bs []vBoss) []int64 {
	used := int64(0)
	r := []int64{}
	for _, b := range bs {
		x := int64(0)
		if s := vShare(b.s, b.level); b.on && s > used {
			x = s - used
			used = s
		}
		r = append(r, x)
	}
	return r
}

// vLine makes a chain of n accounts of these statuses (most of them lucky).
func vLine(n int, statuses map[int]referralTypes.Status) {
	st := vCtx.KVStore(vApp.keys[referralTypes.StoreKey])
	for i := 1; i <= n; i++ {
		p := ""
		if i > 1 {
			p = vAcc(i - 1)
		}
		r := referralTypes.NewInfo(p, sdk.ZeroInt(), sdk.ZeroInt())
		if i < n {
			r.Referrals = []string{vAcc(i + 1)}
		}
		if s, ok := statuses[i]; ok {
			r.Status = s
		}
		st.Set([]byte(vAcc(i)), vApp.ec.Marshaler.MustMarshalBinaryBare(&r))
	}
}

func Verif_R06_shares() {
	n, levels := 2, []int{1, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15, 20, 21}
	if rt.Thorough() {
		n = 3
	}
	rt.Bound("ancestors", "21 in a chain, up to "+vItoa(n)+" of which are validators, of any of 8 statuses")
	bs := vBosses(22, n, levels, []int{0, 1, 2, 3}, nil, 0)
	ss := map[int]referralTypes.Status{}
	for _, b := range bs {
		ss[b.i] = b.s
	}
	vLine(22, ss)
	fees, err := vApp.GetReferralKeeper().GetReferralValidatorFeesForDelegating(vCtx, vAcc(22))
	vMust(err)
	sum := util.FractionZero()
	want := int64(0)
	for j, s := range vShares(bs) {
		want += s
		got := util.FractionZero()
		for _, f := range fees {
			if f.Beneficiary == vAcc(bs[j].i) {
				got = got.Add(f.Ratio)
			}
		}
		rt.Assert(got.Equal(util.Permille(s)), "a validator gets the share of its status less those of validators below")
	}
	for _, f := range fees {
		sum = sum.Add(f.Ratio)
	}
	rt.Assert(sum.Equal(util.Permille(want)), "nobody else gets a share")
	if want == 6 && len(fees) > 1 {
		rt.Cover("several")
	}
}

// The shares are paid, daily and for parts of a day.
func Verif_R06_paid() {
	n := 2
	rt.Bound("ancestors", "6 in a chain, up to 2 of which are validators; a delegation of any amount at 21%; a day, 1 and 12 hours")
	vNoFee()
	dust := vDust(0, 1000000000)
	levels := []int{1, 5}
	if rt.Thorough() {
		levels = []int{1, 4, 5}
	}
	dp := vApp.GetDelegatingKeeper().GetParams(vCtx)
	z := util.Percent(0)
	dp.AccruePercentageTable = []delegatingTypes.PercentageListRange{{Start: 0, PercentList: []util.Fraction{util.Percent(21), z, z, z, z}}}
	vMust(dp.Validate())
	vApp.GetDelegatingKeeper().SetParams(vCtx, dp)
	bs := vBosses(7, n, levels, []int{0, 3}, []referralTypes.Status{referralTypes.STATUS_MASTER, referralTypes.STATUS_BUSINESSMAN, referralTypes.STATUS_ABSOLUTE_CHAMPION}, 5)
	ss := map[int]referralTypes.Status{}
	for _, b := range bs {
		ss[b.i] = b.s
	}
	for i := 1; i <= 7; i++ {
		vNewAcc(i)
	}
	vLine(7, ss)
	vProfile(7, false)
	d := vInt("d", "1000", "1000000000000")
	vFund(vAddr(7), vCoins(d, sdk.ZeroInt(), sdk.ZeroInt()))
	vCtx = vCtx.WithBlockTime(vT0)
	vMust(vDelegate(7, d))
	before, supply := []sdk.Int{}, vSupply(vCtx, uartr)
	for i := 1; i <= 7; i++ {
		before = append(before, vBal(vCtx, vAddr(i), uartr))
	}
	check := func(base, interest sdk.Int) {
		total := interest
		shares := vShares(bs)
		for i := 1; i <= 6; i++ {
			x := sdk.ZeroInt()
			for j, b := range bs {
				if b.i == i {
					x = base.MulRaw(shares[j]).QuoRaw(30000)
				}
			}
			rt.Assert(vBal(vCtx, vAddr(i), uartr).Equal(before[i-1].Add(x)), "a validator is paid its share")
			total = total.Add(x)
		}
		rt.Assert(vBal(vCtx, vAddr(7), uartr).Equal(before[6].Add(interest)), "the delegator is paid as without validators")
		rt.Assert(vSupply(vCtx, uartr).Equal(supply.Add(total)), "the supply grows by what is paid")
	}
	if !rt.Fork(d.GT(dust)) {
		vTick(vT0.Add(vDay))
		check(sdk.ZeroInt(), sdk.ZeroInt())
		return
	}
	p := int64(21)
	if rt.Choose("part", 2) == 0 {
		vTick(vT0.Add(vDay))
		check(d, d.MulRaw(p).QuoRaw(3000))
		rt.Cover("day")
		return
	}
	hours := []int64{1, 12}[rt.Choose("hours", 2)]
	vCtx = vCtx.WithBlockTime(vT0.Add(time.Duration(hours) * time.Hour))
	rt.Assume(d.GTE(sdk.NewInt(1000000)))
	vMust(vRevoke(7, sdk.NewInt(1000), false))
	part := d.MulRaw(p * hours).QuoRaw(3000 * 24)
	base := d.MulRaw(hours).QuoRaw(24)
	check(base, part)
	rt.Cover("part")
}
