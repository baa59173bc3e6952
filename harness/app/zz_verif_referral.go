package app

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	rt "github.com/arterynetwork/artr/verifrt"
	referralKeeper "github.com/arterynetwork/artr/x/referral/keeper"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
)

func vRef(ctx sdk.Context, i int) referralTypes.Info {
	r, err := vApp.GetReferralKeeper().Get(ctx, vAcc(i))
	vMust(err)
	return r
}

func vCount(xs []string, x string) int {
	n := 0
	for _, y := range xs {
		if y == x {
			n++
		}
	}
	return n
}

// vTreeHolds: what every account's record says about its network is what the network is. The referrers, the activity
// flags and the balances are taken as given; the lists of referrals, and the sums over each of the ten levels are
// computed anew.
func vTreeHolds(n int) {
	recs := make([]referralTypes.Info, n+1)
	bal := make([]sdk.Int, n+1)
	del := make([]sdk.Int, n+1)
	for i := 1; i <= n; i++ {
		recs[i] = vRef(vCtx, i)
		recs[i].Normalize()
		d := vBal(vCtx, vAddr(i), uartrd)
		del[i] = d
		bal[i] = vBal(vCtx, vAddr(i), uartr).Add(d).Add(vBal(vCtx, vAddr(i), uartrr))
	}
	coins := make([][]sdk.Int, n+1)
	delegated := make([][]sdk.Int, n+1)
	active := make([][]uint64, n+1)
	for i := 1; i <= n; i++ {
		for l := 0; l <= 10; l++ {
			coins[i] = append(coins[i], sdk.ZeroInt())
			delegated[i] = append(delegated[i], sdk.ZeroInt())
			active[i] = append(active[i], 0)
		}
	}
	for i := 1; i <= n; i++ {
		j := i
		for l := 0; l <= 10 && j != 0; l++ {
			coins[j][l] = coins[j][l].Add(bal[i])
			delegated[j][l] = delegated[j][l].Add(del[i])
			if recs[i].Active {
				active[j][l]++
			}
			if recs[j].Banished {
				break
			}
			p := recs[j].Referrer
			j = 0
			for q := 1; q <= n; q++ {
				if vAcc(q) == p {
					j = q
				}
			}
		}
	}
	okC, okD, okA, okR, okX := true, true, true, true, true
	for i := 1; i <= n; i++ {
		for l := 0; l <= 10; l++ {
			okC = rt.And(okC, recs[i].Coins[l].Equal(coins[i][l]))
			okD = rt.And(okD, recs[i].Delegated[l].Equal(delegated[i][l]))
			okA = rt.And(okA, recs[i].ActiveRefCounts[l] == active[i][l])
		}
		kids, act := 0, 0
		for c := 1; c <= n; c++ {
			if recs[c].Referrer == vAcc(i) && !recs[c].Banished {
				kids++
				okR = rt.And(okR, vCount(recs[i].Referrals, vAcc(c)) == 1)
				if recs[c].Active {
					act++
					okX = rt.And(okX, vCount(recs[i].ActiveReferrals, vAcc(c)) == 1)
				}
			}
		}
		okR = rt.And(okR, len(recs[i].Referrals) == kids)
		okX = rt.And(okX, len(recs[i].ActiveReferrals) == act)
	}
	rt.Assert(okR, "referrals are the accounts referred")
	rt.Assert(okX, "active referrals are the active ones")
	rt.Assert(okC, "coins at each level")
	rt.Assert(okD, "delegated coins at each level")
	rt.Assert(okA, "active accounts at each level")
}

// vWallet gives account i some coins of each kind, those delegated below what makes a leader.
func vWallet(i int) {
	s := vItoa(i)
	vNewAcc(i)
	vFund(vAddr(i), vCoins(vInt("x"+s, "1", vMaxCoins), vInt("d"+s, "1", "1000000000"), vInt("r"+s, "1", vMaxCoins)))
}

// vGrow adds account i with a wallet under p (0: top level).
func vGrow(p, i int) {
	vWallet(i)
	if p == 0 {
		vMust(vApp.GetReferralKeeper().AddTopLevelAccount(vCtx, vAcc(i)))
	} else {
		vMust(vApp.GetReferralKeeper().AppendChild(vCtx, vAcc(p), vAcc(i)))
	}
}

// vChain: accounts 1..n, each the referrer of the next one.
func vChain(n int) {
	for i := 1; i <= n; i++ {
		vGrow(i-1, i)
	}
}

func vSetActive(i int, v bool) {
	vMust(vApp.GetReferralKeeper().SetActive(vCtx, vAcc(i), v, true))
}

// ---------- R01: what the records say about a network is what the network is

func Verif_R01_append() {
	rt.Bound("accounts in a chain", "13")
	vChain(12)
	p := 11 + rt.Choose("parent", 4)
	vWallet(13)
	err := vTx(func(ctx sdk.Context) error { return vApp.GetReferralKeeper().AppendChild(ctx, vAcc(p), vAcc(13)) })
	rt.Assert((err == nil) == (p <= 12), "appended under an existing account")
	if err != nil {
		_, err := vApp.GetReferralKeeper().GetChildren(vCtx, vAcc(14))
		rt.Trace("no account", err)
		vTreeHolds(12)
		return
	}
	vTreeHolds(13)
	rt.Cover("appended")
}

func Verif_R01_balance() {
	rt.Bound("accounts in a chain", "13")
	vChain(13)
	i := 12
	if rt.Thorough() {
		i = 1 + rt.Choose("who", 13)
	}
	vMust(vApp.GetBankKeeper().SetBalance(vCtx, vAddr(i), vCoins(vInt("x", "0", vMaxCoins), vInt("d", "0", "1000000000"), vInt("r", "0", vMaxCoins))))
	vTreeHolds(13)
	rt.Cover("changed")
}

func Verif_R01_active() {
	rt.Bound("accounts in a chain", "13")
	vChain(13)
	pat := rt.Choose("pattern", 4)
	for i := 1; i <= 13; i++ {
		if pat&1 == 1 && i%2 == 0 || pat&2 == 2 && i%2 == 1 {
			vSetActive(i, true)
		}
	}
	vTreeHolds(13)
	i := 1 + rt.Choose("who", 13)
	was := vRef(vCtx, i).Active
	vSetActive(i, rt.Choose("how", 2) == 0)
	vTreeHolds(13)
	vSetActive(i, was)
	vTreeHolds(13)
	rt.Cover("changed")
}

// a chain of 14 with a side branch, some of the accounts active.
func vBranchy() int {
	rt.Bound("accounts", "16: a chain of 14 and a branch of 2")
	vChain(14)
	vGrow(6, 15)
	vGrow(15, 16)
	for _, i := range []int{2, 5, 7, 8, 9, 11, 13, 14, 15} {
		vSetActive(i, true)
	}
	return 16
}

func Verif_R01_compress() {
	n := vBranchy()
	who := []int{6, 2, 10, 12, 14, 16, 4}
	if rt.Thorough() {
		who = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
	}
	i := who[rt.Choose("who", len(who))]
	vSetActive(i, false)
	vMust(vApp.GetReferralKeeper().Compress(vCtx, vAcc(i)))
	vTreeHolds(n)
	rt.Cover("compressed")
}

func vTransit(s, p int) error {
	return vTx(func(ctx sdk.Context) error {
		if err := vApp.GetReferralKeeper().RequestTransition(ctx, vAcc(s), vAcc(p)); err != nil {
			return err
		}
		return vApp.GetReferralKeeper().AffirmTransition(ctx, vAcc(s))
	})
}

func Verif_R01_transition() {
	n := vBranchy()
	var s, p int
	if rt.Thorough() {
		s, p = 2+rt.Choose("who", 15), 1+rt.Choose("where", 16)
	} else {
		x := rt.Choose("who", 8)
		s = []int{7, 7, 15, 15, 3, 4, 14, 10}[x]
		p = []int{16, 5, 14, 2, 1, 1, 15, 16}[x]
	}
	err := vTransit(s, p)
	rt.Cover("tried")
	if err == nil {
		rt.Cover("moved")
		rt.Assert(vRef(vCtx, s).Referrer == vAcc(p), "moved under the new referrer")
	}
	vTreeHolds(n)
}

func Verif_R01_banish() {
	n := vBranchy()
	k := vApp.GetReferralKeeper()
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	bp.DustDelegation = 1000000000
	vApp.GetBankKeeper().SetParams(vCtx, bp)
	i := []int{14, 16}[rt.Choose("who", 2)]
	vSetActive(i, false)
	vMust(k.Banish(vCtx, vAcc(i)))
	rt.Assert(vRef(vCtx, i).Banished, "banished")
	vTreeHolds(n)
	// money moves while banished
	vMust(vApp.GetBankKeeper().SetBalance(vCtx, vAddr(i), vCoins(vInt("x", "1", vMaxCoins), vInt("d", "1", "1000000000"), vInt("r", "1", vMaxCoins))))
	vTreeHolds(n)
	if rt.Choose("back", 2) == 0 {
		// by hand
		if i == 14 && rt.Choose("closed", 2) == 0 {
			vSetActive(13, false)
			vMust(k.Compress(vCtx, vAcc(13)))
		}
		vMust(k.ComeBack(vCtx, vAcc(i)))
	} else {
		// by delegating
		vMust(vApp.GetBankKeeper().SetBalance(vCtx, vAddr(i), vCoins(vInt("x'", "1", vMaxCoins), vInt("d'", "1000000001", "2000000000"), vInt("r'", "1", vMaxCoins))))
	}
	rt.Assert(!vRef(vCtx, i).Banished, "back")
	vTreeHolds(n)
	rt.Cover("back")
}

// Any operations in any order over a small tree.
func Verif_R01_history() {
	steps := 2
	if rt.Thorough() {
		steps = 3
	}
	rt.Bound("operations", vItoa(steps))
	rt.Bound("accounts", "6")
	k := vApp.GetReferralKeeper()
	for i, p := range []int{0, 1, 2, 2, 1} {
		vGrow(p, i+1)
	}
	vSetActive(3, true)
	vWallet(6)
	n := 5
	for st := 0; st < steps; st++ {
		op := rt.Choose("op", 7)
		i := 1 + rt.Choose("who", 5)
		switch op {
		case 0:
			if n == 5 && vTx(func(ctx sdk.Context) error { return k.AppendChild(ctx, vAcc(i), vAcc(6)) }) == nil {
				n = 6
			}
		case 1:
			s := vItoa(st)
			vMust(vApp.GetBankKeeper().SetBalance(vCtx, vAddr(i), vCoins(vInt("a"+s, "1", vMaxCoins), vInt("b"+s, "1", "1000000000"), vInt("c"+s, "1", vMaxCoins))))
		case 2:
			// a banished account comes back before it becomes active
			if r := vRef(vCtx, i); !r.Banished {
				vSetActive(i, !r.Active)
			}
		case 3:
			// an active account is not compressed
			if vRef(vCtx, i).Active {
				vSetActive(i, false)
			}
			_ = vTx(func(ctx sdk.Context) error { return k.Compress(ctx, vAcc(i)) })
		case 4:
			_ = vTransit(i, 1+rt.Choose("where", 5))
		case 5:
			bp := vApp.GetBankKeeper().GetParams(vCtx)
			bp.DustDelegation = 1000000000
			vApp.GetBankKeeper().SetParams(vCtx, bp)
			if len(vRef(vCtx, i).Referrals) == 0 {
				_ = vTx(func(ctx sdk.Context) error { return k.Banish(ctx, vAcc(i)) })
			}
		case 6:
			if vRef(vCtx, i).Banished {
				vMust(k.ComeBack(vCtx, vAcc(i)))
			}
		}
		vTreeHolds(n)
	}
	rt.Cover("done")
}

// ---------- R02: a status is given at once when earned, and taken two days after it stops being earned

// vSetInfo writes a record as it is, with the status check of every change of a network or without it.
func vSetInfo(i int, check bool, f func(r *referralTypes.Info)) {
	vApp.GetReferralKeeper().Iterate(vCtx, func(acc string, r *referralTypes.Info) (bool, bool) {
		if acc != vAcc(i) {
			return false, false
		}
		f(r)
		return true, check
	})
}

func vStep(s referralTypes.Status, d int) referralTypes.Status {
	s += referralTypes.Status(d)
	if s == referralTypes.HeroDeprecatedStatus {
		s += referralTypes.Status(d)
	}
	return s
}

type vTeams struct {
	del   []sdk.Int // delegated by level
	first []uint64  // active referrals of each active referral
	size  []uint64  // active accounts in the team of each active referral
}

// vEarned: the published requirements.
func vEarned(s referralTypes.Status, t vTeams) bool {
	atLeast := func(xs []uint64, size uint64, count int64) bool {
		n := int64(0)
		for _, x := range xs {
			n += rt.Ite(x >= size, 1, 0)
		}
		return n >= count
	}
	coins := func(lines int, artrs int64) bool {
		c := sdk.ZeroInt()
		for l := 0; l <= lines; l++ {
			c = c.Add(t.del[l])
		}
		return c.GTE(sdk.NewInt(artrs).MulRaw(1000000))
	}
	top := func(lines int, artrs int64, leg uint64) bool {
		return rt.And(coins(lines, artrs), rt.And(atLeast(t.size, leg, 3), atLeast(t.first, 3, 3)))
	}
	switch s {
	case referralTypes.STATUS_LUCKY:
		return true
	case referralTypes.STATUS_LEADER:
		return rt.And(coins(4, 20000), atLeast(t.first, 2, 2))
	case referralTypes.STATUS_MASTER:
		return rt.And(coins(6, 50000), atLeast(t.first, 3, 3))
	case referralTypes.STATUS_CHAMPION:
		return top(8, 150000, 10)
	case referralTypes.STATUS_BUSINESSMAN:
		return top(10, 300000, 50)
	case referralTypes.STATUS_PROFESSIONAL:
		return top(10, 700000, 100)
	case referralTypes.STATUS_TOP_LEADER:
		return top(10, 1500000, 300)
	case referralTypes.STATUS_ABSOLUTE_CHAMPION:
		return top(10, 3000000, 600)
	}
	panic("no such status")
}

// vTeam: account 1 with n active referrals (2..n+1), whose networks have any sizes, and coins delegated at any levels.
func vTeam(n int, alike bool) vTeams {
	t := vTeams{}
	refs := []string{}
	var a, z uint64
	for c := 2; c <= n+1; c++ {
		if c == 2 || !alike {
			a, z = rt.Uint64("a"+vItoa(c), 0, 700), rt.Uint64("z"+vItoa(c), 0, 700)
		}
		a, z := a, z
		vSetInfo(c, false, func(r *referralTypes.Info) {
			r.Active = true
			r.ActiveRefCounts = []uint64{1, a, 0, 0, 0, 0, 0, 0, 0, 0, z}
		})
		t.first = append(t.first, a)
		t.size = append(t.size, 1+a+z)
		refs = append(refs, vAcc(c))
	}
	vSetInfo(1, false, func(r *referralTypes.Info) {
		r.ActiveReferrals = refs
		for l := 0; l <= 10; l++ {
			d := sdk.ZeroInt()
			if l%2 == 0 && !alike || l == 5 || l == 7 {
				d = vInt("d"+vItoa(l), "0", "4000000000000")
			}
			t.del = append(t.del, d)
			r.Delegated[l] = d
		}
	})
	return t
}

var vStatuses = []referralTypes.Status{
	referralTypes.STATUS_LUCKY, referralTypes.STATUS_LEADER, referralTypes.STATUS_MASTER, referralTypes.STATUS_CHAMPION,
	referralTypes.STATUS_BUSINESSMAN, referralTypes.STATUS_PROFESSIONAL, referralTypes.STATUS_TOP_LEADER,
	referralTypes.STATUS_ABSOLUTE_CHAMPION,
}

// vIndexed: the lists of accounts by status name account i where it belongs and nowhere else.
func vIndexed(i int) bool {
	s := vRef(vCtx, i).Status
	ok := true
	for _, x := range vStatuses[4:] {
		resp, err := referralKeeper.QueryServer(vApp.GetReferralKeeper()).AllWithStatus(sdk.WrapSDKContext(vCtx), &referralTypes.AllWithStatusRequest{Status: x})
		vMust(err)
		n := 0
		if x == s {
			n = 1
		}
		ok = rt.And(ok, vCount(resp.Accounts, vAcc(i)) == n)
	}
	return ok
}

func Verif_R02_check() {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rt.Bound("active referrals", "3 (thorough: 4), networks of up to 700 at each of 2 levels")
	vTop(1)
	for c := 2; c <= n+1; c++ {
		vChild(1, c)
	}
	t := vTeam(n, false)
	s := vStatuses[rt.Choose("status", len(vStatuses))]
	res, err := vApp.GetReferralKeeper().AreStatusRequirementsFulfilled(vCtx, vAcc(1), s)
	vMust(err)
	rt.Assert(res.Overall == vEarned(s, t), "the requirements of a status")
	rt.Cover("checked")
}

// vSettle: what the check makes of account 1 with status s: the status, and whether a downgrade is due.
func vSettle(s referralTypes.Status, t vTeams) (referralTypes.Status, bool) {
	if !rt.Fork(vEarned(s, t)) {
		return s, true
	}
	for s < referralTypes.MaximumStatus && rt.Fork(vEarned(vStep(s, 1), t)) {
		s = vStep(s, 1)
	}
	return s, false
}

func Verif_R02_change() {
	n := 3
	rt.Bound("active referrals", "3, alike, networks of up to 700 at each of 2 levels")
	rt.Bound("changes of the network", "2 and a downgrade")
	vTop(1)
	for c := 2; c <= n+1; c++ {
		vChild(1, c)
	}
	x := rt.Choose("status", len(vStatuses))
	s := vStatuses[x]
	vEnough(n, x, true)
	rt.Assert(vRef(vCtx, 1).Status == s, "the status earned")
	rt.Assert(vIndexed(1), "listed under the status")
	rt.Assert(vRef(vCtx, 1).StatusDowngradeAt == nil, "a status earned is kept")

	// the network changes
	t := vTeam(n, true)
	vCtx = vCtx.WithBlockTime(vT0.Add(time.Hour))
	vSetInfo(1, true, func(*referralTypes.Info) {})
	s1, due := vSettle(s, t)
	at := vT0.Add(time.Hour + 2*vDay)
	is := func(s referralTypes.Status, due bool, at time.Time) {
		r := vRef(vCtx, 1)
		rt.Assert(r.Status == s, "the status earned")
		rt.Assert(vIndexed(1), "listed under the status")
		if due {
			rt.Assert(r.StatusDowngradeAt != nil && r.StatusDowngradeAt.Equal(at), "downgrade in two days")
		} else {
			rt.Assert(r.StatusDowngradeAt == nil, "no downgrade")
		}
	}
	is(s1, due, at)
	if !due {
		rt.Cover("earned")
		vTick(at)
		is(s1, false, at)
		return
	}
	// more changes do not put the downgrade off
	vCtx = vCtx.WithBlockTime(at.Add(-vDay))
	vSetInfo(1, true, func(*referralTypes.Info) {})
	is(s, true, at)
	vTick(at.Add(-1))
	is(s, true, at)
	switch rt.Choose("then", 3) {
	case 0:
		rt.Cover("lost")
		vTick(at)
		s2, due := vSettle(vStep(s, -1), t)
		is(s2, due, at.Add(2*vDay))
	case 1:
		rt.Cover("kept")
		vEnough(n, x, true)
		is(s, false, at)
		vTick(at)
		is(s, false, at)
	case 2:
		rt.Cover("kept for a while")
		vEnough(n, x, true)
		is(s, false, at)
		vSetInfo(1, true, func(r *referralTypes.Info) { r.ActiveReferrals = nil })
		again := at.Add(-1 + 2*vDay)
		is(s, true, again)
		vTick(at)
		is(s, true, again)
		vTick(again)
		is(vStep(s, -1), vStep(s, -1) != referralTypes.STATUS_LUCKY, again.Add(2*vDay))
	}
}

// vEnough gives account 1 what status x takes, no more.
func vEnough(n, x int, check bool) {
	coins := []int64{0, 20000, 50000, 150000, 300000, 700000, 1500000, 3000000}[x]
	first := []uint64{0, 2, 3, 3, 3, 3, 3, 3}[x]
	leg := []uint64{0, 0, 0, 10, 50, 100, 300, 600}[x]
	refs := []string{}
	for c := 2; c <= n+1; c++ {
		f := first
		if first == 2 && c > 3 {
			f = 0
		}
		z := uint64(0)
		if leg > 0 {
			z = leg - 1 - f
		}
		vSetInfo(c, false, func(r *referralTypes.Info) {
			r.Active = true
			r.ActiveRefCounts = []uint64{1, f, 0, 0, 0, 0, 0, 0, 0, 0, z}
		})
		refs = append(refs, vAcc(c))
	}
	vSetInfo(1, check, func(r *referralTypes.Info) {
		r.ActiveReferrals = refs
		for l := range r.Delegated {
			r.Delegated[l] = sdk.ZeroInt()
		}
		r.Delegated[2] = sdk.NewInt(coins * 1000000)
	})
}

// ---------- R03: accounts move to another referrer by their own request and their referrer's consent only

func vRequestTransition(s, p int) error {
	msg := referralTypes.NewMsgRequestTransition(vAcc(s), vAcc(p))
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(s)), "signed by the subject")
	return vTx(func(ctx sdk.Context) error {
		_, err := referralKeeper.NewMsgServer(vApp.GetReferralKeeper()).RequestTransition(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vResolveTransition(signer, s int, approve bool) error {
	msg := referralTypes.NewMsgResolveTransition(vAcc(signer), vAcc(s), approve)
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(signer)), "signed by the signer")
	return vTx(func(ctx sdk.Context) error {
		_, err := referralKeeper.NewMsgServer(vApp.GetReferralKeeper()).ResolveTransition(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

// 1 -> 2 -> 4 -> 6 -> 7, 1 -> 3, 8 -> 9
func vGrove() int {
	for i, p := range []int{0, 1, 1, 2, 2, 4, 6, 0, 8} {
		if p == 0 {
			vTop(i + 1)
		} else {
			vChild(p, i+1)
		}
	}
	return 9
}

func vReferrers(n int) []string {
	res := []string{}
	for i := 1; i <= n; i++ {
		res = append(res, vRef(vCtx, i).Referrer)
	}
	return res
}

func Verif_R03_request() {
	n := vGrove()
	k := vApp.GetReferralKeeper()
	price := rt.Uint64("price", 0, 1000000000000)
	par := k.GetParams(vCtx)
	par.TransitionPrice = price
	k.SetParams(vCtx, par)
	s := 4
	if rt.Thorough() {
		s = 1 + rt.Choose("subject", 8)
	}
	x := vInt("x", "1", vMaxCoins)
	vFund(vAddr(s), vCoins(x, sdk.NewInt(5), sdk.NewInt(7)))
	p := 1 + rt.Choose("destination", n+1)
	pending := rt.Choose("pending", 2) == 1
	if pending {
		vSetInfo(s, false, func(r *referralTypes.Info) { r.Transition = vAcc(9) })
	}
	// accounts may register under an active account, under a top one, and under others for their first month
	open := true
	if p <= n {
		active := rt.Choose("active", 2) == 1
		if active {
			vSetActive(p, true)
		}
		at := vT0.Add(time.Duration(rt.Int64("at", 0, int64(61*vDay))))
		vCtx = vCtx.WithBlockTime(at)
		open = rt.Fork(rt.Or(active, vRef(vCtx, p).Referrer == "", !at.After(vT0.Add(30*vDay))))
	}
	before := vReferrers(n)
	parent := vRef(vCtx, s).Referrer
	err := vRequestTransition(s, p)
	below := s == 4 && (p == 4 || p == 6 || p == 7)
	if s != 4 {
		for q := p; p <= n && q != 0; {
			if q == s {
				below = true
			}
			up := vRef(vCtx, q).Referrer
			q = 0
			for z := 1; z <= n; z++ {
				if vAcc(z) == up {
					q = z
				}
			}
		}
	}
	ok := p <= n && !below && vAcc(p) != parent && !pending && open
	ok = rt.And(ok, x.GTE(sdk.NewIntFromUint64(price)))
	rt.Assert((err == nil) == ok, "which requests are accepted")
	if err == nil {
		rt.Cover("requested")
		rt.Assert(vRef(vCtx, s).Transition == vAcc(p), "the request is pending")
		rt.Assert(vBal(vCtx, vAddr(s), uartr).Equal(x.Sub(sdk.NewIntFromUint64(price))), "the price is paid")
		rt.Assert(vBal(vCtx, vApp.GetAccountKeeper().GetModuleAddress("fee_collector"), uartr).Equal(sdk.NewIntFromUint64(price)), "the price goes to the fees")
	} else {
		rt.Cover("refused")
		rt.Assert(vBal(vCtx, vAddr(s), uartr).Equal(x), "nothing is paid")
	}
	rt.Assert(rt.Eq(vReferrers(n), before), "nobody moves yet")
}

func Verif_R03_resolve() {
	n := vGrove()
	s := 4
	to := []int{1, 3, 5, 9}[rt.Choose("destination", 4)]
	vFund(vAddr(s), vCoins(sdk.NewInt(1000000000), sdk.NewInt(5), sdk.NewInt(7)))
	if rt.Choose("pending", 2) == 1 {
		vMust(vRequestTransition(s, to))
	} else {
		to = 0
	}
	// something happens in the meantime
	moved := false
	switch rt.Choose("meanwhile", 4) {
	case 1: // the destination comes under the subject
		if to == 5 {
			vFund(vAddr(5), vCoins(sdk.NewInt(1000000000), sdk.NewInt(5), sdk.NewInt(7)))
			vMust(vTransit(5, 7))
			moved = true
		}
	case 2: // the referrer is compressed
		vMust(vApp.GetReferralKeeper().Compress(vCtx, vAcc(2)))
		moved = to == 1
	case 3: // registration under the destination closes
		if to != 0 && to != 1 {
			vCtx = vCtx.WithBlockTime(vT0.Add(30*vDay + 1))
			moved = true
		}
	}
	before := vReferrers(n)
	signer := 1 + rt.Choose("signer", n)
	approve := rt.Choose("approve", 2) == 1
	err := vResolveTransition(signer, s, approve)
	r := vRef(vCtx, s)
	if err == nil {
		rt.Assert(vAcc(signer) == before[s-1], "only the referrer decides")
		rt.Assert(r.Transition == "", "the request is over")
	}
	if err == nil && approve {
		rt.Cover("approved")
		rt.Assert(to != 0 && !moved, "only a valid request is approved")
		rt.Assert(r.Referrer == vAcc(to), "moved under the destination")
		before[s-1] = vAcc(to)
	} else if err == nil {
		rt.Cover("declined")
	} else {
		rt.Cover("refused")
		rt.Assert(vAcc(signer) != before[s-1] || approve && (to == 0 || moved), "the referrer decides")
		rt.Assert(to == 0 || r.Transition == vAcc(to), "the request is still pending")
	}
	rt.Assert(rt.Eq(vReferrers(n), before), "nobody else moves")
	vTreeHolds(n)
}

func Verif_R03_deadline() {
	vGrove()
	vFund(vAddr(4), vCoins(sdk.NewInt(1000000000), sdk.NewInt(5), sdk.NewInt(7)))
	vMust(vRequestTransition(4, 9))
	switch rt.Choose("story", 3) {
	case 0:
		d := rt.Int64("t", 0, int64(2*vDay))
		vTick(vAt(d))
		if rt.Fork(d < int64(vDay)) {
			rt.Cover("in time")
			rt.Assert(vRef(vCtx, 4).Transition == vAcc(9), "a request waits for a day")
			rt.Assert(vResolveTransition(2, 4, true) == nil, "a request waits for a day")
		} else {
			rt.Cover("late")
			rt.Assert(vRef(vCtx, 4).Transition == "", "a request is over in a day")
			rt.Assert(vResolveTransition(2, 4, true) != nil, "a request is over in a day")
			rt.Assert(vRef(vCtx, 4).Referrer == vAcc(2), "a request is over in a day")
		}
	case 1:
		// a second request, after the first one is declined or approved, waits for a day too
		h := rt.Int64("t", 0, int64(vDay)-1)
		vCtx = vCtx.WithBlockTime(vAt(h))
		approve := rt.Choose("approve", 2) == 1
		vMust(vResolveTransition(2, 4, approve))
		vMust(vRequestTransition(4, 3))
		d := h + rt.Int64("d", 0, int64(vDay)-1)
		vTick(vAt(d))
		rt.Cover("second")
		rt.Assert(vRef(vCtx, 4).Transition == vAcc(3), "a second request waits for a day")
	case 2:
		// and is over then
		h := rt.Int64("t", 0, int64(vDay)-1)
		vCtx = vCtx.WithBlockTime(vAt(h))
		vMust(vResolveTransition(2, 4, false))
		vMust(vRequestTransition(4, 3))
		vTick(vAt(h + int64(vDay)))
		rt.Assert(vRef(vCtx, 4).Transition == "", "a request is over in a day")
	}
}

// ---------- R04: an account is compressed after two months of inactivity

func Verif_R04_inactive() {
	rt.Bound("stretches of inactivity", "2, of any lengths up to 130 days")
	n := vGrove()
	// block times to the quarter of a day, and 1 ns earlier
	when := func(name string, from int64) int64 {
		return from + rt.Int64(name, 0, 130*4)*int64(vDay)/4 - int64(rt.Choose(name+"-", 2))
	}
	vSetActive(4, true)
	vSetActive(4, false)
	month := int64(30 * vDay)
	var from int64
	dead := false
	if rt.Choose("again", 2) == 1 {
		a := when("active", 1)
		vTick(vAt(a))
		vSetActive(4, true)
		if rt.Fork(a >= 2*month) {
			dead = true
		}
		from = when("inactive", a+1)
		vTick(vAt(from))
		vSetActive(4, false)
	}
	t := when("end", from+1)
	vTick(vAt(t))
	r := vRef(vCtx, 4)
	if !dead {
		dead = rt.Fork(t-from >= 2*month)
	}
	if dead {
		rt.Cover("compressed")
		rt.Assert(vRef(vCtx, 6).Referrer == vAcc(2), "referrals pass to the referrer after two months")
		rt.Assert(len(r.Referrals) == 0 && r.Status == referralTypes.STATUS_LUCKY, "the network is lost after two months")
	} else {
		rt.Cover("not compressed")
		rt.Assert(vRef(vCtx, 6).Referrer == vAcc(4), "referrals stay before two months have passed")
		rt.Assert(r.CompressionAt != nil && r.CompressionAt.Equal(vAt(from+2*month)), "compression is announced for the right moment")
	}
	rt.Assert(r.Referrer == vAcc(2), "the account keeps its referrer")
	vTreeHolds(n)
}

// A new account that is never activated.
func Verif_R04_new() {
	vTop(1)
	vNewAcc(2)
	vMust(vApp.GetProfileKeeper().CreateAccount(vCtx, vAddr(2), vAddr(1)))
	if rt.Choose("active", 2) == 1 {
		vSetActive(2, true)
	}
	vMust(vApp.GetProfileKeeper().CreateAccount(vCtx, vAddr(3), vAddr(2)))
	active := vRef(vCtx, 2).Active
	t := rt.Int64("t", 0, int64(70*vDay))
	vTick(vAt(t))
	// registration under a new account is open for a month
	err := vTx(func(ctx sdk.Context) error { return vApp.GetProfileKeeper().CreateAccount(ctx, vAddr(4), vAddr(2)) })
	rt.Assert((err == nil) == rt.Or(active, t <= int64(30*vDay)), "registration is open for a month before the compression")
	if active {
		rt.Cover("active")
		rt.Assert(vRef(vCtx, 3).Referrer == vAcc(2), "active accounts are not compressed")
	} else if rt.Fork(t >= int64(60*vDay)) {
		rt.Cover("compressed")
		rt.Assert(vRef(vCtx, 3).Referrer == vAcc(1), "referrals pass to the referrer after two months")
		rt.Assert(len(vRef(vCtx, 2).Referrals) == 0, "the network is lost after two months")
	} else {
		rt.Cover("not compressed")
		rt.Assert(vRef(vCtx, 3).Referrer == vAcc(2), "referrals stay before two months have passed")
	}
}

// ---------- R05: a compressed account that does not delegate is banished in a month

func vDelegation(i int, d sdk.Int) {
	vMust(vApp.GetBankKeeper().SetBalance(vCtx, vAddr(i), vCoins(vBal(vCtx, vAddr(i), uartr), d, vBal(vCtx, vAddr(i), uartrr))))
}

func Verif_R05_banish() {
	rt.Bound("changes between compression and banishing", "quick 1, thorough 2")
	n := vGrove()
	month := int64(30 * vDay)
	d := vInt("d", "0", "1000000000")
	vFund(vAddr(4), vCoins(sdk.NewInt(10), d, sdk.NewInt(20)))
	dust := vDust(0, 1000000000)
	vSetActive(4, true)
	vSetActive(4, false)
	vTick(vAt(2 * month))
	now := 2 * month
	var due int64 = -1
	if rt.Fork(d.LTE(dust)) {
		due = now + month
	}
	gone, active := false, false
	changes := 1
	if rt.Thorough() {
		changes = 2
	}
	for c := 0; c < changes; c++ {
		s := vItoa(c)
		what := rt.Choose("what"+s, 3)
		if what == 0 {
			break
		}
		now += rt.Int64("at"+s, 0, 40*4) * int64(vDay) / 4
		vTick(vAt(now))
		if due >= 0 && rt.Fork(now >= due) {
			gone = true
			break
		}
		switch what {
		case 1:
			d2 := vInt("d"+s, "0", "1000000000")
			vDelegation(4, d2)
			if rt.Fork(!d2.Equal(d)) && !active {
				if !rt.Fork(d2.LTE(dust)) {
					due = -1
				} else if due < 0 {
					due = now + month
				}
			}
			d = d2
		case 2:
			vSetActive(4, !active)
			active = !active
			due = -1
			if !active {
				// a new stretch of inactivity, two months long
				rt.Cover("inactive again")
				vTick(vAt(now + 2*month - 1))
				rt.Assert(!vRef(vCtx, 4).Banished, "not banished before the next compression")
				return
			}
		}
	}
	if !gone {
		r := vRef(vCtx, 4)
		rt.Assert((r.BanishmentAt != nil) == (due >= 0), "when banishing is announced")
		if due >= 0 {
			rt.Assert(r.BanishmentAt.Equal(vAt(due)), "the moment of banishing announced")
		}
		now += rt.Int64("end", 0, 40*4) * int64(vDay) / 4
		vTick(vAt(now))
		gone = due >= 0 && rt.Fork(now >= due)
	}
	r := vRef(vCtx, 4)
	rt.Assert(r.Banished == gone, "who is banished")
	if gone {
		rt.Cover("banished")
		rt.Assert(vCount(vRef(vCtx, 2).Referrals, vAcc(4)) == 0, "a banished account is out of its referrer's network")
	} else {
		rt.Cover("not banished")
	}
	vTreeHolds(n)
}

// Banished accounts come back under the nearest ancestor that accepts referrals.
func Verif_R05_back() {
	vTop(1)
	vChild(1, 2)
	vChild(2, 3)
	vChild(3, 4)
	d := vInt("d", "0", "1000000000")
	dust := vDust(0, 1000000000)
	rt.Assume(d.LTE(dust))
	vFund(vAddr(4), vCoins(vInt("x", "1", vMaxCoins), d, sdk.NewInt(20)))
	vSetActive(2, true)
	vSetActive(3, true)
	vSetActive(4, true)
	vSetActive(4, false)
	month := 30 * vDay
	vTick(vT0.Add(2 * month))
	vTick(vT0.Add(3 * month))
	rt.Assert(vRef(vCtx, 4).Banished, "banished")
	where := 3
	if rt.Choose("3", 2) == 1 {
		vSetActive(3, false)
		where = 2
	}
	if rt.Choose("2", 2) == 1 {
		vSetActive(2, false)
		if where == 2 {
			where = 1
		}
	}
	if rt.Choose("closed", 2) == 0 {
		// registration is not closed yet
		vTick(vT0.Add(4 * month))
		where = 3
	} else {
		vTick(vT0.Add(4*month + 1))
	}
	err := vTx(func(ctx sdk.Context) error {
		return vApp.GetReferralKeeper().AppendChild(ctx, vAcc(4), vAcc(5))
	})
	rt.Assert(err != nil, "nobody registers under a banished account")
	if rt.Choose("how", 2) == 0 {
		d2 := vInt("d2", "0", "2000000000")
		vDelegation(4, d2)
		if !rt.Fork(d2.GT(dust)) {
			rt.Cover("still banished")
			rt.Assert(vRef(vCtx, 4).Banished, "a delegation of dust does not bring an account back")
			vTreeHolds(4)
			return
		}
	} else {
		vMust(vApp.GetReferralKeeper().ComeBack(vCtx, vAcc(4)))
	}
	rt.Cover("back")
	r := vRef(vCtx, 4)
	rt.Assert(!r.Banished && r.Status == referralTypes.STATUS_LUCKY, "back in the referral")
	rt.Assert(r.Referrer == vAcc(where), "under the nearest ancestor that accepts referrals")
	vTreeHolds(4)
}
