package app

import (
	"bytes"
	"encoding/json"
	rt "github.com/arterynetwork/artr/verifrt"
	nodingTypes "github.com/arterynetwork/artr/x/noding/types"
	profileTypes "github.com/arterynetwork/artr/x/profile/types"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
	votingTypes "github.com/arterynetwork/artr/x/voting/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"
	"sort"
	"time"
)

// ---------- G01: a chain restarted from an exported state goes on as the old one would

func vExport() map[string]json.RawMessage {
	return vApp.mm.ExportGenesis(vCtx, vApp.ec.Marshaler)
}

// vRestart: a new chain with the genesis g, at the same time.
func vRestart(g map[string]json.RawMessage) []abci.ValidatorUpdate {
	h, t := vCtx.BlockHeight(), vCtx.BlockTime()
	if rt.Symbolic() {
		vCtx = sdk.NewContext(rt.NewMS(), tmproto.Header{Height: h, Time: t}, false, rt.NopLogger())
	} else {
		vNativeSetup()
		vCtx = vCtx.WithBlockHeight(h).WithBlockTime(t)
	}
	return vApp.mm.InitGenesis(vCtx, vApp.ec.Marshaler, g).Validators
}

// vWorld is a chain.
type vWorld struct {
	app *ArteryApp
	ctx sdk.Context
}

func vThis() vWorld { return vWorld{vApp, vCtx} }

func (w vWorld) store(n string) sdk.KVStore { return w.ctx.KVStore(w.app.keys[n]) }

func vStores() []string {
	r := []string{}
	for n := range vApp.keys {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// vEmpty: a record with nothing in it is as good as none.
func vEmpty(b []byte) bool {
	if rt.Symbolic() {
		return rt.IsProtoZero(b)
	}
	return len(b) == 0
}

// vSame: the stores of both chains are the same.
func vSame(old vWorld) {
	now := vThis()
	for _, n := range vStores() {
		a, b := old.store(n).Iterator(nil, nil), now.store(n).Iterator(nil, nil)
		for a.Valid() || b.Valid() {
			switch {
			case !b.Valid() || a.Valid() && bytes.Compare(a.Key(), b.Key()) < 0:
				rt.Trace("lost", n, a.Key(), a.Value())
				rt.Assert(vEmpty(a.Value()), n+": nothing is lost")
				a.Next()
			case !a.Valid() || bytes.Compare(a.Key(), b.Key()) > 0:
				rt.Trace("new", n, b.Key(), b.Value())
				rt.Assert(vEmpty(b.Value()), n+": nothing appears")
				b.Next()
			default:
				rt.Trace("same", n, a.Key(), rt.Eq(a.Value(), b.Value()))
				rt.Assert(rt.Eq(a.Value(), b.Value()), n+": the same data")
				a.Next()
				b.Next()
			}
		}
		a.Close()
		b.Close()
	}
}

// vChainState: what every chain has: a government, an active validator.
func vChainState() {
	vGovern(2)
	vTop(1)
	vMust(vApp.GetNodingKeeper().SetNonActiveValidators(vCtx, []nodingTypes.Validator{{Account: vAcc(1), Staff: true}}))
	vMust(vOn(1, 1))
	_, err := vApp.GetNodingKeeper().GatherValidatorUpdates(vCtx)
	vMust(err)
}

// vReborn: the state is exported, found valid, and a new chain has the same data.
func vReborn() {
	old := vThis()
	g := vExport()
	for n, m := range ModuleBasics {
		if g[n] != nil && n != authTypes.ModuleName {
			rt.Assert(m.ValidateGenesis(vApp.ec.Marshaler, nil, g[n]) == nil, n+": a valid state")
		}
	}
	vRestart(g)
	vSame(old)
}

// vMember gives account i a profile, paid for until some time later than that of the export or not.
func vMember(i int, paid bool, more func(p *profileTypes.Profile)) {
	pk := vApp.GetProfileKeeper()
	p := profileTypes.Profile{
		CardNumber: pk.CardNumberByAccountNumber(vCtx, vApp.GetAccountKeeper().GetAccount(vCtx, vAddr(i)).GetAccountNumber()),
	}
	if paid {
		t := vAt(rt.Int64("paid until", 1<<55, 1<<60))
		p.ActiveUntil = &t
	}
	if more != nil {
		more(&p)
	}
	vPut(i, p)
	if paid {
		vSetActive(i, true)
	}
}

func Verif_G01_schedule() {
	vChainState()
	k := vApp.GetScheduleKeeper()
	rt.Bound("tasks", "3, at any of 3 times, in any order")
	for i := 0; i < 3; i++ {
		k.ScheduleTask(vCtx, vAt(rt.Int64("due", 0, 2)), []string{"a", "b"}[rt.Choose("handler", 2)], []byte{byte(i)})
	}
	vReborn()
}

func Verif_G01_bank() {
	vChainState()
	rt.Bound("bank", "5 accounts with any balances, up to 2 blocked senders")
	for i := 2; i < 5; i++ {
		vNewAcc(i)
		c := func(n string) sdk.Int {
			if rt.Choose(n, 2) == 0 {
				return sdk.ZeroInt()
			}
			return vInt(n, "1", vMaxCoins)
		}
		if i == 2 {
			vFund(vAddr(i), vCoins(c("x"), c("d"), c("r")))
		} else {
			vFund(vAddr(i), vCoins(vInt("x", "1", vMaxCoins), sdk.ZeroInt(), sdk.ZeroInt()))
		}
	}
	p := vApp.GetBankKeeper().GetParams(vCtx)
	p.MinSend = rt.Int64("minsend", 0, 1000000000)
	for i := rt.Choose("blocked", 3); i > 0; i-- {
		p.BlockedSenders = append(p.BlockedSenders, vAcc(i))
	}
	vApp.GetBankKeeper().SetParams(vCtx, p)
	vReborn()
}

func Verif_G01_earning() {
	vChainState()
	rt.Bound("earners", "2, with any times")
	for i := 2; i < 4; i++ {
		vTop(i)
		var a, b *time.Time
		if rt.Choose("vpn", 2) > 0 {
			a = vMoment("vpn", -1000, 0)
		}
		if rt.Choose("storage", 2) > 0 {
			b = vMoment("storage", -1000, 0)
		}
		vEarn(i, a, b)
	}
	vReborn()
}

func Verif_G01_voting() {
	vChainState()
	rt.Bound("voting", "a government of 2; 0 to 2 finished proposals, possibly a running one; 0 or 1 finished polls, possibly a running one with 3 answers")
	for i := 2; i < 5; i++ {
		vTop(i)
	}
	past := rt.Choose("proposals", 3)
	for i := 0; i < past; i++ {
		vMust(vPropose(vMinSend(1, rt.Int64("x", 1, 1000))))
		vMust(vBallot(2, i > 0))
	}
	if rt.Choose("proposal", 2) > 0 {
		vCtx = vCtx.WithBlockHeight(rt.Int64("start", 1, 1<<60))
		vMust(vPropose(vMinSend(1, rt.Int64("x", 1, 1000))))
	}
	polls := rt.Choose("polls", 3)
	n := 5
	if past > 0 && !rt.Thorough() {
		n = 3
	}
	for c := 0; c < polls; c++ {
		min := vStatuses[1]
		poll := votingTypes.Poll{Name: "p" + vItoa(c), Author: vAcc(2), Question: "q", Requirements: &votingTypes.Poll_MinStatus{MinStatus: min}}
		for i := 2; i < 5; i++ {
			vSetInfo(i, false, func(r *referralTypes.Info) { r.Status = min })
		}
		vMust(vStartPoll(poll))
		for i := 2; i < n; i++ {
			if a := rt.Choose("answer", 3); a > 0 {
				vMust(vAnswer(i, a > 1))
			}
		}
		if c == 0 && polls > 1 {
			p, _ := vApp.GetVotingKeeper().GetCurrentPoll(vCtx)
			vTick(*p.EndTime)
		}
		// They may have lost their status since.
		for i := 2; i < 5; i++ {
			vSetInfo(i, false, func(r *referralTypes.Info) { r.Status = vStatuses[0] })
		}
	}
	vReborn()
}

func Verif_G01_delegating() {
	vChainState()
	rt.Bound("delegating", "2 accounts, any amounts delegated, up to 2 requests to revoke at any times")
	for i := 2; i < 4; i++ {
		vTop(i)
		if i == 2 {
			vMember(i, rt.Choose("paid", 2) > 0, nil)
			vFund(vAddr(i), vCoins(sdk.NewInt(2000000000), vInt("d", "1000000", "2000000"), sdk.ZeroInt()))
			vMust(vDelegate(i, sdk.NewInt(1000000000)))
		} else {
			vFund(vAddr(i), vCoins(vInt("x", "1000000000", "2000000000"), sdk.ZeroInt(), sdk.ZeroInt()))
			vMust(vDelegate(i, vInt("delegated", "1000000", "1000000000")))
		}
	}
	for j := rt.Choose("revoked", 3); j > 0; j-- {
		vTick(vCtx.BlockTime().Add(time.Duration(rt.Int64("later", 1, 3600000000000))))
		vMust(vRevoke(2, sdk.NewInt(300000), false))
	}
	vReborn()
}

func Verif_G01_referral() {
	vChainState()
	rt.Bound("network", "2 -> 3 -> 4 -> 5, 3 -> 6, some of them active, before or after compressions and banishment, possibly with a transition requested and with a status to be lost")
	vTop(2)
	grow := func(p, i int) {
		s := vItoa(i)
		vNewAcc(i)
		d := sdk.ZeroInt()
		if i != 5 {
			d = vInt("d"+s, "1", "1000000000")
		}
		vFund(vAddr(i), vCoins(vInt("x"+s, "1000000", vMaxCoins), d, sdk.ZeroInt()))
		vMust(vApp.GetReferralKeeper().AppendChild(vCtx, vAcc(p), vAcc(i)))
		vApp.GetReferralKeeper().ScheduleCompression(vCtx, vAcc(i), vCtx.BlockTime().Add(vApp.GetReferralKeeper().CompressionPeriod(vCtx)))
		vMember(i, rt.Choose("active"+s, 2) > 0, nil)
	}
	t := time.Duration(rt.Int64("pause", 1, 1000000))
	for i := 3; i < 7; i++ {
		grow([]int{2, 3, 4, 3}[i-3], i)
		vTick(vCtx.BlockTime().Add(t))
	}
	switch rt.Choose("status", 3) {
	case 1:
		vSetInfo(3, true, func(r *referralTypes.Info) { r.Status = vStatuses[2] })
	case 2:
		vSetInfo(3, true, func(r *referralTypes.Info) { r.Status = vStatuses[1] })
		vSetInfo(4, true, func(r *referralTypes.Info) { r.Status = vStatuses[2] })
	}
	if rt.Choose("transition", 2) > 0 {
		vMust(vRequestTransition(6, 2))
	}
	for j := rt.Choose("months", 5); j > 0; j-- {
		vTick(vCtx.BlockTime().Add(30*vDay + 10000000))
	}
	g, err := vApp.GetReferralKeeper().ExportToGenesis(vCtx)
	vMust(err)
	if len(g.Compressions) > 1 {
		rt.Cover("compressions")
	}
	if len(g.Banishment) > 0 {
		rt.Cover("banishment")
	}
	if len(g.BanishedAccounts) > 0 {
		rt.Cover("banished")
	}
	if len(g.Downgrades) > 1 {
		rt.Cover("downgrades")
	}
	if len(g.Transitions) > 0 {
		rt.Cover("transition")
	}
	vReborn()
}

func Verif_G01_profile() {
	vChainState()
	rt.Bound("profiles", "2 with any contents")
	for i := 2; i < 4; i++ {
		vTop(i)
		vMember(i, rt.Choose("paid", 2) > 0, func(p *profileTypes.Profile) {
			b := func(s string) bool { return rt.Bool(s) }
			p.AutoPay, p.Noding, p.Storage, p.Validator, p.Vpn, p.AutoPayImExtra = b("autopay"), b("noding"), b("storage"), b("validator"), b("vpn"), b("autopayim")
			n := func(s string) uint64 { return rt.Uint64(s, 0, 1<<63) }
			p.StorageLimit, p.StorageCurrent, p.VpnLimit, p.VpnCurrent, p.ImLimitExtra = n("sl"), n("sc"), n("vl"), n("vc"), n("im")
			if rt.Choose("im", 2) > 0 {
				t := vAt(rt.Int64("im until", -1<<60, 1<<60))
				p.ExtraImUntil = &t
			}
			p.Nickname = []string{"", "Somebody", "artr-x"}[rt.Choose("nick", 2)]
			if p.Nickname != "" {
				p.Nickname += vItoa(i)
			}
		})
	}
	vReborn()
}

// vSameNodes: nodes 1..n keep their records (but for their places in the queue of the lottery, which starts over).
func vSameNodes(old vWorld, n int) {
	was, k := old.app.GetNodingKeeper(), vApp.GetNodingKeeper()
	for i := 1; i <= n; i++ {
		a, err := was.Get(old.ctx, vAddr(i))
		if err != nil {
			_, err = k.Get(vCtx, vAddr(i))
			rt.Assert(err != nil, "no nodes appear")
			continue
		}
		b := vNode(i)
		rt.Assert(a.Status == b.Status && a.Jailed == b.Jailed && a.BannedForLife == b.BannedForLife && a.Staff == b.Staff && a.PubKey == b.PubKey, "the state of a node")
		rt.Assert(rt.And(rt.And(a.Strokes == b.Strokes, a.OkBlocksInRow == b.OkBlocksInRow), a.MissedBlocksInRow == b.MissedBlocksInRow), "the counters of a node")
		rt.Assert(rt.And(rt.And(a.ProposedCount == b.ProposedCount, a.JailCount == b.JailCount), a.UnjailAt == b.UnjailAt), "more counters of a node")
		rt.Assert(rt.Eq(a.Infractions, b.Infractions), "the infractions of a node")
		if a.IsActive() {
			rt.Assert(a.Score == b.Score, "the score of a node")
		}
		if a.Status {
			key := sdk.MustGetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, a.PubKey)
			o, ok, _, err := k.GetValidatorByConsAddr(vCtx, sdk.GetConsAddress(key))
			rt.Assert(err == nil && ok && o.Equals(vAddr(i)), "a node keeps its key")
		}
		rt.Assert(rt.Eq(was.GetBlocksProposedBy(old.ctx, vAddr(i)), k.GetBlocksProposedBy(vCtx, vAddr(i))), "the blocks it has proposed")
	}
}

func Verif_G01_noding() {
	k := vApp.GetNodingKeeper()
	rt.Bound("nodes", "3, switched on, off, jailed or banned, with any counters; up to 3 places in the consensus, of which up to 1 for the lottery")
	vGovern(4)
	n := 3
	max, lucky := 3, 0
	switch rt.Choose("max", 3) {
	case 1:
		max, lucky = 1, 1
	case 2:
		max = 2
	}
	p := k.GetParams(vCtx)
	p.MaxValidators, p.LotteryValidators, p.JailAfter, p.UnjailAfter = uint32(max), uint32(lucky), 1, 1000
	k.SetParams(vCtx, p)
	c := vConsensus{}
	for i := 1; i <= n; i++ {
		vTop(i)
		s := vItoa(i)
		v := nodingTypes.Validator{
			Account: vAcc(i), Staff: true, Strokes: int64(3 * i), OkBlocksInRow: int64(i),
			ProposedCount: rt.Int64("proposed"+s, 0, 1000000), JailCount: rt.Int64("jailed"+s, 0, 1000000), UnjailAt: rt.Int64("unjail"+s, 0, 1000),
		}
		if i == 2 {
			v.Strokes = rt.Int64("strokes"+s, 0, 15)
		}
		vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{v}))
		vMust(vOn(i, i))
	}
	vCtx = vCtx.WithBlockHeight(2)
	c.block()
	for i := n; i > 0; i-- {
		kinds := 8
		if i == 1 {
			kinds = 2 // there is always somebody
		} else if i == 2 && !rt.Thorough() {
			kinds = 4
		}
		switch rt.Choose("kind", kinds) {
		case 1:
			vMust(k.PayProposerReward(vCtx, vAddr(i)))
		case 2:
			vMust(k.MarkStroke(vCtx, vAddr(i)))
		case 3:
			vMust(vOff(i))
		case 4:
			vMust(k.MarkTick(vCtx, vAddr(i)))
		case 5:
			vMust(k.MarkByzantine(vCtx, vAddr(i), abci.Evidence{Height: rt.Int64("at", 1, 1000)}))
			if rt.Choose("twice", 2) > 0 {
				vMust(k.MarkByzantine(vCtx, vAddr(i), abci.Evidence{Height: rt.Int64("at again", 1, 1000)}))
			}
		case 6:
			vMust(vOff(i))
			vMust(vOn(i, 7))
		case 7:
			vMust(k.MarkStroke(vCtx, vAddr(i)))
			vMust(vOff(i))
			rt.Cover("jailed and off")
		}
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
	}
	c.block()

	old := vThis()
	g := vExport()
	rt.Assert(ModuleBasics[nodingTypes.ModuleName].ValidateGenesis(vApp.ec.Marshaler, nil, g[nodingTypes.ModuleName]) == nil, "a valid state")
	c = vConsensus{}
	c.apply(vRestart(g))
	vSameNodes(old, n)
	was := k
	k = vApp.GetNodingKeeper()
	rt.Assert(rt.Eq(was.GetParams(old.ctx), k.GetParams(vCtx)), "the parameters")
	top := 0
	for i := 1; i <= n; i++ {
		r := vNode(i)
		if !r.IsActive() {
			continue
		}
		key := sdk.MustGetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, r.PubKey)
		if c[string(key.Bytes())] != 0 {
			top++
		}
		if max == n {
			a, err := was.Get(old.ctx, vAddr(i))
			vMust(err)
			rt.Assert(rt.And(a.LastPower == r.LastPower, c[string(key.Bytes())] == r.LastPower), "the same powers")
		}
	}
	c.block()
	active := len(vMustNodes(k.GetActiveValidatorList(vCtx)))
	if active > max+lucky {
		active = max + lucky
	}
	rt.Assert(top > 0 && len(c) == active, "as many validators as there may be")
	rt.Cover("done")
}

func vMustNodes(r []sdk.AccAddress, err error) []sdk.AccAddress {
	vMust(err)
	return r
}
