package app

import (
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	cryptoTypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"

	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/noding"
	nodingKeeper "github.com/arterynetwork/artr/x/noding/keeper"
	nodingTypes "github.com/arterynetwork/artr/x/noding/types"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
)

// vKey is the i-th validator key.
func vKey(i int) cryptoTypes.PubKey {
	b := make([]byte, 32)
	b[0], b[31] = 0x51, byte(i)
	return &ed25519.PubKey{Key: b}
}

func vConsAddr(i int) sdk.ConsAddress { return sdk.GetConsAddress(vKey(i)) }

func vKeyText(i int) string { return sdk.MustBech32ifyPubKey(sdk.Bech32PubKeyTypeConsPub, vKey(i)) }

func vNode(i int) nodingTypes.Info {
	r, err := vApp.GetNodingKeeper().Get(vCtx, vAddr(i))
	vMust(err)
	return r
}

func vOn(i, key int) error {
	msg := &nodingTypes.MsgOn{Account: vAcc(i), PubKey: vKeyText(key)}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the account")
	return vTx(func(ctx sdk.Context) error {
		_, err := nodingKeeper.MsgServer(vApp.GetNodingKeeper()).On(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vOff(i int) error {
	msg := &nodingTypes.MsgOff{Account: vAcc(i)}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the account")
	return vTx(func(ctx sdk.Context) error {
		_, err := nodingKeeper.MsgServer(vApp.GetNodingKeeper()).Off(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vUnjail(i int) error {
	msg := &nodingTypes.MsgUnjail{Account: vAcc(i)}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the account")
	return vTx(func(ctx sdk.Context) error {
		_, err := nodingKeeper.MsgServer(vApp.GetNodingKeeper()).Unjail(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

// ---------- N03: the consensus engine is told of the right validators, by updates it accepts

// vConsensus is the validator set as the consensus engine keeps it: the power of each key.
type vConsensus map[string]int64

func vTmKey(u abci.ValidatorUpdate) string { return string(u.PubKey.GetEd25519()) }

// apply: an engine refuses repeated keys, negative powers and removals of unknown keys.
func (c vConsensus) apply(us []abci.ValidatorUpdate) {
	for i, u := range us {
		for _, v := range us[:i] {
			rt.Assert(vTmKey(u) != vTmKey(v), "one update per key")
		}
		rt.Assert(u.Power >= 0, "powers are not negative")
	}
	for _, u := range us {
		k := vTmKey(u)
		if u.Power == 0 {
			_, ok := c[k]
			rt.Assert(ok, "only validators are removed")
			delete(c, k)
		} else {
			c[k] = u.Power
		}
	}
}

// vStaff makes accounts 1..n that qualify for validators, with any score.
func vStaff(n int) {
	vs := []nodingTypes.Validator{}
	for i := 1; i <= n; i++ {
		vTop(i)
		vs = append(vs, nodingTypes.Validator{
			Account: vAcc(i), Staff: true, Strokes: rt.Int64("strokes"+vItoa(i), 0, 5),
			OkBlocksInRow: int64(i),
		})
	}
	vMust(vApp.GetNodingKeeper().SetNonActiveValidators(vCtx, vs))
}

// check: the set consists of the best validators that are switched on and not jailed.
func (c vConsensus) check(n, max int) {
	in, out := []nodingTypes.Info{}, []nodingTypes.Info{}
	for i := 1; i <= n; i++ {
		r := vNode(i)
		if !r.Status || r.Jailed || r.BannedForLife {
			continue
		}
		key := string(sdk.MustGetPubKeyFromBech32(sdk.Bech32PubKeyTypeConsPub, r.PubKey).Bytes())
		if p, ok := c[key]; ok {
			rt.Assert(p == r.LastPower, "the power is recorded")
			in = append(in, r)
		} else {
			rt.Assert(r.LastPower == 0, "no power is recorded")
			out = append(out, r)
		}
	}
	total := len(in) + len(out)
	if total > max {
		total = max
	}
	rt.Assert(len(in) == total, "as many validators as there may be")
	rt.Assert(len(c) == len(in), "only active validators")
	for _, x := range in {
		for _, y := range out {
			rt.Assert(x.Score >= y.Score, "the best validators")
		}
	}
}

// vStaffed: accounts 1..n qualify for validators, up to max of them at a time and lucky more by lottery.
func vStaffed(n, max, lucky int) vConsensus {
	vStaff(n)
	k := vApp.GetNodingKeeper()
	p := k.GetParams(vCtx)
	p.MaxValidators = uint32(max)
	p.LotteryValidators = uint32(lucky)
	p.JailAfter = 1
	p.UnjailAfter = 1
	k.SetParams(vCtx, p)
	return vConsensus{}
}

func (c vConsensus) block() {
	c.apply(noding.EndBlocker(vCtx, vApp.GetNodingKeeper()))
	vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
}

// Accounts switch off, then on with any keys, several in a block.
func Verif_N03_keys() {
	n := 2
	rt.Bound("accounts", vItoa(n))
	rt.Bound("keys", "2")
	rt.Bound("blocks", "2 with changes, 1 without")
	max := 1 + rt.Choose("max", 2)
	c := vStaffed(n, max, 0)
	for b := 0; b < 2; b++ {
		offs := 0
		if b > 0 {
			offs = rt.Choose("offs", 4)
		}
		for i := 1; i <= n; i++ {
			if offs&i != 0 {
				rt.Assume(vNode(i).Status)
				vMust(vOff(i))
			}
		}
		first := rt.Choose("first", 2)
		for j := 0; j < n; j++ {
			i := 1 + (first+j)%n
			if key := rt.Choose("key", 3); key > 0 {
				err := vOn(i, key)
				other := 3 - i
				o := vNode(other)
				rt.Assert((err == nil) == !(o.Status && o.PubKey == vKeyText(key)) || offs&i == 0, "a key that nobody uses is accepted, no other is")
				rt.Assume(err == nil)
			}
		}
		c.block()
		c.check(n, max)
	}
	before := len(c)
	us := noding.EndBlocker(vCtx, vApp.GetNodingKeeper())
	rt.Assert(len(us) == 0 && len(c) == before, "no updates without changes")
	rt.Cover("done")
}

// Validators miss blocks, go to jail and leave it; meanwhile, keys are taken.
func Verif_N03_jail() {
	n, steps := 2, 4
	if rt.Thorough() {
		steps = 6
	}
	rt.Bound("accounts", vItoa(n))
	rt.Bound("keys", "2")
	rt.Bound("blocks", vItoa(steps)+" with a change each, after the first")
	c := vStaffed(n, 2, 0)
	vMust(vOn(1, 1))
	c.block()
	for s := 0; s < steps; s++ {
		i := 1 + rt.Choose("who", n)
		k := vApp.GetNodingKeeper()
		switch rt.Choose("op", 5) {
		case 0:
			rt.Assume(vOn(i, 1) == nil)
		case 1:
			rt.Assume(vOn(i, 2) == nil)
		case 2:
			rt.Assume(vNode(i).Status)
			vMust(vOff(i))
		case 3:
			r := vNode(i)
			rt.Assume(r.LastPower != 0)
			vMust(k.MarkStroke(vCtx, vAddr(i)))
			rt.Assert(vNode(i).Jailed, "jailed")
		case 4:
			rt.Assume(vUnjail(i) == nil)
		}
		c.block()
		c.check(n, 2)
	}
	rt.Cover("done")
}

// The lottery: those who are not among the best take turns.
func Verif_N03_lottery() {
	n, max, lucky, steps, ops := 3, 1, 1, 3, 5
	if rt.Thorough() {
		n, lucky, ops = 4, 1+rt.Choose("lucky", 2), 6
	}
	rt.Bound("accounts", vItoa(n))
	rt.Bound("validators", "1 + 1 (quick) or 2 by lottery")
	rt.Bound("blocks", vItoa(steps)+" with a change each, after the first")
	c := vStaffed(n, max, lucky)
	k := vApp.GetNodingKeeper()
	for i := 1; i <= n; i++ {
		vMust(vOn(i, i))
	}
	c.block()
	c.lots(n, max, lucky, false)
	for s := 0; s < steps; s++ {
		i := 1 + rt.Choose("who", n)
		r := vNode(i)
		switch rt.Choose("op", ops) {
		case 0:
			rt.Assume(vOn(i, i) == nil)
		case 1:
			rt.Assume(r.Status)
			vMust(vOff(i))
		case 2:
			rt.Assume(r.LastPower != 0)
			vMust(k.MarkStroke(vCtx, vAddr(i)))
		case 3:
			rt.Assume(r.LastPower != 0)
			vMust(k.PayProposerReward(vCtx, vAddr(i)))
			if r.LotteryNo != 0 {
				vBehind(i, n)
			}
		case 4:
			rt.Assume(vUnjail(i) == nil)
		case 5:
			rt.Assume(r.LastPower != 0)
			vMust(k.MarkByzantine(vCtx, vAddr(i), abci.Evidence{}))
		}
		c.block()
		c.lots(n, max, lucky, false)
	}
	c.block()
	c.lots(n, max, lucky, true)
	rt.Cover("done")
}

// vBehind: account i is the last in the queue.
func vBehind(i, n int) {
	for j := 1; j <= n; j++ {
		rt.Assert(j == i || vNode(j).LotteryNo < vNode(i).LotteryNo, "a proposer goes to the end of the queue")
	}
}

// lots: the set is the best validators and the first ones of the queue; everybody else queues.
func (c vConsensus) lots(n, max, lucky int, settled bool) {
	top, luck, out := []nodingTypes.Info{}, []nodingTypes.Info{}, []nodingTypes.Info{}
	for i := 1; i <= n; i++ {
		r := vNode(i)
		if !r.IsActive() {
			rt.Assert(r.LotteryNo == 0, "only active validators take part in the lottery")
			rt.Assert(r.LastPower == 0, "no power is recorded")
			_, ok := c[string(vKey(i).Bytes())]
			rt.Assert(!ok, "only active validators")
			continue
		}
		p, ok := c[string(vKey(i).Bytes())]
		rt.Assert(p == r.LastPower, "the power is recorded")
		for j := 1; j < i; j++ {
			rt.Assert(r.LotteryNo == 0 || vNode(j).LotteryNo != r.LotteryNo, "one number each")
		}
		switch {
		case ok && r.LotteryNo == 0:
			top = append(top, r)
		case ok:
			luck = append(luck, r)
		default:
			rt.Assert(r.LotteryNo != 0, "those left out take part in the lottery")
			out = append(out, r)
		}
	}
	rest := append(append([]nodingTypes.Info{}, luck...), out...)
	total := len(top) + len(rest)
	rt.Assert(len(top) == max || len(rest) == 0, "as many of the best as there may be")
	rt.Assert(len(top) <= max, "no more of the best than there may be")
	rt.Assert(len(luck) <= lucky, "no more by lottery than there may be")
	if settled {
		want := max + lucky
		if total < want {
			want = total
		}
		rt.Assert(len(c) == want, "as many validators as there may be")
	}
	for _, x := range top {
		for _, y := range rest {
			rt.Assert(x.Score >= y.Score, "the best validators")
		}
	}
	for _, x := range luck {
		for _, y := range out {
			rt.Assert(x.LotteryNo < y.LotteryNo, "first come, first served")
		}
	}
}

// ---------- N01: validators qualify, always

// vCriteria sets any stake requirements (and the status one) for validators.
func vCriteria(status referralTypes.Status) (self, total int64) {
	k := vApp.GetNodingKeeper()
	p := k.GetParams(vCtx)
	self, total = rt.Int64("minself", 0, 4000000000), rt.Int64("mintotal", 0, 8000000000)
	rt.Assume(total >= self)
	p.MinCriteria = nodingTypes.MinCriteria{Status: status, SelfStake: uint64(self), TotalStake: uint64(total)}
	vMust(p.MinCriteria.Validate())
	k.SetParams(vCtx, p)
	return
}

// vLines: how many levels of the network count for the stake.
func vLines(s referralTypes.Status) int {
	switch s {
	case referralTypes.STATUS_LUCKY:
		return 4
	case referralTypes.STATUS_LEADER:
		return 6
	case referralTypes.STATUS_MASTER:
		return 8
	}
	return 10
}

// vQualifies: status, own stake and the stake of the network are enough.
func vQualifies(i int) bool {
	r := vRef(vCtx, i)
	c := vApp.GetNodingKeeper().GetParams(vCtx).MinCriteria
	total := sdk.ZeroInt()
	for l := 0; l <= vLines(r.Status); l++ {
		total = total.Add(r.Delegated[l])
	}
	return rt.And(rt.And(r.Status >= c.Status, vBal(vCtx, vAddr(i), uartrd).GTE(sdk.NewIntFromUint64(c.SelfStake))),
		total.GTE(sdk.NewIntFromUint64(c.TotalStake)))
}

func Verif_N01_on() {
	n := 6
	vChain(n)
	status := []referralTypes.Status{1, 2, 3, 4, 7, 9}[rt.Choose("status", 6)]
	vSetInfo(1, false, func(r *referralTypes.Info) { r.Status = status })
	vCriteria([]referralTypes.Status{1, 2, 4}[rt.Choose("minstatus", 3)])
	k := vApp.GetNodingKeeper()
	staff := rt.Choose("staff", 2) == 1
	before := nodingTypes.Info{}
	switch rt.Choose("state", 5) {
	case 0: // never has been a validator
		if staff {
			vMust(k.AddToStaff(vCtx, vAddr(1)))
		}
	case 1: // on
		vMust(k.AddToStaff(vCtx, vAddr(1)))
		vMust(vOn(1, 1))
		if !staff {
			// dismissed: stays on only if qualified
			vMust(k.RemoveFromStaff(vCtx, vAddr(1)))
			q := rt.Fork(vQualifies(1))
			rt.Assert(vNode(1).Status == q, "an unqualified validator does not outlive its staff membership")
		}
	case 2: // off
		vMust(k.AddToStaff(vCtx, vAddr(1)))
		vMust(vOn(1, 1))
		vMust(vOff(1))
		rt.Assert(!vNode(1).Status, "off")
		if !staff {
			vMust(k.RemoveFromStaff(vCtx, vAddr(1)))
		}
	case 3: // banned
		vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{{Account: vAcc(1), Banned: true, Staff: staff}}))
	case 4: // in jail, off
		vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{{Account: vAcc(1), Jailed: true, UnjailAt: 10, Staff: staff}}))
	}
	if r, err := k.Get(vCtx, vAddr(1)); err == nil {
		before = r
		rt.Assert(r.Staff == staff, "the staff is those added and not removed")
	}
	// another validator may hold the key
	busy := rt.Choose("busy", 2) == 1
	if busy {
		vMust(k.AddToStaff(vCtx, vAddr(2)))
		vMust(vOn(2, 2))
	}
	err := vOn(1, 2)
	can := !busy && !before.BannedForLife && !before.Status && (staff || rt.Fork(vQualifies(1)))
	rt.Assert((err == nil) == can, "exactly a qualified account switches on")
	if err == nil {
		rt.Cover("on")
		r := vNode(1)
		rt.Assert(r.Status && r.PubKey == vKeyText(2), "on with the key")
		rt.Assert(r.Jailed == before.Jailed && r.UnjailAt == before.UnjailAt && r.Staff == staff, "the rest of the record is kept")
		acc, found, active, err := k.GetValidatorByConsAddr(vCtx, vConsAddr(2))
		rt.Assert(err == nil && found && active == !r.Jailed && acc.Equals(vAddr(1)), "found by the key")
	} else {
		rt.Cover("refused")
	}
}

// A validator whose stake or status falls below the requirements is switched off at once.
func Verif_N01_change() {
	// 1 - 2 - 3 and 1 - 4, 5 is apart
	for _, e := range [][2]int{{0, 1}, {1, 2}, {2, 3}, {1, 4}, {0, 5}} {
		vGrow(e[0], e[1])
	}
	for i := 1; i <= 5; i++ {
		vProfile(i, true)
		vSetActive(i, true)
	}
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	bp.DustDelegation = 1000000000
	vApp.GetBankKeeper().SetParams(vCtx, bp)
	k, rk := vApp.GetNodingKeeper(), vApp.GetReferralKeeper()
	// the requirements are met
	self, _ := vCriteria(referralTypes.STATUS_LUCKY)
	rt.Assume(vQualifies(1))
	staff := false
	vMust(vOn(1, 1))
	_ = noding.EndBlocker(vCtx, k)
	rt.Assert(vNode(1).LastPower > 0, "a validator")
	rt.Assume(self <= 1000000000)
	switch what := rt.Choose("what", 8); what {
	case 0, 1, 2:
		i := []int{1, 2, 3}[what]
		rt.Assume(vRevoke(i, vInt("amount", "1", "1000000000"), rt.Choose("express", 2) == 1) == nil)
		rt.Cover("revoked")
	case 3:
		vDelegation(1+rt.Choose("who", 4), vInt("delegation", "0", "2000000000"))
	case 4:
		rt.Assume(vTransit(2+rt.Choose("who", 2), 5) == nil)
		rt.Cover("moved")
	case 5:
		i := 3 + rt.Choose("who", 2)
		vSetActive(i, false)
		vMust(rk.Banish(vCtx, vAcc(i)))
		rt.Cover("banished")
	case 6:
		vSetActive(2, false)
		vMust(rk.Compress(vCtx, vAcc(2)))
		rt.Cover("compressed")
	case 7:
		if staff = rt.Choose("staff", 2) == 1; staff {
			vMust(k.AddToStaff(vCtx, vAddr(1)))
		}
		vDelegation(1, sdk.ZeroInt())
	}
	keeps := staff || rt.Fork(vQualifies(1))
	rt.Assert(vNode(1).Status == keeps, "on exactly while qualified")
	us := noding.EndBlocker(vCtx, k)
	if keeps {
		rt.Cover("kept")
		rt.Assert(vNode(1).LastPower > 0, "still a validator")
	} else {
		rt.Cover("lost")
		rt.Assert(len(us) == 1 && us[0].Power == 0 && vNode(1).LastPower == 0, "no longer a validator")
	}
}

// The same for a status lost.
func Verif_N01_status() {
	vTop(1)
	vFund(vAddr(1), vCoins(sdk.ZeroInt(), sdk.NewInt(1000), sdk.ZeroInt()))
	x := 1 + rt.Choose("status", 6)
	vSetInfo(1, false, func(r *referralTypes.Info) {
		r.Status = vStatuses[x]
		r.Delegated[5] = vInt("level5", "0", "1000000000")
		r.Delegated[7] = vInt("level7", "0", "1000000000")
		r.Delegated[9] = vInt("level9", "0", "1000000000")
	})
	min := rt.Choose("min", 6)
	rt.Assume(min <= x)
	vCriteria(vStatuses[min])
	rt.Assume(vQualifies(1))
	vMust(vOn(1, 1))
	// the status is not earned
	vSetInfo(1, true, func(*referralTypes.Info) {})
	rt.Assert(vNode(1).Status, "kept until the status is lost")
	vTick(vT0.Add(2 * vDay))
	rt.Assert(vRef(vCtx, 1).Status < vStatuses[x], "the status is lost")
	keeps := rt.Fork(vQualifies(1))
	if keeps {
		rt.Cover("kept")
	} else {
		rt.Cover("lost")
	}
	rt.Assert(vNode(1).Status == keeps, "on exactly while qualified")
}

// ---------- N02: jail and bans

func vVote(key int, signed bool) abci.VoteInfo {
	return abci.VoteInfo{Validator: abci.Validator{Address: vConsAddr(key), Power: 10}, SignedLastBlock: signed}
}

// One block from any state of the counters.
func Verif_N02_votes() {
	k := vApp.GetNodingKeeper()
	p := k.GetParams(vCtx)
	jailAfter, unjailAfter := rt.Int64("jail after", 1, 1000000), rt.Int64("unjail after", 1, 1000000)
	p.JailAfter, p.UnjailAfter = uint32(jailAfter), uint32(unjailAfter)
	k.SetParams(vCtx, p)
	vCtx = vCtx.WithBlockHeight(rt.Int64("height", 2, 1000000000))
	recs := []nodingTypes.Info{}
	for i := 1; i <= 2; i++ {
		s := vItoa(i)
		vTop(i)
		v := nodingTypes.Validator{
			Account: vAcc(i), Staff: true, Strokes: rt.Int64("strokes"+s, 0, 1000000), JailCount: rt.Int64("jailed"+s, 0, 1000000),
			OkBlocksInRow: rt.Int64("ok"+s, 0, 1000000000), MissedBlocksInRow: rt.Int64("missed"+s, 0, 1000000),
			UnjailAt: rt.Int64("unjail"+s, 0, 1000000000), ProposedCount: rt.Int64("proposed"+s, 0, 1000000),
		}
		rt.Assume(v.MissedBlocksInRow < jailAfter)
		if i == 1 && rt.Choose("jailed", 2) == 1 {
			v.Jailed, v.SwitchedOn, v.PubKey = true, rt.Choose("on", 2) == 1, vKeyText(1)
			vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{v}))
			if !v.SwitchedOn {
				vMust(vOn(i, i))
			} else {
				// the key is known from the time before the jail
				v.Jailed, v.SwitchedOn = false, false
				vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{v}))
				vMust(vOn(i, i))
				v.Jailed, v.SwitchedOn = true, true
				vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{v}))
			}
		} else {
			vMust(k.SetNonActiveValidators(vCtx, []nodingTypes.Validator{v}))
			vMust(vOn(i, i))
		}
		recs = append(recs, vNode(i))
	}
	signed := []bool{rt.Bool("signed 1"), rt.Bool("signed 2")}
	votes := []abci.VoteInfo{}
	for i := range recs {
		signed[i] = rt.Fork(signed[i])
		votes = append(votes, vVote(i+1, signed[i]))
	}
	noding.BeginBlocker(vCtx, abci.RequestBeginBlock{LastCommitInfo: abci.LastCommitInfo{Votes: votes}}, k)
	for i, b := range recs {
		r := vNode(i + 1)
		rt.Assert(r.Status == b.Status && r.PubKey == b.PubKey && r.ProposedCount == b.ProposedCount && r.Staff == b.Staff, "the rest of the record is kept")
		switch {
		case signed[i]:
			rt.Assert(rt.And(r.OkBlocksInRow == b.OkBlocksInRow+1, rt.And(r.MissedBlocksInRow == 0, r.Strokes == b.Strokes)), "a signed block is counted")
			rt.Assert(r.Jailed == b.Jailed && rt.And(r.UnjailAt == b.UnjailAt, r.JailCount == b.JailCount), "nobody goes to jail for signing")
		case b.Jailed:
			rt.Assert(r.Jailed && rt.And(r.UnjailAt == b.UnjailAt, rt.And(r.JailCount == b.JailCount, r.Strokes == b.Strokes)), "prisoners are not counted")
		default:
			rt.Assert(rt.And(r.Strokes == b.Strokes+1, r.OkBlocksInRow == 0), "a missed block is counted")
			rt.Assert(rt.And(r.Score == b.Score-b.OkBlocksInRow/100-1, true), "a missed block costs a point and those earned in the row")
			if rt.Fork(b.MissedBlocksInRow+1 == jailAfter) {
				rt.Cover("jailed")
				rt.Assert(r.Jailed && rt.And(r.UnjailAt == vCtx.BlockHeight()+unjailAfter, rt.And(r.JailCount == b.JailCount+1, r.MissedBlocksInRow == 0)), "jailed")
			} else {
				rt.Cover("missed")
				rt.Assert(!r.Jailed && rt.And(r.MissedBlocksInRow == b.MissedBlocksInRow+1, rt.And(r.UnjailAt == b.UnjailAt, r.JailCount == b.JailCount)), "not jailed yet")
			}
		}
	}
}

// The way to jail and out of it.
func Verif_N02_jail() {
	k := vApp.GetNodingKeeper()
	p := k.GetParams(vCtx)
	p.JailAfter = uint32(1 + rt.Choose("jail after", 3))
	p.UnjailAfter = uint32(rt.Int64("unjail after", 1, 1000000))
	p.MinCriteria = nodingTypes.MinCriteria{Status: referralTypes.STATUS_LUCKY, SelfStake: 1000, TotalStake: 1000}
	k.SetParams(vCtx, p)
	vGrow(0, 1)
	vDelegation(1, sdk.NewInt(1000))
	vMust(vOn(1, 1))
	n := 4
	if rt.Thorough() {
		n = 6
	}
	rt.Bound("blocks", vItoa(n)+" signed or missed, then any number")
	row, jailed := 0, false
	at := int64(0)
	for b := 0; b < n && !jailed; b++ {
		_ = noding.EndBlocker(vCtx, k)
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
		if rt.Fork(rt.Bool("signed" + vItoa(b))) {
			row = 0
		} else {
			row++
		}
		if rt.Choose("toggle"+vItoa(b), 2) == 1 {
			// switching off and on changes nothing
			vMust(vOff(1))
			vMust(vOn(1, 1))
		}
		noding.BeginBlocker(vCtx, abci.RequestBeginBlock{LastCommitInfo: abci.LastCommitInfo{Votes: []abci.VoteInfo{vVote(1, row == 0)}}}, k)
		if row == int(p.JailAfter) {
			jailed, at = true, vCtx.BlockHeight()
		}
		rt.Assert(vNode(1).Jailed == jailed, "jailed after so many missed blocks in a row")
	}
	us := noding.EndBlocker(vCtx, k)
	if !jailed {
		rt.Cover("free")
		rt.Assert(vUnjail(1) != nil, "only prisoners are released")
		return
	}
	rt.Cover("jailed")
	rt.Assert(vNode(1).LastPower == 0 && (at == 2 || len(us) == 1 && us[0].Power == 0), "prisoners are not validators")
	is, err := k.IsActiveValidator(vCtx, vAddr(1))
	rt.Assert(err == nil && !is, "prisoners are not active")
	qualified := rt.Choose("qualified", 2) == 1
	if !qualified {
		vDelegation(1, sdk.NewInt(999))
	}
	later := rt.Int64("later", 0, 10000000)
	vCtx = vCtx.WithBlockHeight(at + later)
	err = vUnjail(1)
	if !rt.Fork(later >= int64(p.UnjailAfter)) {
		rt.Assert(err != nil && vNode(1).Jailed, "not released before the time")
		return
	}
	rt.Assert(err == nil && !vNode(1).Jailed, "released")
	rt.Assert(vNode(1).Status == qualified, "on again if qualified still")
	us = noding.EndBlocker(vCtx, k)
	rt.Assert(len(us) == 1 == qualified, "a validator again if qualified still")
	rt.Assert((vNode(1).LastPower > 0) == qualified, "a validator again if qualified still")
	// a released validator is on probation
	is, err = k.IsActiveValidator(vCtx, vAddr(1))
	rt.Assert(err == nil && is == (qualified && rt.Fork(later-int64(p.UnjailAfter) >= 6*int64(p.UnjailAfter))), "active after the probation")
	rt.Assert(vUnjail(1) != nil, "only prisoners are released")
	// and missed blocks are counted anew
	if qualified {
		noding.BeginBlocker(vCtx, abci.RequestBeginBlock{LastCommitInfo: abci.LastCommitInfo{Votes: []abci.VoteInfo{vVote(1, false)}}}, k)
		rt.Assert(vNode(1).Jailed == (p.JailAfter == 1), "missed blocks are counted anew")
	}
}

// The second proof of double signing bans for life.
func Verif_N02_ban() {
	k := vApp.GetNodingKeeper()
	p := k.GetParams(vCtx)
	p.JailAfter = 1
	k.SetParams(vCtx, p)
	for i := 1; i <= 2; i++ {
		vTop(i)
		vMust(k.AddToStaff(vCtx, vAddr(i)))
		vMust(vOn(i, i))
	}
	_ = noding.EndBlocker(vCtx, k)
	n := 4
	if rt.Thorough() {
		n = 6
	}
	rt.Bound("events", vItoa(n))
	proofs := []int{0, 0}
	for e := 0; e < n; e++ {
		req := abci.RequestBeginBlock{}
		switch x := rt.Choose("event", 6); x {
		case 0, 1:
			proofs[x]++
			req.ByzantineValidators = []abci.Evidence{{Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: vConsAddr(x + 1)}, Height: int64(e)}}
		case 2: // several proofs at once
			proofs[0] += 2
			proofs[1]++
			for _, key := range []int{1, 2, 1} {
				req.ByzantineValidators = append(req.ByzantineValidators, abci.Evidence{Type: abci.EvidenceType_DUPLICATE_VOTE, Validator: abci.Validator{Address: vConsAddr(key)}, Height: int64(e)})
			}
		case 3:
			rt.Assume(!vNode(1).Jailed && vNode(1).LastPower > 0)
			req.LastCommitInfo.Votes = []abci.VoteInfo{vVote(1, false)}
		case 4:
			rt.Assume(vNode(1).Status)
			vMust(vOff(1))
		case 5:
			rt.Assume(proofs[0] > 0)
			vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 10000)
			_ = vUnjail(1)
			_ = vOn(1, 1)
		}
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
		noding.BeginBlocker(vCtx, req, k)
		_ = noding.EndBlocker(vCtx, k)
		for i := 1; i <= 2; i++ {
			r := vNode(i)
			rt.Assert(len(r.Infractions) == proofs[i-1], "every proof is recorded")
			rt.Assert(r.BannedForLife == (proofs[i-1] >= 2), "banned for the second proof")
			banned, err := k.IsBanned(vCtx, vAddr(i))
			rt.Assert(err == nil && banned == (proofs[i-1] >= 2), "banned for the second proof")
			if r.BannedForLife {
				rt.Cover("banned")
				rt.Assert(!r.Status && r.LastPower == 0, "a banned account is not a validator")
				rt.Assert(vOn(i, i) != nil && vOn(i, 3) != nil, "a banned account cannot be a validator again")
				is, err := k.IsValidator(vCtx, vAddr(i))
				rt.Assert(err == nil && !is, "a banned account is not a validator")
			} else if i == 2 {
				rt.Assert(r.LastPower > 0, "one proof does not cost the place")
			}
		}
	}
}

// ---------- N04: the proposer of a block gets the fees

func Verif_N04_reward() {
	k, bk := vApp.GetNodingKeeper(), vApp.GetBankKeeper()
	cfg, _ := vFeeParams()
	for i := 1; i <= 2; i++ {
		vGrow(0, i)
		vMust(k.AddToStaff(vCtx, vAddr(i)))
		vMust(vOn(i, i))
	}
	proposer := rt.Choose("proposer", 2)
	if proposer == 0 {
		// the company itself
		vMust(k.AddToStaff(vCtx, vAddr(0)))
		vMust(vOn(0, 3))
		proposer = 3
	}
	acc := vAddr(proposer % 3)
	company := vAddr(0)
	fees := vApp.GetAccountKeeper().GetModuleAddress(authTypes.FeeCollectorName)
	x := vInt("fees", "0", vMaxCoins)
	s := vInt("splittable", "0", vMaxCoins)
	vFund(fees, vCoins(x, sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vCollector(), vCoins(s, sdk.ZeroInt(), sdk.ZeroInt()))
	height := rt.Int64("height", 2, 1000000000)
	vCtx = vCtx.WithBlockHeight(height)
	a, b := s.MulRaw(cfg.pn).QuoRaw(cfg.pd), s.MulRaw(cfg.cn).QuoRaw(cfg.cd)
	was, wasC, was2 := vBal(vCtx, acc, uartr), vBal(vCtx, company, uartr), bk.GetBalance(vCtx, vAddr(2))
	supply := vSupply(vCtx, uartr)
	count := vNode(proposer % 3).ProposedCount
	noding.BeginBlocker(vCtx, abci.RequestBeginBlock{Header: tmproto.Header{ProposerAddress: vConsAddr(proposer)}}, k)
	if proposer == 3 {
		rt.Assert(vBal(vCtx, acc, uartr).Equal(was.Add(x).Add(a).Add(b)), "the company gets both shares")
	} else {
		rt.Assert(vBal(vCtx, acc, uartr).Equal(was.Add(x).Add(a)), "the proposer gets the fees and its share")
		rt.Assert(vBal(vCtx, company, uartr).Equal(wasC.Add(b)), "the company gets its share")
	}
	rt.Assert(vBal(vCtx, fees, uartr).IsZero() && vBal(vCtx, vCollector(), uartr).IsZero(), "all is paid")
	rt.Assert(vSupply(vCtx, uartr).Equal(supply.Sub(s).Add(a).Add(b)), "the rest is burned")
	vSupplyHolds("reward")
	rt.Assert(bk.GetBalance(vCtx, vAddr(2)).IsEqual(was2), "others get nothing")
	rt.Assert(vNode(proposer%3).ProposedCount == count+1, "the block is counted")
	who, err := k.GetBlockProposer(vCtx, height-1)
	rt.Assert(err == nil && who.Equals(acc), "the proposer is recorded")
	// the next block: there is nothing to pay
	vCtx = vCtx.WithBlockHeight(height + 1)
	all := bk.GetBalance(vCtx, acc)
	noding.BeginBlocker(vCtx, abci.RequestBeginBlock{Header: tmproto.Header{ProposerAddress: vConsAddr(proposer)}}, k)
	rt.Assert(bk.GetBalance(vCtx, acc).IsEqual(all), "paid once")
	hs := k.GetBlocksProposedBy(vCtx, acc)
	rt.Assert(len(hs) == 2 && rt.And(hs[0] == uint64(height-1), hs[1] == uint64(height)), "the blocks proposed")
}
