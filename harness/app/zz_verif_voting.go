package app

import (
	"encoding/binary"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
	upgradeTypes "github.com/cosmos/cosmos-sdk/x/upgrade/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	bankTypes "github.com/arterynetwork/artr/x/bank/types"
	delegatingTypes "github.com/arterynetwork/artr/x/delegating/types"
	earningTypes "github.com/arterynetwork/artr/x/earning/types"
	nodingTypes "github.com/arterynetwork/artr/x/noding/types"
	profileTypes "github.com/arterynetwork/artr/x/profile/types"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
	votingKeeper "github.com/arterynetwork/artr/x/voting/keeper"
	votingTypes "github.com/arterynetwork/artr/x/voting/types"
)

func vPropose(p votingTypes.Proposal) error {
	msg := &votingTypes.MsgPropose{Proposal: p}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].String() == p.Author, "signed by the author")
	return vTx(func(ctx sdk.Context) error {
		_, err := votingKeeper.MsgServer(vApp.GetVotingKeeper()).Propose(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vBallot(i int, agree bool) error {
	msg := &votingTypes.MsgVote{Voter: vAcc(i), Agree: agree}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the voter")
	return vTx(func(ctx sdk.Context) error {
		_, err := votingKeeper.MsgServer(vApp.GetVotingKeeper()).Vote(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vMinSend(author int, x int64) votingTypes.Proposal {
	return votingTypes.Proposal{
		Type:   votingTypes.PROPOSAL_TYPE_MIN_SEND,
		Name:   "minimal amount",
		Author: vAcc(author),
		Args:   &votingTypes.Proposal_MinAmount{MinAmount: &votingTypes.MinAmountArgs{MinAmount: x}},
	}
}

func vGovern(n int) {
	var g votingTypes.Government
	for i := 1; i <= n; i++ {
		g.Members = append(g.Members, vAcc(i))
	}
	vApp.GetVotingKeeper().SetGovernment(vCtx, g)
}

// ---------- V01: proposals are decided by the government

func Verif_V01_decision() {
	k := vApp.GetVotingKeeper()
	max := 4
	if rt.Thorough() {
		max = 6
	}
	rt.Bound("government", "1 to "+vItoa(max)+" members")
	n := 1 + rt.Choose("members", max)
	vGovern(n)
	vp := k.GetParams(vCtx)
	vp.VotingPeriod = int32(rt.Int64("voting period", 1, 100000))
	k.SetParams(vCtx, vp)
	minSend := func() int64 { return vApp.GetBankKeeper().GetParams(vCtx).MinSend }
	old := minSend()
	x := rt.Int64("x", 1, 1<<60)
	rt.Assume(x != old)
	author := 1 + rt.Choose("author", n)
	rt.Assert(vPropose(vMinSend(n+1, x)) != nil, "only governors propose")
	rt.Assert(vBallot(author, true) != nil, "no votes without a proposal")
	start := vCtx.BlockTime()
	vMust(vPropose(vMinSend(author, x)))
	end := start.Add(time.Duration(vp.VotingPeriod) * time.Hour)
	height := vCtx.BlockHeight()

	agreed, disagreed := []string{vAcc(author)}, []string(nil)
	over, finished := n == 1, height
	if rt.Choose("next block", 2) == 1 {
		vTick(start.Add(time.Minute))
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 3)
	}
	for j := 1; j < n; j++ {
		i := (author-1+j)%n + 1
		rt.Assert(!over && k.GetCurrentProposal(vCtx) != nil, "a proposal is open until everybody has voted")
		rt.Assert(minSend() == old, "nothing changes before everybody has voted")
		rt.Assert(vBallot(n+1, true) != nil, "only governors vote")
		rt.Assert(vBallot(author, false) != nil, "nobody votes twice")
		rt.Assert(vPropose(vMinSend(i, x+1)) != nil, "one proposal at a time")
		switch rt.Choose("vote"+vItoa(i), 3) {
		case 0:
			vMust(vBallot(i, true))
			agreed = append(agreed, vAcc(i))
		case 1:
			vMust(vBallot(i, false))
			disagreed = append(disagreed, vAcc(i))
		default:
			continue
		}
		rt.Assert(vBallot(i, true) != nil && vBallot(i, false) != nil, "nobody votes twice")
		over, finished = len(agreed)+len(disagreed) == n, vCtx.BlockHeight()
	}
	if !over {
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 10)
		vTick(end.Add(-1))
		rt.Assert(k.GetCurrentProposal(vCtx) != nil && minSend() == old, "open until its time is over")
		vTick(end)
		finished = vCtx.BlockHeight()
	}
	rt.Assert(k.GetCurrentProposal(vCtx) == nil, "over")
	accepted := over && 3*len(agreed) >= 2*n
	if accepted {
		rt.Assert(minSend() == x, "accepted by two thirds")
	} else {
		rt.Assert(minSend() == old, "rejected")
	}
	h := k.GetHistory(vCtx, 100, 1)
	rt.Assert(len(h) == 1, "one record")
	r := h[0]
	rt.Assert(rt.Eq(r.Agreed, agreed) && rt.Eq(r.Disagreed, disagreed) && rt.Eq(r.Government, k.GetGovernment(vCtx).Members), "the votes are recorded")
	rt.Assert(r.Started == height && r.Finished == finished && r.Proposal.Author == vAcc(author) && r.Proposal.GetMinAmount().MinAmount == x, "the proposal is recorded")
	rt.Assert(vBallot(author, true) != nil, "no votes without a proposal")

	// Another one, which the end of the first one does not concern.
	if rt.Choose("next", 2) == 1 {
		vTick(vCtx.BlockTime().Add(time.Minute))
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
	}
	vMust(vPropose(vMinSend(author, x+1)))
	if n == 1 {
		rt.Assert(minSend() == x+1 && k.GetCurrentProposal(vCtx) == nil, "the only governor decides alone")
	} else {
		end2 := vCtx.BlockTime().Add(time.Duration(vp.VotingPeriod) * time.Hour)
		before := minSend()
		if rt.Fork(end.Before(end2)) && rt.Fork(vCtx.BlockTime().Before(end)) {
			vTick(end)
		}
		vTick(end2.Add(-1))
		rt.Assert(k.GetCurrentProposal(vCtx) != nil, "open until its time is over")
		for i := 1; i <= n; i++ {
			if i != author {
				vMust(vBallot(i, false))
			}
		}
		rt.Assert(k.GetCurrentProposal(vCtx) == nil && minSend() == before, "rejected")
	}
	rt.Assert(len(k.GetHistory(vCtx, 100, 1)) == 2, "one record each")
	vTick(end.Add(1000000 * time.Hour))
	rt.Assert(len(k.GetHistory(vCtx, 100, 1)) == 2, "one record each")
}

// ---------- V02: accepted proposals change what they say, and nothing else

type vSettings struct {
	Bank       bankTypes.Params
	Delegating delegatingTypes.Params
	Noding     nodingTypes.Params
	Referral   referralTypes.Params
	Profile    profileTypes.Params
	Earning    earningTypes.Params
	Voting     votingTypes.Params
	Government []string
	Staff      []bool
	Plan       upgradeTypes.Plan
	Planned    bool
}

func vSettle2() (s vSettings) {
	s.Bank = vApp.GetBankKeeper().GetParams(vCtx)
	s.Delegating = vApp.GetDelegatingKeeper().GetParams(vCtx)
	s.Noding = vApp.GetNodingKeeper().GetParams(vCtx)
	s.Referral = vApp.GetReferralKeeper().GetParams(vCtx)
	s.Profile = vApp.GetProfileKeeper().GetParams(vCtx)
	s.Earning = vApp.GetEarningKeeper().GetParams(vCtx)
	s.Voting = vApp.GetVotingKeeper().GetParams(vCtx)
	s.Government = vApp.GetVotingKeeper().GetGovernment(vCtx).Members
	for i := 1; i <= 3; i++ {
		r, _ := vApp.GetNodingKeeper().Get(vCtx, vAddr(i))
		s.Staff = append(s.Staff, r.Staff)
	}
	s.Plan, s.Planned = vApp.upgradeKeeper.GetUpgradePlan(vCtx)
	return
}

// vDecide: the two governors agree.
func vDecide(t votingTypes.ProposalType, args votingTypes.Proposal) {
	args.Type, args.Name, args.Author = t, "p", vAcc(1)
	rt.Assert(vPropose(args) == nil, "proposed")
	rt.Assert(vBallot(2, true) == nil, "the last vote can be cast")
	rt.Assert(vApp.GetVotingKeeper().GetCurrentProposal(vCtx) == nil, "over")
}

func vListed(l []string, want []int) bool {
	if len(l) != len(want) {
		return false
	}
	for _, i := range want {
		if vCount(l, vAcc(i)) != 1 {
			return false
		}
	}
	return true
}

// Lists of accounts.
func Verif_V02_lists() {
	vGovern(2)
	for i := 1; i <= 3; i++ {
		vGrow(0, i)
	}
	type list struct {
		add, remove votingTypes.ProposalType
		get         func(s *vSettings) *[]string
		least       int
	}
	lists := []list{
		{votingTypes.PROPOSAL_TYPE_GOVERNMENT_ADD, votingTypes.PROPOSAL_TYPE_GOVERNMENT_REMOVE, func(s *vSettings) *[]string { return &s.Government }, 1},
		{votingTypes.PROPOSAL_TYPE_FREE_CREATOR_ADD, votingTypes.PROPOSAL_TYPE_FREE_CREATOR_REMOVE, func(s *vSettings) *[]string { return &s.Profile.Creators }, 1},
		{votingTypes.PROPOSAL_TYPE_EARNING_SIGNER_ADD, votingTypes.PROPOSAL_TYPE_EARNING_SIGNER_REMOVE, func(s *vSettings) *[]string { return &s.Earning.Signers }, 1},
		{votingTypes.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_ADD, votingTypes.PROPOSAL_TYPE_TOKEN_RATE_SIGNER_REMOVE, func(s *vSettings) *[]string { return &s.Profile.TokenRateSigners }, 1},
		{votingTypes.PROPOSAL_TYPE_VPN_SIGNER_ADD, votingTypes.PROPOSAL_TYPE_VPN_SIGNER_REMOVE, func(s *vSettings) *[]string { return &s.Profile.VpnSigners }, 1},
		{votingTypes.PROPOSAL_TYPE_STORAGE_SIGNER_ADD, votingTypes.PROPOSAL_TYPE_STORAGE_SIGNER_REMOVE, func(s *vSettings) *[]string { return &s.Profile.StorageSigners }, 1},
		{votingTypes.PROPOSAL_TYPE_BLOCKED_SENDER_ADD, votingTypes.PROPOSAL_TYPE_BLOCKED_SENDER_REMOVE, func(s *vSettings) *[]string { return &s.Bank.BlockedSenders }, 0},
		{votingTypes.PROPOSAL_TYPE_STAFF_VALIDATOR_ADD, votingTypes.PROPOSAL_TYPE_STAFF_VALIDATOR_REMOVE, nil, 0},
	}
	l := lists[rt.Choose("list", len(lists))]
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rt.Bound("changes of a list", vItoa(n))
	s := vSettle2()
	var want []int
	if l.get != nil {
		for i := 0; i <= 3; i++ {
			if vCount(*l.get(&s), vAcc(i)) != 0 {
				want = append(want, i)
			}
		}
		rt.Assert(vListed(*l.get(&s), want), "the list at the beginning")
	}
	gov := l.add == votingTypes.PROPOSAL_TYPE_GOVERNMENT_ADD
	for j := 0; j < n; j++ {
		i := rt.Choose("who", 4)
		if l.get == nil && i == 0 {
			return
		}
		args := votingTypes.Proposal{Args: &votingTypes.Proposal_Address{Address: &votingTypes.AddressArgs{Address: vAcc(i)}}}
		was := -1
		for p, x := range want {
			if x == i {
				was = p
			}
		}
		t := l.add
		if rt.Choose("remove", 2) == 1 {
			t = l.remove
			if was >= 0 && len(want) > l.least {
				want = append(append([]int(nil), want[:was]...), want[was+1:]...)
			}
		} else if was < 0 {
			want = append(want, i)
		}
		if gov {
			// all governors vote, the first one proposes
			args.Type, args.Name = t, "p"
			args.Author = s.Government[0]
			rt.Assert(vPropose(args) == nil, "proposed")
			for _, g := range s.Government[1:] {
				a, err := sdk.AccAddressFromBech32(g)
				vMust(err)
				err = vTx(func(ctx sdk.Context) error { return vApp.GetVotingKeeper().Vote(ctx, a, true) })
				rt.Assert(err == nil, "the last vote can be cast")
			}
			rt.Assert(vApp.GetVotingKeeper().GetCurrentProposal(vCtx) == nil, "over")
		} else {
			vDecide(t, args)
		}
		r := vSettle2()
		if l.get == nil {
			for i := 1; i <= 3; i++ {
				in := false
				for _, x := range want {
					in = in || x == i
				}
				rt.Assert(r.Staff[i-1] == in, "the list is as decided")
			}
			s.Staff = r.Staff
		} else {
			rt.Assert(vListed(*l.get(&r), want), "the list is as decided")
			*l.get(&s) = *l.get(&r)
		}
		rt.Assert(rt.Eq(s, r), "nothing else changes")
		vCtx = vCtx.WithBlockHeight(vCtx.BlockHeight() + 1)
	}
}

// Numbers and tables.
func Verif_V02_values() {
	vGovern(2)
	for i := 1; i <= 3; i++ {
		vGrow(0, i)
	}
	s := vSettle2()
	price := func() (*votingTypes.Proposal_Price, uint32) {
		x := uint32(rt.Int64("price", 0, 1<<32-1))
		return &votingTypes.Proposal_Price{Price: &votingTypes.PriceArgs{Price: x}}, x
	}
	amount := func() (*votingTypes.Proposal_MinAmount, int64) {
		x := rt.Int64("amount", -1<<62, 1<<62)
		return &votingTypes.Proposal_MinAmount{MinAmount: &votingTypes.MinAmountArgs{MinAmount: x}}, x
	}
	count := func() (*votingTypes.Proposal_Count, uint32) {
		x := uint32(rt.Int64("count", 0, 1<<32-1))
		return &votingTypes.Proposal_Count{Count: &votingTypes.CountArgs{Count: x}}, x
	}
	revoke := func() (*votingTypes.Proposal_Revoke, delegatingTypes.Revoke) {
		x := delegatingTypes.Revoke{Period: uint32(rt.Int64("period", 1, 1000)), Burn: util.NewFraction(rt.Int64("burn", 0, 99), 100)}
		return &votingTypes.Proposal_Revoke{Revoke: &votingTypes.RevokeArgs{Revoke: &x}}, x
	}
	var p votingTypes.Proposal
	var t votingTypes.ProposalType
	switch rt.Choose("type", 19) {
	case 0:
		t = votingTypes.PROPOSAL_TYPE_ENTER_PRICE
		args, x := price()
		p.Args = args
		if rt.Fork(x > 0) {
			s.Profile.SubscriptionPrice = x
		}
	case 1:
		t = votingTypes.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE
		args, x := price()
		p.Args = args
		if rt.Fork(x > 0) {
			s.Profile.VpnGbPrice = x
		}
	case 2:
		t = votingTypes.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE
		args, x := price()
		p.Args = args
		if rt.Fork(x > 0) {
			s.Profile.StorageGbPrice = x
		}
	case 3:
		t = votingTypes.PROPOSAL_TYPE_TRANSITION_PRICE
		args, x := price()
		p.Args = args
		s.Referral.TransitionPrice = uint64(x)
	case 4:
		t = votingTypes.PROPOSAL_TYPE_MIN_SEND
		args, x := amount()
		p.Args = args
		s.Bank.MinSend = x
	case 5:
		t = votingTypes.PROPOSAL_TYPE_MIN_DELEGATE
		args, x := amount()
		p.Args = args
		if rt.Fork(x > 0) {
			s.Delegating.MinDelegate = x
		}
	case 6:
		t = votingTypes.PROPOSAL_TYPE_MAX_VALIDATORS
		args, x := count()
		p.Args = args
		if rt.Fork(x > 0) {
			s.Noding.MaxValidators = x
		}
	case 7:
		t = votingTypes.PROPOSAL_TYPE_LUCKY_VALIDATORS
		args, x := count()
		p.Args = args
		s.Noding.LotteryValidators = x
	case 8:
		t = votingTypes.PROPOSAL_TYPE_JAIL_AFTER
		args, x := count()
		p.Args = args
		rt.Assume(x > 0)
		s.Noding.JailAfter = x
	case 9:
		t = votingTypes.PROPOSAL_TYPE_DUST_DELEGATION
		args, x := amount()
		p.Args = args
		if rt.Fork(x >= 0) {
			s.Bank.DustDelegation = x
		}
	case 10:
		t = votingTypes.PROPOSAL_TYPE_MAX_TRANSACTION_FEE
		args, x := amount()
		p.Args = args
		if rt.Fork(x >= 0) {
			s.Bank.MaxTransactionFee = x
		}
	case 11:
		t = votingTypes.PROPOSAL_TYPE_TRANSACTION_FEE
		x := util.NewFraction(rt.Int64("fee", 0, 999), 1000)
		p.Args = &votingTypes.Proposal_Portion{Portion: &votingTypes.PortionArgs{Fraction: x}}
		s.Bank.TransactionFee = x
	case 12:
		t = votingTypes.PROPOSAL_TYPE_TRANSACTION_FEE_SPLIT_RATIOS
		a := rt.Choose("a", 5)
		x, y := util.NewFraction(int64(a), 4), util.NewFraction(int64(rt.Choose("b", 5-a)), 4)
		p.Args = &votingTypes.Proposal_Portions{Portions: &votingTypes.PortionsArgs{Fractions: []util.Fraction{x, y}}}
		s.Bank.TransactionFeeSplitRatios = bankTypes.TransactionFeeSplitRatios{ForProposer: x, ForCompany: y}
	case 13:
		t = votingTypes.PROPOSAL_TYPE_REVOKE
		args, x := revoke()
		p.Args = args
		s.Delegating.Revoke = x
	case 14:
		t = votingTypes.PROPOSAL_TYPE_EXPRESS_REVOKE
		args, x := revoke()
		p.Args = args
		s.Delegating.ExpressRevoke = x
	case 15:
		t = votingTypes.PROPOSAL_TYPE_VALIDATOR_MINIMAL_CRITERIA
		x := nodingTypes.MinCriteria{
			Status:     vStatuses[rt.Choose("status", len(vStatuses))],
			SelfStake:  rt.Uint64("self stake", 0, 1<<62),
			TotalStake: rt.Uint64("total stake", 0, 1<<62),
		}
		rt.Assume(x.TotalStake >= x.SelfStake)
		p.Args = &votingTypes.Proposal_MinCriteria{MinCriteria: &votingTypes.MinCriteriaArgs{MinCriteria: &x}}
		s.Noding.MinCriteria = x
	case 16:
		t = votingTypes.PROPOSAL_TYPE_VOTING_POWER
		x := nodingTypes.Distribution{
			Slices: []nodingTypes.Distribution_Slice{
				{Part: util.Percent(20), VotingPower: rt.Int64("power 1", 11, 1000)},
				{Part: util.Percent(80), VotingPower: rt.Int64("power 2", 1, 10)},
			},
			LuckiesVotingPower: rt.Int64("power 3", 1, 1000),
		}
		p.Args = &votingTypes.Proposal_VotingPower{VotingPower: &x}
		s.Noding.VotingPower = x
	case 17:
		t = votingTypes.PROPOSAL_TYPE_ACCRUE_PERCENTAGE_TABLE
		var x []delegatingTypes.PercentageListRange
		for j := 0; j < 2; j++ {
			var ps []util.Fraction
			for b := 0; b < 5; b++ {
				ps = append(ps, util.Percent(int64(b+10*j)))
			}
			x = append(x, delegatingTypes.PercentageListRange{Start: uint64(j) * rt.Uint64("start", 1, 1<<62), PercentList: ps})
		}
		p.Args = &votingTypes.Proposal_AccruePercentageTable{AccruePercentageTable: &votingTypes.AccruePercentageTableArgs{AccruePercentageTable: x}}
		s.Delegating.AccruePercentageTable = x
	case 18:
		t = votingTypes.PROPOSAL_TYPE_SOFTWARE_UPGRADE
		at := vT0.Add(time.Duration(rt.Int64("at", 1, int64(1000*vDay))))
		p.Args = &votingTypes.Proposal_SoftwareUpgrade{SoftwareUpgrade: &votingTypes.SoftwareUpgradeArgs{Name: "u", Info: "i", Time: &at}}
		s.Plan, s.Planned = upgradeTypes.Plan{Name: "u", Info: "i", Time: at}, true
	}
	vDecide(t, p)
	rt.Assert(rt.Eq(s, vSettle2()), "exactly what has been decided changes")
	if t == votingTypes.PROPOSAL_TYPE_SOFTWARE_UPGRADE {
		vDecide(votingTypes.PROPOSAL_TYPE_CANCEL_SOFTWARE_UPGRADE, votingTypes.Proposal{})
		s.Plan, s.Planned = upgradeTypes.Plan{}, false
		rt.Assert(rt.Eq(s, vSettle2()), "the upgrade is cancelled")
	}
}

// A general amnesty forgives missed blocks and jail terms; it neither releases nor unbans anybody.
func Verif_V02_amnesty() {
	vGovern(2)
	n := 3
	c := vStaffed(n, 2, 0)
	k := vApp.GetNodingKeeper()
	for i := 1; i <= n; i++ {
		vMust(vOn(i, i))
	}
	c.block()
	terms := k.GetParams(vCtx).JailAfter
	for i := 1; i <= n; i++ {
		switch rt.Choose("fate", 4) {
		case 1:
			for j := 0; j < int(terms); j++ {
				vMust(k.MarkStroke(vCtx, vAddr(i)))
			}
			rt.Assert(vNode(i).Jailed, "jailed")
		case 2:
			vMust(k.MarkStroke(vCtx, vAddr(i)))
		case 3:
			vMust(k.MarkByzantine(vCtx, vAddr(i), abci.Evidence{}))
			vMust(k.MarkByzantine(vCtx, vAddr(i), abci.Evidence{}))
		}
	}
	c.block()
	s := vSettle2()
	var want []nodingTypes.Info
	for i := 1; i <= n; i++ {
		r := vNode(i)
		r.Score += r.Strokes
		r.Strokes, r.JailCount = 0, 0
		want = append(want, r)
	}
	vDecide(votingTypes.PROPOSAL_TYPE_GENERAL_AMNESTY, votingTypes.Proposal{})
	rt.Assert(rt.Eq(s, vSettle2()), "nothing else changes")
	for i := 1; i <= n; i++ {
		rt.Assert(rt.Eq(vNode(i), want[i-1]), "missed blocks are forgiven")
	}
	c.block()
	c.check(n, 2)
}


// ---------- V03: polls

func vStartPoll(p votingTypes.Poll) error {
	msg := &votingTypes.MsgStartPoll{Poll: p}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].String() == p.Author, "signed by the author")
	return vTx(func(ctx sdk.Context) error {
		_, err := votingKeeper.MsgServer(vApp.GetVotingKeeper()).StartPoll(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vAnswer(i int, yes bool) error {
	msg := &votingTypes.MsgAnswerPoll{Respondent: vAcc(i), Yes: yes}
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the respondent")
	return vTx(func(ctx sdk.Context) error {
		_, err := votingKeeper.MsgServer(vApp.GetVotingKeeper()).AnswerPoll(sdk.WrapSDKContext(ctx), msg)
		return err
	})
}

func vAnswers() map[string]bool {
	r := map[string]bool{}
	vMust(vApp.GetVotingKeeper().IterateThroughCurrentPollAnswers(vCtx, func(acc string, ans bool) bool {
		r[acc] = ans
		return false
	}))
	return r
}

// Who answers, and when; nothing of a poll is left to the next one.
func Verif_V03_poll() {
	k := vApp.GetVotingKeeper()
	vGovern(2)
	n := 3
	polls := 1
	if rt.Thorough() {
		n, polls = 5, 2
	}
	rt.Bound("respondents", vItoa(n)+", each answering up to twice; "+vItoa(polls)+" polls after each other")
	for i := 1; i <= n+1; i++ {
		vGrow(0, i)
		if i > 2 {
			vSetInfo(i, false, func(r *referralTypes.Info) { r.Status = vStatuses[rt.Choose("status", 3)] })
		}
	}
	vp := k.GetParams(vCtx)
	vp.PollPeriod = int32(rt.Int64("poll period", 1, 100000))
	k.SetParams(vCtx, vp)
	var past []votingTypes.PollHistoryItem
	for c := 0; c < polls; c++ {
		poll := votingTypes.Poll{Name: "p" + vItoa(c), Author: vAcc(2), Question: "q"}
		quorum := rt.Choose("quorum", 2) == 1
		if quorum {
			q := util.NewFraction(rt.Int64("quorum", 0, 100), 100)
			poll.Quorum = &q
		}
		kind := rt.Choose("requirements", 3)
		min := vStatuses[1]
		switch kind {
		case 1:
			poll.Requirements = &votingTypes.Poll_CanValidate{CanValidate: &votingTypes.Poll_Unit{}}
			vCriteria(min)
		case 2:
			poll.Requirements = &votingTypes.Poll_MinStatus{MinStatus: min}
		}
		rt.Assert(vAnswer(1, true) != nil, "no answers without a poll")
		foreign := poll
		foreign.Author = vAcc(3)
		rt.Assert(vStartPoll(foreign) != nil, "only governors start polls")
		start := vCtx.BlockTime()
		end := start.Add(time.Duration(vp.PollPeriod) * time.Hour)
		vMust(vStartPoll(poll))
		poll.StartTime, poll.EndTime = &start, &end
		rt.Assert(vStartPoll(votingTypes.Poll{Name: "other", Author: vAcc(1), Question: "q"}) != nil, "one poll at a time")
		want := map[string]bool{}
		yes, no := uint64(0), uint64(0)
		for i := 1; i <= n; i++ {
			ok := true
			switch kind {
			case 1:
				ok = rt.Fork(vQualifies(i))
			case 2:
				ok = vRef(vCtx, i).Status >= min
			}
			ans := rt.Choose("answer", 3)
			if ans == 2 {
				continue
			}
			err := vAnswer(i, ans == 1)
			rt.Assert((err == nil) == ok, "exactly those who meet the requirements answer")
			if ok {
				want[vAcc(i)] = ans == 1
				if ans == 1 {
					yes++
				} else {
					no++
				}
				rt.Assert(vAnswer(i, true) != nil && vAnswer(i, false) != nil, "nobody answers twice")
			}
			if i == 1 && c == 0 {
				vTick(vCtx.BlockTime().Add(time.Second))
			}
		}
		y, z := k.GetPollStatus(vCtx)
		rt.Assert(y == yes && z == no, "answers are counted")
		rt.Assert(rt.Eq(vAnswers(), want), "answers are kept")
		vTick(end.Add(-1))
		p, open := k.GetCurrentPoll(vCtx)
		rt.Assert(open && rt.Eq(p, poll), "open until its time is over")
		vTick(end)
		_, open = k.GetCurrentPoll(vCtx)
		rt.Assert(!open, "over")
		y, z = k.GetPollStatus(vCtx)
		rt.Assert(y == 0 && z == 0, "nothing is left")
		rt.Assert(vAnswer(1, true) != nil, "no answers without a poll")
		item := votingTypes.PollHistoryItem{Poll: poll, Yes: yes, No: no}
		if quorum {
			item.Decision = votingTypes.DECISION_NEGATIVE
			q := poll.Quorum.MulInt64(100).Int64()
			if yes > 0 && rt.Fork(int64(yes)*100 >= q*int64(yes+no)) {
				item.Decision = votingTypes.DECISION_POSITIVE
			}
		}
		past = append(past, item)
		rt.Assert(rt.Eq(k.GetPollHistoryAll(vCtx), past), "the result is recorded")
	}
	// Everybody can answer the next one.
	vMust(vStartPoll(votingTypes.Poll{Name: "next", Author: vAcc(1), Question: "q"}))
	rt.Assert(len(vAnswers()) == 0, "nothing is left")
	for i := 1; i <= n; i++ {
		rt.Assert(vAnswer(i, i != 1) == nil, "nothing is left")
	}
	y, z := k.GetPollStatus(vCtx)
	rt.Assert(y == uint64(n-1) && z == 1, "answers are counted")
}

// The decision, for any numbers of answers.
func Verif_V03_decision() {
	k := vApp.GetVotingKeeper()
	vGovern(1)
	vGrow(0, 1)
	num, den := rt.Int64("num", 0, 1000), int64(1+rt.Choose("den", 100))
	rt.Assume(num <= den)
	q := util.NewFraction(num, den)
	vMust(vStartPoll(votingTypes.Poll{Name: "p", Author: vAcc(1), Question: "q", Quorum: &q}))
	rt.Bound("answers", "up to 10^12 of each kind, quorums with denominators up to 100")
	yes, no := rt.Uint64("yes", 0, 1000000000000), rt.Uint64("no", 0, 1000000000000)
	store := vCtx.KVStore(vApp.keys[votingTypes.StoreKey])
	set := func(key string, x uint64) {
		bz := make([]byte, 8)
		binary.BigEndian.PutUint64(bz, x)
		if x != 0 {
			store.Set([]byte(key), bz)
		}
	}
	set("p/y", yes)
	set("p/n", no)
	y, z := k.GetPollStatus(vCtx)
	rt.Assume(y == yes && z == no)
	p, _ := k.GetCurrentPoll(vCtx)
	vTick(*p.EndTime)
	h := k.GetPollHistoryAll(vCtx)
	rt.Assert(len(h) == 1 && h[0].Yes == yes && h[0].No == no, "the result is recorded")
	good := rt.And(yes > 0, int64(yes)*den >= num*int64(yes+no))
	rt.Assert((h[0].Decision == votingTypes.DECISION_POSITIVE) == good, "positive exactly when the quorum is reached")
	rt.Assert((h[0].Decision == votingTypes.DECISION_NEGATIVE) == !good, "positive exactly when the quorum is reached")
}
