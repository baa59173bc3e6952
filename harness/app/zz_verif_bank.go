package app

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/bank"
	bankTypes "github.com/arterynetwork/artr/x/bank/types"
)

// vBankMsg delivers a bank message as a transaction.
func vBankMsg(msg sdk.Msg) error {
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	return vTx(func(ctx sdk.Context) error {
		_, err := bank.NewHandler(vApp.GetBankKeeper())(ctx, msg)
		return err
	})
}

type vFeeCfg struct{ fn, fd, lcm, pn, pd, cn, cd int64 }

// vFeeParams picks the transaction fee parameters.
func vFeeParams() (cfg vFeeCfg, max int64) {
	type c struct{ fn, fd, pn, pd, cn, cd, lcm int64 }
	cs := []c{{3, 1000, 15, 100, 5, 100, 100}, {1, 3, 1, 7, 1, 3, 21}, {0, 1, 0, 1, 0, 1, 1}, {1, 1, 1, 2, 1, 2, 2}}
	x := cs[rt.Choose("fee", len(cs))]
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	bp.TransactionFee = util.NewFraction(x.fn, x.fd)
	bp.TransactionFeeSplitRatios.ForProposer = util.NewFraction(x.pn, x.pd)
	bp.TransactionFeeSplitRatios.ForCompany = util.NewFraction(x.cn, x.cd)
	bp.MaxTransactionFee = rt.Int64("max fee", 0, 1000000000000)
	vMust(bp.Validate())
	vApp.GetBankKeeper().SetParams(vCtx, bp)
	rt.Bound("transaction fee", "4 combinations of rate and split ratios; limit: any up to 10^12")
	return vFeeCfg{x.fn, x.fd, x.lcm, x.pn, x.pd, x.cn, x.cd}, bp.MaxTransactionFee
}

// vFee: the fee of amt by definition (the largest splittable amount within the rate and the limit).
func vFee(amt sdk.Int, c vFeeCfg, max int64) sdk.Int {
	fee := amt.MulRaw(c.fn).QuoRaw(c.fd)
	if rt.Fork(max != 0) {
		fee = sdk.MinInt(fee, sdk.NewInt(max))
	}
	return fee.Sub(fee.ModRaw(c.lcm))
}

func vCollector() sdk.AccAddress {
	return vApp.GetAccountKeeper().GetModuleAddress(util.SplittableFeeCollectorName)
}

// ---------- B02: transfers move exactly the amount and the fee

func Verif_B02_send() {
	vTop(1)
	vTop(2)
	vTop(3)
	x, y, z := vInt("x", "0", vMaxCoins), vInt("y", "0", vMaxCoins), vInt("z", "0", vMaxCoins)
	d := vInt("d", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, sdk.ZeroInt()))
	vFund(vAddr(2), vCoins(y, sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vAddr(3), vCoins(z, sdk.ZeroInt(), sdk.ZeroInt()))
	c0 := vInt("collected", "0", vMaxCoins)
	vFund(vCollector(), vCoins(c0, sdk.ZeroInt(), sdk.ZeroInt()))
	cfg, max := vFeeParams()
	amt := vInt("amt", "1", vMaxCoins)
	err := vBankMsg(&bankTypes.MsgSend{FromAddress: vAcc(1), ToAddress: vAcc(2), Amount: sdk.Coins{sdk.Coin{Denom: uartr, Amount: amt}}})
	x2, y2, c2 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(2), uartr), vBal(vCtx, vCollector(), uartr)
	if err == nil {
		fee := vFee(amt, cfg, max)
		rt.Assert(y2.Equal(y.Add(amt)), "the recipient gets the amount")
		rt.Assert(c2.Equal(c0.Add(fee)), "the collector gets the fee")
		rt.Assert(x2.Equal(x.Sub(amt).Sub(fee)), "the sender pays the amount and the fee")
		rt.Assert(!x2.IsNegative(), "no overdraft")
		rt.Cover("ok")
	} else {
		rt.Assert(y2.Equal(y) && x2.Equal(x) && c2.Equal(c0), "a failed transfer changes nothing")
		rt.Assert(rt.Or(amt.LT(sdk.NewInt(1000)), x.LT(amt.Add(vFee(amt, cfg, max)))), "a funded transfer does not fail")
		rt.Cover("err")
	}
	rt.Assert(vBal(vCtx, vAddr(1), uartrd).Equal(d), "delegated coins stay")
	rt.Assert(vBal(vCtx, vAddr(3), uartr).Equal(z), "bystanders keep theirs")
}

func Verif_B02_self() {
	vTop(1)
	x := vInt("x", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, sdk.ZeroInt(), sdk.ZeroInt()))
	cfg, max := vFeeParams()
	amt := vInt("amt", "1", vMaxCoins)
	err := vBankMsg(&bankTypes.MsgSend{FromAddress: vAcc(1), ToAddress: vAcc(1), Amount: sdk.Coins{sdk.Coin{Denom: uartr, Amount: amt}}})
	x2, c2 := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vCollector(), uartr)
	if err == nil {
		fee := vFee(amt, cfg, max)
		rt.Assert(x2.Equal(x.Sub(fee)), "a transfer to oneself costs the fee")
		rt.Assert(c2.Equal(fee), "the collector gets the fee")
		rt.Cover("ok")
	} else {
		rt.Assert(x2.Equal(x), "a failed transfer changes nothing")
	}
}

// Between keepers (fees, rewards, subscriptions): several inputs and outputs, module accounts.
func Verif_B02_modules() {
	vTop(1)
	bk := vApp.GetBankKeeper()
	x, y := vInt("x", "0", vMaxCoins), vInt("y", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vCollector(), vCoins(y, sdk.ZeroInt(), sdk.ZeroInt()))
	amt := vInt("amt", "1", vMaxCoins)
	coins := sdk.NewCoins(sdk.NewCoin(uartr, amt))
	other := authTypes.FeeCollectorName
	otherAddr := vApp.GetAccountKeeper().GetModuleAddress(other)
	op := rt.Choose("op", 3)
	err := vTx(func(ctx sdk.Context) error {
		switch op {
		case 0:
			return bk.SendCoinsFromAccountToModule(ctx, vAddr(1), other, coins)
		case 1:
			return bk.SendCoinsFromModuleToAccount(ctx, util.SplittableFeeCollectorName, vAddr(1), coins)
		default:
			return bk.SendCoinsFromModuleToModule(ctx, util.SplittableFeeCollectorName, other, coins)
		}
	})
	from, to := y, sdk.ZeroInt()
	var from2, to2 sdk.Int
	switch op {
	case 0:
		from = x
		from2, to2 = vBal(vCtx, vAddr(1), uartr), vBal(vCtx, otherAddr, uartr)
	case 1:
		to = x
		from2, to2 = vBal(vCtx, vCollector(), uartr), vBal(vCtx, vAddr(1), uartr)
	default:
		from2, to2 = vBal(vCtx, vCollector(), uartr), vBal(vCtx, otherAddr, uartr)
	}
	if err == nil {
		rt.Assert(from2.Equal(from.Sub(amt)) && to2.Equal(to.Add(amt)), "the amount moves")
		rt.Assert(from.GTE(amt), "no overdraft")
	} else {
		rt.Assert(from2.Equal(from) && to2.Equal(to), "nothing moves")
		rt.Assert(from.LT(amt), "a funded transfer does not fail")
	}
}

func Verif_B02_multi() {
	vTop(1)
	vTop(2)
	vTop(3)
	x, y := vInt("x", "0", vMaxCoins), vInt("y", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vAddr(2), vCoins(y, sdk.ZeroInt(), sdk.ZeroInt()))
	i1, i2, o1, o2 := vInt("i1", "0", vMaxCoins), vInt("i2", "0", vMaxCoins), vInt("o1", "0", vMaxCoins), vInt("o2", "0", vMaxCoins)
	c := func(a sdk.Int) sdk.Coins { return sdk.Coins{sdk.Coin{Denom: uartr, Amount: a}} }
	err := vTx(func(ctx sdk.Context) error {
		return vApp.GetBankKeeper().InputOutputCoins(ctx,
			[]bankTypes.Input{bankTypes.NewInput(vAddr(1), c(i1)), bankTypes.NewInput(vAddr(2), c(i2))},
			[]bankTypes.Output{bankTypes.NewOutput(vAddr(3), c(o1)), bankTypes.NewOutput(vAddr(1), c(o2))})
	})
	a, b, d := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(2), uartr), vBal(vCtx, vAddr(3), uartr)
	if err == nil {
		rt.Assert(i1.Add(i2).Equal(o1.Add(o2)), "inputs equal outputs")
		rt.Assert(rt.And(a.Equal(x.Sub(i1).Add(o2)), b.Equal(y.Sub(i2)), d.Equal(o1)), "every party")
		rt.Cover("ok")
	} else {
		rt.Assert(rt.And(a.Equal(x), b.Equal(y), d.IsZero()), "nothing moves")
	}
	rt.Assert(vTotal(vCtx, uartr).Equal(x.Add(y)), "sum")
}

// ---------- B03: who may send what to whom

func Verif_B03_send() {
	vTop(1)
	vTop(2)
	bk := vApp.GetBankKeeper()
	x := vInt("x", "0", vMaxCoins)
	d := vInt("d", "0", vMaxCoins)
	r := vInt("r", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, r))
	bp := bk.GetParams(vCtx)
	bp.MinSend = rt.Int64("min", 0, 1000000000000)
	bk.SetParams(vCtx, bp)
	blocked := rt.Choose("blocked senders", 4)
	if blocked&1 != 0 {
		bk.AddBlockedSender(vCtx, vAddr(1))
	}
	if blocked&2 != 0 {
		bk.AddBlockedSender(vCtx, vAddr(2))
		if rt.Choose("unblock", 2) == 1 {
			bk.RemoveBlockedSender(vCtx, vAddr(2))
		}
	}
	amt := vInt("amt", "-10", vMaxCoins)
	denom := []string{uartr, uartrd, uartrr, "other"}[rt.Choose("denom", 4)]
	to := []string{vAcc(2), vAcc(9), vApp.GetAccountKeeper().GetModuleAddress(authTypes.FeeCollectorName).String(), "x"}[rt.Choose("to", 4)]
	coins := sdk.Coins{sdk.Coin{Denom: denom, Amount: amt}}
	switch rt.Choose("coins", 4) {
	case 1:
		coins = append(coins, sdk.Coin{Denom: "zzz", Amount: sdk.OneInt()})
	case 2:
		coins = append(coins, sdk.Coin{Denom: denom, Amount: amt})
	case 3:
		coins = nil
	}
	err := vBankMsg(&bankTypes.MsgSend{FromAddress: vAcc(1), ToAddress: to, Amount: coins})
	if err == nil {
		rt.Cover("ok")
		rt.Assert(blocked&1 == 0, "a blocked account cannot send")
		rt.Assert(to != vAcc(9) && to != "x", "only existing accounts receive")
		rt.Assert(len(coins) == 1 && denom == uartr, "only the main coin")
		rt.Assert(amt.IsPositive(), "a positive amount")
		rt.Assert(amt.GTE(sdk.NewInt(bp.MinSend)), "at least the minimum")
	} else {
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(x) && vBal(vCtx, vAddr(1), uartrd).Equal(d) && vBal(vCtx, vAddr(1), uartrr).Equal(r), "nothing is sent")
		if blocked&1 == 0 && to != vAcc(9) && to != "x" && len(coins) == 1 && denom == uartr {
			rt.Assert(rt.Or(!amt.IsPositive(), amt.LT(sdk.NewInt(bp.MinSend)), x.LT(amt.Add(amt.QuoRaw(100)))), "others are not hindered")
		}
	}
}

// The list of blocked senders: what is added is there until it is removed.
func Verif_B03_list() {
	bk := vApp.GetBankKeeper()
	var in [3]bool
	n := 4
	if rt.Thorough() {
		n = 5
	}
	rt.Bound("history", "quick 4, thorough 5 list changes over 3 accounts")
	for i := 0; i < n; i++ {
		a := rt.Choose("acc", 3)
		if rt.Choose("add", 2) == 1 {
			bk.AddBlockedSender(vCtx, vAddr(a))
			in[a] = true
		} else {
			bk.RemoveBlockedSender(vCtx, vAddr(a))
			in[a] = false
		}
	}
	list := bk.GetParams(vCtx).BlockedSenders
	for a := 0; a < 3; a++ {
		k := 0
		for _, s := range list {
			if s == vAcc(a) {
				k++
			}
		}
		rt.Assert((k > 0) == in[a], "membership")
	}
}

// ---------- B04: the recorded supply is the sum of all balances

func vSupplyHolds(what string) {
	for _, d := range []string{uartr, uartrd, uartrr} {
		rt.Assert(vSupply(vCtx, d).Equal(vTotal(vCtx, d)), what+": supply of "+d+" is the sum of the balances")
	}
}

func Verif_B04_burn() {
	vTop(1)
	x := vInt("x", "0", vMaxCoins)
	y := vInt("y", "0", vMaxCoins)
	d := vInt("d", "0", vMaxCoins)
	vFund(vAddr(0), vCoins(y, sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vAddr(1), vCoins(x, d, sdk.ZeroInt()))
	amt := rt.Uint64("amt", 0, 1<<64-1)
	err := vBankMsg(&bankTypes.MsgBurn{Account: vAcc(1), Amount: amt})
	vSupplyHolds("burn")
	x2 := vBal(vCtx, vAddr(1), uartr)
	if err == nil {
		rt.Assert(x2.Equal(x.Sub(sdk.NewIntFromUint64(amt))), "burns the amount")
		rt.Assert(vSupply(vCtx, uartr).Equal(y.Add(x).Sub(sdk.NewIntFromUint64(amt))), "the supply shrinks")
		rt.Assert(amt > 0, "positive")
		rt.Cover("ok")
	} else {
		rt.Assert(x2.Equal(x), "nothing is burnt")
		rt.Assert(rt.Or(amt == 0, x.LT(sdk.NewIntFromUint64(amt))), "own coins can be burnt")
	}
	rt.Assert(vBal(vCtx, vAddr(1), uartrd).Equal(d), "delegated coins stay")
}

func Verif_B04_send() {
	vTop(1)
	vTop(2)
	x, y, d := vInt("x", "0", vMaxCoins), vInt("y", "0", vMaxCoins), vInt("d", "0", vMaxCoins)
	vFund(vAddr(1), vCoins(x, d, sdk.ZeroInt()))
	vFund(vAddr(2), vCoins(y, sdk.ZeroInt(), sdk.ZeroInt()))
	vFeeParams()
	amt := vInt("amt", "1", vMaxCoins)
	to := 1 + rt.Choose("to", 2)
	vBankMsg(&bankTypes.MsgSend{FromAddress: vAcc(1), ToAddress: vAcc(to), Amount: sdk.Coins{sdk.Coin{Denom: uartr, Amount: amt}}})
	vSupplyHolds("send")
}

func Verif_B04_module_burn() {
	x := vInt("x", "0", vMaxCoins)
	vFund(vCollector(), vCoins(x, sdk.ZeroInt(), sdk.ZeroInt()))
	amt := vInt("amt", "0", vMaxCoins)
	err := vTx(func(ctx sdk.Context) error {
		return vApp.GetBankKeeper().BurnAccCoins(ctx, vCollector(), sdk.NewCoins(sdk.NewCoin(uartr, amt)))
	})
	vSupplyHolds("burn")
	if err == nil {
		rt.Assert(vBal(vCtx, vCollector(), uartr).Equal(x.Sub(amt)), "burns the amount")
	} else {
		rt.Assert(rt.And(x.LT(amt), vBal(vCtx, vCollector(), uartr).Equal(x)), "fails only without coins")
	}
}

func Verif_B04_genesis() {
	bk := vApp.GetBankKeeper()
	x, y, d := vInt("x", "0", vMaxCoins), vInt("y", "0", vMaxCoins), vInt("d", "0", vMaxCoins)
	vNewAcc(1)
	vNewAcc(2)
	bk.InitGenesis(vCtx, &bankTypes.GenesisState{
		Params: bk.GetParams(vCtx),
		Balances: []bankTypes.Balance{
			{Address: vAcc(2), Coins: vCoins(x, d, sdk.ZeroInt())},
			{Address: vAcc(1), Coins: vCoins(y, sdk.ZeroInt(), sdk.ZeroInt())},
		},
	})
	vSupplyHolds("genesis")
	rt.Assert(vBal(vCtx, vAddr(2), uartr).Equal(x) && vBal(vCtx, vAddr(1), uartr).Equal(y) && vBal(vCtx, vAddr(2), uartrd).Equal(d), "balances")
}
