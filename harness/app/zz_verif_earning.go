package app

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/earning"
	earningKeeper "github.com/arterynetwork/artr/x/earning/keeper"
	earningTypes "github.com/arterynetwork/artr/x/earning/types"
)

// vEarn reports the last times account i has provided vpn or storage.
func vEarn(i int, vpn, storage *time.Time) {
	_, err := earningKeeper.MsgServer(vApp.GetEarningKeeper()).SetMultiple(sdk.WrapSDKContext(vCtx),
		earningTypes.NewMsgSetMultiple(vAddr(0), []earningTypes.Earner{earningTypes.NewEarner(vAddr(i), vpn, storage)}))
	vMust(err)
}

func vEarningMsg(msg sdk.Msg) error {
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	return vTx(func(ctx sdk.Context) error {
		_, err := earning.NewHandler(vApp.GetEarningKeeper())(ctx, msg)
		return err
	})
}

// vTimes: at most one of the sides is a symbolic time, so that moments stay ordered by one number.
func vMoment(name string, lo, hi int64) *time.Time {
	t := vT0.Add(time.Duration(rt.Int64(name, lo, hi)))
	return &t
}

// ---------- E01: only the listed signers report earners

func Verif_E01_signers() {
	ek := vApp.GetEarningKeeper()
	ek.SetParams(vCtx, earningTypes.Params{Signers: []string{vAcc(1), vAcc(2)}})
	in := [4]bool{false, true, true, false}
	n := 3
	if rt.Thorough() {
		n = 4
	}
	rt.Bound("history", "quick 3, thorough 4 changes of the signer list over 4 accounts, then one message")
	for i := 0; i < n; i++ {
		a := rt.Choose("acc", 4)
		if rt.Choose("add", 2) == 1 {
			ek.AddSigner(vCtx, vAddr(a))
			in[a] = true
		} else {
			cnt := 0
			for _, b := range in {
				if b {
					cnt++
				}
			}
			if cnt == 1 && in[a] {
				continue // the last signer stays (covered by V03)
			}
			ek.RemoveSigner(vCtx, vAddr(a))
			in[a] = false
		}
	}
	now := vT0
	earners := []earningTypes.Earner{earningTypes.NewEarner(vAddr(5), &now, &now), earningTypes.NewEarner(vAddr(6), nil, &now)}
	who := rt.Choose("sender", 4)
	var err error
	if rt.Choose("multiple", 2) == 1 {
		err = vEarningMsg(earningTypes.NewMsgSetMultiple(vAddr(who), earners))
	} else {
		err = vEarningMsg(earningTypes.NewMsgSet(vAddr(who), earners[0]))
	}
	vpn, st, e := ek.IsActiveEarner(vCtx, vAddr(5))
	vMust(e)
	if in[who] {
		rt.Assert(err == nil, "a listed signer reports")
		rt.Assert(vpn && st, "what is reported holds")
	} else {
		rt.Assert(err != nil, "others cannot report")
		rt.Assert(!vpn && !st, "nothing is recorded")
	}
}

// ---------- E02: an earner counts as active for two days after its last report

func Verif_E02_active() {
	ek := vApp.GetEarningKeeper()
	span := int64(4 * vDay)
	var vpn, st *time.Time
	var v, s int64
	k := rt.Choose("kinds", 4)
	if k&1 != 0 {
		v = rt.Int64("vpn", -span, span)
		t := vAt(v)
		vpn = &t
	}
	if k&2 != 0 {
		s = rt.Int64("storage", -span, span)
		t := vAt(s)
		st = &t
	}
	bystander := vT0.Add(100 * vDay)
	vEarn(2, &bystander, nil)
	if rt.Choose("before", 2) == 1 {
		vEarn(1, &bystander, &bystander)
	}
	vEarn(1, vpn, st)
	now := int64(0)
	for i := 0; i < 2; i++ {
		now += rt.Int64("now", 0, 2*span)
		vCtx = vCtx.WithBlockTime(vAt(now))
		a, b, err := ek.IsActiveEarner(vCtx, vAddr(1))
		rt.Assert(err == nil, "no error")
		rt.Assert(a == (vpn != nil && rt.Fork(v+2*int64(vDay) > now)), "vpn")
		rt.Assert(b == (st != nil && rt.Fork(s+2*int64(vDay) > now)), "storage")
		if !a {
			vpn = nil
		}
		if !b {
			st = nil
		}
	}
	vCtx = vCtx.WithBlockTime(vT0)
	a, b, _ := ek.IsActiveEarner(vCtx, vAddr(2))
	rt.Assert(a && !b, "bystanders")
	list := ek.GetEarners(vCtx)
	n := 1
	if vpn != nil || st != nil {
		n = 2
	}
	rt.Assert(len(list) == n, "the list of earners")
}
