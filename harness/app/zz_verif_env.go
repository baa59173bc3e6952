package app

import (
	"strconv"
	"time"

	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	codecTypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/auth/signing"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	bankTypes "github.com/arterynetwork/artr/x/bank/types"
	delegatingTypes "github.com/arterynetwork/artr/x/delegating/types"
	earningTypes "github.com/arterynetwork/artr/x/earning/types"
	nodingTypes "github.com/arterynetwork/artr/x/noding/types"
	profileTypes "github.com/arterynetwork/artr/x/profile/types"
	referralTypes "github.com/arterynetwork/artr/x/referral/types"
	scheduleTypes "github.com/arterynetwork/artr/x/schedule/types"
	votingTypes "github.com/arterynetwork/artr/x/voting/types"
)

// The environment of every harness: the application wired by NewArteryApp over empty stores.

type stubTxConfig struct{ client.TxConfig }

func (stubTxConfig) TxDecoder() sdk.TxDecoder                 { return nil }
func (stubTxConfig) SignModeHandler() signing.SignModeHandler { return nil }

var (
	vApp *ArteryApp
	vCtx sdk.Context
)

var vNativeSetup func()

var vT0 = time.Unix(1700000000, 0).UTC()

// VerifSetup builds the application once; every path of every harness starts from it.
func VerifSetup() {
	if !rt.Symbolic() {
		vNativeSetup()
	} else {
		ir := codecTypes.NewInterfaceRegistry()
		ec := EncodingConfig{
			InterfaceRegistry: ir,
			Marshaler:         codec.NewProtoCodec(ir),
			TxConfig:          stubTxConfig{},
			Amino:             codec.NewLegacyAmino(),
		}
		vApp = NewArteryApp(rt.NopLogger(), nil, nil, false, 0, ec)
		vCtx = sdk.NewContext(rt.NewMS(), tmproto.Header{Height: 1, Time: vT0}, false, rt.NopLogger())
	}
	vBase()
}

const (
	uartr  = util.ConfigMainDenom
	uartrd = util.ConfigDelegatedDenom
	uartrr = util.ConfigRevokingDenom
)

// vAddr is the i-th test address.
func vAddr(i int) sdk.AccAddress {
	b := make([]byte, 20)
	b[0] = 0x41
	b[18] = byte(i >> 8)
	b[19] = byte(i)
	return b
}

func vAcc(i int) string { return vAddr(i).String() }

// vBase: default parameters of every module, a zero supply, a company top account (index 0).
func vBase() {
	vApp.GetScheduleKeeper().InitGenesis(vCtx, scheduleTypes.Params{DayNanos: uint64(24 * time.Hour)}, nil)
	vApp.GetAccountKeeper().SetParams(vCtx, authTypes.DefaultParams())
	bp := bankTypes.DefaultParams()
	bp.CompanyAccount = vAcc(0)
	vApp.GetBankKeeper().SetParams(vCtx, bp)
	vApp.GetBankKeeper().SetSupply(vCtx, *bankTypes.DefaultSupply())
	rp := referralTypes.DefaultParams()
	rp.CompanyAccounts = referralTypes.CompanyAccounts{
		ForSubscription: vAcc(0),
	}
	vApp.GetReferralKeeper().SetParams(vCtx, rp)
	pp := *profileTypes.DefaultParams()
	pp.Creators = []string{vAcc(0)}
	pp.StorageSigners = []string{vAcc(0)}
	pp.VpnSigners = []string{vAcc(0)}
	pp.TokenRateSigners = []string{vAcc(0)}
	vApp.GetProfileKeeper().SetParams(vCtx, pp)
	vApp.GetDelegatingKeeper().SetParams(vCtx, *delegatingTypes.DefaultParams())
	np := nodingTypes.DefaultParams()
	np.VotingPower = nodingTypes.DefaultVotingPower
	vApp.GetNodingKeeper().SetParams(vCtx, np)
	vApp.GetVotingKeeper().SetParams(vCtx, votingTypes.DefaultParams())
	vApp.GetEarningKeeper().SetParams(vCtx, earningTypes.Params{Signers: []string{vAcc(0)}})
	vApp.GetAccountKeeper().GetModuleAccount(vCtx, authTypes.FeeCollectorName)
	vApp.GetAccountKeeper().GetModuleAccount(vCtx, util.SplittableFeeCollectorName)
	vApp.GetAccountKeeper().GetModuleAccount(vCtx, earningTypes.VpnCollectorName)
	vApp.GetAccountKeeper().GetModuleAccount(vCtx, earningTypes.StorageCollectorName)
	vNewAcc(0)
	vMust(vApp.GetReferralKeeper().AddTopLevelAccount(vCtx, vAcc(0)))
}

func vMust(err error) {
	if err != nil {
		panic(err)
	}
}

// vNewAcc creates the auth account i.
func vNewAcc(i int) {
	ak := vApp.GetAccountKeeper()
	ak.SetAccount(vCtx, ak.NewAccountWithAddress(vCtx, vAddr(i)))
}

// vTop makes account i with a top-level place in the referral tree.
func vTop(i int) {
	vNewAcc(i)
	vMust(vApp.GetReferralKeeper().AddTopLevelAccount(vCtx, vAcc(i)))
}

// vChild makes account i under p.
func vChild(p, i int) {
	vNewAcc(i)
	vMust(vApp.GetReferralKeeper().AppendChild(vCtx, vAcc(p), vAcc(i)))
}

// vCoins: the balance of an account in the three denominations.
func vCoins(main, del, rev sdk.Int) sdk.Coins {
	return sdk.NewCoins(sdk.NewCoin(uartr, main), sdk.NewCoin(uartrd, del), sdk.NewCoin(uartrr, rev))
}

// vFund sets the balance of account i and accounts for it in the supply.
func vFund(a sdk.AccAddress, c sdk.Coins) {
	bk := vApp.GetBankKeeper()
	vMust(bk.SetBalance(vCtx, a, c))
	s := bk.GetSupply(vCtx)
	s.Inflate(c)
	bk.SetSupply(vCtx, s)
}

func vInt(name string, lo, hi string) sdk.Int { return sdk.NewIntFromBigInt(rt.BigInt(name, lo, hi)) }

// vBal: balance of denomination d.
func vBal(ctx sdk.Context, a sdk.AccAddress, d string) sdk.Int {
	return vApp.GetBankKeeper().GetBalance(ctx, a).AmountOf(d)
}

// vTotals: sum of all balances of denomination d.
func vTotal(ctx sdk.Context, d string) sdk.Int {
	t := sdk.ZeroInt()
	vApp.GetBankKeeper().IterateAllBalances(ctx, func(_ sdk.AccAddress, c sdk.Coins) bool {
		t = t.Add(c.AmountOf(d))
		return false
	})
	return t
}

func vSupply(ctx sdk.Context, d string) sdk.Int {
	return vApp.GetBankKeeper().GetSupply(ctx).GetTotal().AmountOf(d)
}

// vTx runs f as a transaction: its writes are kept only when it returns no error and does not panic.
func vTx(f func(ctx sdk.Context) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if rt.IsControl(r) {
				panic(r)
			}
			rt.Trace("tx panicked", r)
			err = vPanicked{r}
		}
	}()
	ctx, write := vCtx.CacheContext()
	err = f(ctx)
	rt.Trace("tx", err)
	if err == nil {
		write()
	}
	return err
}

type vPanicked struct{ r interface{} }

func (vPanicked) Error() string { return "panicked" }

func vItoa(i int) string { return strconv.Itoa(i) }

// the total number of uartr that exist is far below 2^63
const vMaxCoins = "1000000000000000"
