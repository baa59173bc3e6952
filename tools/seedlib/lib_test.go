package app_test

import (
	"fmt"
	"testing"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	tmproto "github.com/tendermint/tendermint/proto/tendermint/types"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/arterynetwork/artr/app"
	"github.com/arterynetwork/artr/util"
)

// world: the application over the test genesis
type world struct {
	*app.ArteryApp
	t    *testing.T
	ctx  sdk.Context
	free func()
}

func newWorld(t *testing.T) *world {
	a, free, ctx := app.NewAppFromGenesis(nil)
	t.Cleanup(free)
	return &world{ArteryApp: a, t: t, ctx: ctx, free: free}
}

// user i of the test genesis (a binary tree, user 1 at the top)
func user(i int) sdk.AccAddress { return app.DefaultGenesisUsers[fmt.Sprintf("user%d", i)] }

func (w *world) no(err error) {
	w.t.Helper()
	if err != nil {
		w.t.Fatal(err)
	}
}

func (w *world) ok(cond bool, what string, args ...interface{}) {
	w.t.Helper()
	if !cond {
		w.t.Errorf(what, args...)
	}
}

func (w *world) bal(a sdk.AccAddress, denom string) int64 {
	return w.GetBankKeeper().GetBalance(w.ctx, a).AmountOf(denom).Int64()
}

func (w *world) set(a sdk.AccAddress, main, delegated, revoking int64) {
	w.no(w.GetBankKeeper().SetBalance(w.ctx, a, sdk.NewCoins(
		sdk.NewInt64Coin(util.ConfigMainDenom, main),
		sdk.NewInt64Coin(util.ConfigDelegatedDenom, delegated),
		sdk.NewInt64Coin(util.ConfigRevokingDenom, revoking),
	)))
}

// pass performs the schedule d later
func (w *world) pass(d time.Duration) {
	w.ctx = w.ctx.WithBlockTime(w.ctx.BlockTime().Add(d)).WithBlockHeight(w.ctx.BlockHeight() + 1)
	w.GetScheduleKeeper().PerformSchedule(w.ctx)
}

// try tells if f panics
func try(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

var (
	_ = abci.RequestBeginBlock{}
	_ = tmproto.Header{}
	_ = try
)
