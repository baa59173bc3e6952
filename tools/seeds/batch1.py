SEEDS = []
def S(id, prop, edits, needs, breaks, demo, imports=(), **kw):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=list(imports), **kw))

S('S01-key', 'S01', [('x/schedule/keeper/keeper.go', '''	if len(filtered) == 0 {
		store.Delete(key)''', '''	if len(filtered) <= 1 && len(items.Tasks) > 1 {
		store.Delete(key)'''.replace('len(filtered) <= 1 && len(items.Tasks) > 1', 'len(filtered) == 0 || len(filtered) < len(items.Tasks)-1'))],
  'three tasks for one moment, two of which are cancelled at once with DeleteAll',
  'cancelling all tasks of one kind takes the remaining task of another kind with it',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	k := w.GetScheduleKeeper()
	at := w.ctx.BlockTime().Add(time.Minute)
	var log string
	k.AddHook("demo-a", func(sdk.Context, []byte, time.Time) { log += "a" })
	k.AddHook("demo-b", func(sdk.Context, []byte, time.Time) { log += "b" })
	k.ScheduleTask(w.ctx, at, "demo-a", []byte{1})
	k.ScheduleTask(w.ctx, at, "demo-b", nil)
	k.ScheduleTask(w.ctx, at, "demo-a", []byte{2})
	k.DeleteAll(w.ctx, at, "demo-a")
	w.pass(time.Hour)
	w.ok(log == "b", "%s", log)
}''', ['"time"', 'sdk "github.com/cosmos/cosmos-sdk/types"'])

S('S01-prefix', 'S01', [('x/schedule/keeper/keeper.go', 'bytes.Equal(task.Data, payload)', 'bytes.HasPrefix(task.Data, payload)')],
  'two tasks of one kind for one moment, the data of one of which begins with the data of the other',
  'cancelling a task cancels others whose data begin with the same bytes',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	k := w.GetScheduleKeeper()
	at := w.ctx.BlockTime().Add(time.Minute)
	var log string
	k.AddHook("demo", func(_ sdk.Context, data []byte, _ time.Time) { log += string(data) + ";" })
	k.ScheduleTask(w.ctx, at, "demo", []byte("ab"))
	k.ScheduleTask(w.ctx, at, "demo", []byte("a"))
	k.Delete(w.ctx, at, "demo", []byte("a"))
	w.pass(time.Hour)
	w.ok(log == "ab;", "%s", log)
}''', ['"time"', 'sdk "github.com/cosmos/cosmos-sdk/types"'])

S('D02-order', 'D02', [('x/delegating/keeper/hooks.go', '''	sort.Slice(item.Requests, func(i, j int) bool {
		return item.Requests[i].Time.Before(item.Requests[j].Time)
	})

''', ''), ('x/delegating/keeper/hooks.go', '''	"sort"
''', '')],
  'an express request made after a usual one, coming due before it',
  'the express request is not paid when due, since requests are taken in the order they were made',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	k := w.GetDelegatingKeeper()
	a := user(4)
	w.set(a, 0, 100000, 0)
	w.no(k.Revoke(w.ctx, a, sdk.NewInt(10000), false))
	w.pass(time.Hour)
	w.no(k.Revoke(w.ctx, a, sdk.NewInt(10000), true))
	w.pass(7*24*time.Hour)
	w.ok(w.bal(a, "uartrr") == 9500, "%d is pending after the express request", w.bal(a, "uartrr"))
}''', ['"time"', 'sdk "github.com/cosmos/cosmos-sdk/types"'])

S('D02-due', 'D02', [('x/delegating/keeper/hooks.go', '''	if n == 0 {
		return nil
	}
	item.Requests = item.Requests[n:]''', '''	if n == 0 {
		return nil
	}
	item.Requests = item.Requests[1:]''')],
  'two requests of one account due in the same block: a long gap between blocks',
  'a request is paid twice',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	k := w.GetDelegatingKeeper()
	a := user(4)
	w.set(a, 0, 100000, 0)
	w.no(k.Revoke(w.ctx, a, sdk.NewInt(10000), true))
	w.pass(time.Second)
	w.no(k.Revoke(w.ctx, a, sdk.NewInt(20000), true))
	w.pass(8*24*time.Hour)
	w.ok(w.bal(a, "uartrr") == 0 && len(k.GetRevoking(w.ctx, a)) == 0, "%d pending, requests: %v", w.bal(a, "uartrr"), k.GetRevoking(w.ctx, a))
}''', ['"time"', 'sdk "github.com/cosmos/cosmos-sdk/types"'])

S('B01-cap', 'B01', [('util/fee.go', '''	if !maxFee.IsZero() && fee.GT(maxFee) {
		fee = maxFee
	}

	return calculateSplittableFee(fee, forProposerFeeFraction, forCompanyFeeFraction)''', '''	fee = calculateSplittableFee(fee, forProposerFeeFraction, forCompanyFeeFraction)
	if !maxFee.IsZero() && fee.GT(maxFee) {
		fee = maxFee
	}
	return fee''')],
  'a limit of the fee that the split ratios do not divide, and an amount large enough for it to apply',
  'the fee does not split without remainder when limited',
  '''
func TestDemo(t *testing.T) {
	fee := util.CalculateFee(sdk.NewInt(1000000), util.Permille(3), 1001, util.Percent(25), util.Percent(50))
	if fee.Int64() != 1000 {
		t.Fatal(fee)
	}
}''', ['sdk "github.com/cosmos/cosmos-sdk/types"', '"github.com/arterynetwork/artr/util"'], pkgs=['./util/...', './x/bank/...'])

S('F01-alias', 'F01', [('util/fraction.go', '''	return Fraction{
		(&big.Int{}).Neg(x.num),
		(&big.Int{}).Set(x.denom),
	}
}''', '''	return Fraction{
		(&big.Int{}).Neg(x.num),
		x.denom,
	}
}''')],
  'a negated fraction that is reduced afterwards, while the original one is used again',
  'an operation changes another fraction that shares its denominator',
  '''
func TestDemo(t *testing.T) {
	x := util.NewFraction(2, 4)
	x.Neg().Reduce()
	if !x.Equal(util.NewFraction(1, 2)) {
		t.Fatal(x)
	}
}''', ['"github.com/arterynetwork/artr/util"'], pkgs=['./util/...', './x/bank/...'])

S('B02-self', 'B02', [('x/bank/internal/keeper/send.go', '''	if err := keeper.SubtractCoins(ctx, fromAddr, amt); err != nil {
		return err
	}

	if err := keeper.AddCoins(ctx, toAddr, amt); err != nil {
		return err
	}

	return nil
}

// SubtractCoins''', '''	received := keeper.GetBalance(ctx, toAddr).Add(amt...)
	if err := keeper.SubtractCoins(ctx, fromAddr, amt); err != nil {
		return err
	}
	return keeper.SetBalance(ctx, toAddr, received)
}

// SubtractCoins''')],
  'an account sends coins to itself',
  'coins are created',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	a := user(4)
	w.set(a, 1000000, 0, 0)
	w.no(w.GetBankKeeper().SendCoins(w.ctx, a, a, sdk.NewCoins(sdk.NewInt64Coin("uartr", 1000))))
	w.ok(w.bal(a, "uartr") == 1000000, "%d", w.bal(a, "uartr"))
}''', ['sdk "github.com/cosmos/cosmos-sdk/types"'])

S('E02-both', 'E02', [('x/earning/keeper/keeper.go', '''	if timestamps.Vpn == nil && timestamps.Storage == nil {
		k.delete(ctx, accAddr)''', '''	if updateTimestamps && !storage {
		k.delete(ctx, accAddr)''')],
  'a storage report that is outdated while the VPN one is not',
  'asking about an account with an outdated storage report forgets its valid VPN report',
  '''
func TestDemo(t *testing.T) {
	w := newWorld(t)
	a := user(4)
	now := w.ctx.BlockTime()
	old := now.Add(-72 * time.Hour)
	msg := types.MsgSet{Signer: user(1).String(), Earner: types.Earner{Account: a.String(), Vpn: &now, Storage: &old}}
	_, err := keeper.MsgServer(w.GetEarningKeeper()).Set(sdk.WrapSDKContext(w.ctx), &msg)
	w.no(err)
	for i := 0; i < 2; i++ {
		vpn, storage, err := w.GetEarningKeeper().IsActiveEarner(w.ctx, a)
		w.no(err)
		w.ok(vpn && !storage, "%d: %v %v", i, vpn, storage)
	}
}''', ['"time"', 'sdk "github.com/cosmos/cosmos-sdk/types"', '"github.com/arterynetwork/artr/x/earning/keeper"', '"github.com/arterynetwork/artr/x/earning/types"'])
