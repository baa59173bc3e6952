package app

import (
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authTypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"github.com/arterynetwork/artr/util"
	rt "github.com/arterynetwork/artr/verifrt"
	"github.com/arterynetwork/artr/x/profile"
	profileTypes "github.com/arterynetwork/artr/x/profile/types"
)

// vProfileMsg delivers a message of the module, to be signed by account i alone.
func vProfileMsg(i int, msg sdk.Msg) error {
	if err := msg.ValidateBasic(); err != nil {
		return err
	}
	rt.Assert(len(msg.GetSigners()) == 1 && msg.GetSigners()[0].Equals(vAddr(i)), "signed by the account")
	h := profile.NewHandler(vApp.GetProfileKeeper())
	return vTx(func(ctx sdk.Context) error {
		_, err := h(ctx, msg)
		return err
	})
}

func vProf(i int) profileTypes.Profile {
	p := vApp.GetProfileKeeper().GetProfile(vCtx, vAddr(i))
	rt.Assume(p != nil)
	return *p
}

// vPut writes the profile of account i as it is.
func vPut(i int, p profileTypes.Profile) {
	vMust(vApp.GetProfileKeeper().SetProfile(vCtx, vAddr(i), p))
}

func vRename(i int, name string) error {
	return vProfileMsg(i, &profileTypes.MsgUpdateProfile{Address: vAcc(i), Updates: []profileTypes.MsgUpdateProfile_Update{
		{Field: profileTypes.MsgUpdateProfile_Update_FIELD_NICKNAME, Value: &profileTypes.MsgUpdateProfile_Update_String_{String_: name}},
	}})
}

// ---------- P01: nicknames and card numbers belong to one account each

// vNick: nothing, any ASCII text of 3 (thorough: 3, 4) bytes, or something like ARTR-x in any case.
func vNick(what string) string {
	n := 3
	if rt.Thorough() {
		n = 4
	}
	switch c := rt.Choose(what+" kind", n); c {
	case 0:
		return ""
	case 1:
		s := []byte("ARTR-#")
		for _, i := range []int{0, 1, 2, 3} {
			s[i] += byte(32 * rt.Int64(what+" case", 0, 1))
		}
		s[4] = byte(rt.Int64(what+" dash", 45, 47))
		s[5] = byte(rt.Int64(what+" char", 33, 126))
		return string(s)
	default:
		return rt.String(what, c+1)
	}
}

// vPlainNick: one without blanks.
func vPlainNick(what string) string {
	s := vNick(what)
	for i := 0; i < len(s); i++ {
		rt.Assume(s[i] > ' ')
	}
	return s
}

func vBadNick(name string) bool {
	if rt.Fork(strings.ContainsAny(name, " */:'\"=[],.")) {
		return true
	}
	name = strings.TrimSpace(name)
	return len(name) == 1 || len(name) == 2 || len(name) >= 5 && rt.Fork(strings.ToUpper(name[:5]) == "ARTR-")
}

func vOwnNick(i int) string {
	p := vApp.GetProfileKeeper().GetProfile(vCtx, vAddr(i))
	if p == nil {
		return ""
	}
	return p.Nickname
}

func vCheckNames(n int, any string) {
	k := vApp.GetProfileKeeper()
	any = strings.ToLower(any)
	if any != "" {
		acc := k.GetProfileAccountByNickname(vCtx, any)
		holder := 0
		for i := 1; i <= n; i++ {
			if rt.Fork(strings.ToLower(vOwnNick(i)) == any) {
				rt.Assert(holder == 0, "nicknames are different")
				holder = i
			}
		}
		if holder == 0 {
			rt.Assert(acc == nil, "a nickname nobody has leads nowhere")
		} else {
			rt.Assert(acc.Equals(vAddr(holder)), "a nickname leads to its holder")
		}
	}
	for i := 1; i <= n; i++ {
		p := k.GetProfile(vCtx, vAddr(i))
		if p == nil {
			continue
		}
		rt.Assert(k.GetProfileAccountByCardNumber(vCtx, p.CardNumber).Equals(vAddr(i)), "a card number leads to its holder")
		for j := 1; j < i; j++ {
			if q := k.GetProfile(vCtx, vAddr(j)); q != nil {
				rt.Assert(p.CardNumber != q.CardNumber, "card numbers are different")
			}
		}
		if p.Nickname != "" {
			rt.Assert(k.GetProfileAccountByNickname(vCtx, p.Nickname).Equals(vAddr(i)), "a nickname leads to its holder")
			rt.Assert(len(p.Nickname) >= 3, "proper nicknames only")
		}
	}
}

// vSameNick: whether a proper nickname is held by an account other than i.
func vTaken(n, i int, name string) bool {
	name = strings.ToLower(strings.TrimSpace(name))
	for j := 1; j <= n; j++ {
		if j != i && name != "" && rt.Fork(strings.ToLower(vOwnNick(j)) == name) {
			return true
		}
	}
	return false
}

// Accounts are made with nicknames; then one of them is renamed, maybe twice.
func Verif_P01_names() {
	rt.Bound("names", "2 accounts; names: none, any ASCII text of 3 (thorough: 3 or 4) bytes, ARTR-x in any case")
	vFund(vAddr(0), vCoins(sdk.NewInt(1000000000), sdk.ZeroInt(), sdk.ZeroInt()))
	for i := 1; i <= 2; i++ {
		name := vNick("name")
		var p *profileTypes.Profile
		if len(name) > 0 {
			p = &profileTypes.Profile{Nickname: name, CardNumber: rt.Uint64("card", 0, 1<<62)}
		}
		good := !vBadNick(name) && !vTaken(2, i, name)
		err := vProfileMsg(0, &profileTypes.MsgCreateAccount{Creator: vAcc(0), Address: vAcc(i), Referrer: vAcc(0), Profile: p})
		rt.Assert((err == nil) == good, "exactly free and proper nicknames are accepted")
		rt.Assume(good)
		rt.Assert(vOwnNick(i) == strings.TrimSpace(name), "named as requested")
		vFund(vAddr(i), vCoins(sdk.NewInt(10000000), sdk.ZeroInt(), sdk.ZeroInt()))
	}
	vCheckNames(2, vNick("any"))
}

func Verif_P01_rename() {
	vFund(vAddr(0), vCoins(sdk.NewInt(1000000000), sdk.ZeroInt(), sdk.ZeroInt()))
	for i := 1; i <= 2; i++ {
		vMust(vProfileMsg(0, &profileTypes.MsgCreateAccount{Creator: vAcc(0), Address: vAcc(i), Referrer: vAcc(0)}))
	}
	money := rt.Int64("money", 1, 5000000)
	vFund(vAddr(1), vCoins(sdk.NewInt(money), sdk.ZeroInt(), sdk.ZeroInt()))
	vFund(vAddr(2), vCoins(sdk.NewInt(2000000), sdk.ZeroInt(), sdk.ZeroInt()))
	if rt.Choose("second", 2) == 1 {
		vMust(vRename(2, "Bob"))
	}
	steps := 2
	rt.Bound("renames", vItoa(steps)+" renames")
	for s := 0; s < steps; s++ {
		name := ""
		if s == 0 {
			name = vPlainNick("name")
		} else {
			name = vNick("name")
		}
		old := vOwnNick(1)
		trimmed := strings.TrimSpace(name)
		good := !vBadNick(name) && !vTaken(2, 1, name)
		if good && trimmed != "" && rt.Fork(trimmed != old) {
			good = rt.Fork(money >= 1000000)
			if good {
				money -= 1000000
			}
		}
		err := vRename(1, name)
		rt.Assert((err == nil) == good, "exactly free and proper nicknames are accepted")
		if good {
			rt.Assert(vOwnNick(1) == trimmed, "named as requested")
		} else {
			rt.Assert(vOwnNick(1) == old, "the name is kept")
		}
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(sdk.NewInt(money)), "a new name is paid for")
	}
	any := rt.String("any", 3)
	rt.Assume(rt.And(any[0] > ' ', any[1] > ' ', any[2] > ' '))
	vCheckNames(2, any)
}

// ---------- P02: new accounts

func Verif_P02_create() {
	k := vApp.GetProfileKeeper()
	vGrow(0, 1)
	vGrow(1, 2)
	pp := k.GetParams(vCtx)
	price := rt.Int64("price", -1000000, 1000000000000)
	pp.RenamePrice = price
	free := rt.Choose("free", 2) == 1
	if free {
		pp.Creators = []string{vAcc(0), vAcc(1)}
	}
	k.SetParams(vCtx, pp)
	money := vInt("money", "0", "2000000000000")
	if rt.Fork(money.IsPositive()) {
		vFund(vAddr(1), sdk.NewCoins(sdk.NewCoin(uartr, money)))
	}
	c, max := vFeeParams()
	_, _ = c, max
	month := vApp.GetScheduleKeeper().OneMonth(vCtx)
	referrer := []int{0, 1, 2, 9}[rt.Choose("referrer", 4)]
	msg := &profileTypes.MsgCreateAccount{Creator: vAcc(1), Address: vAcc(5), Referrer: vAcc(referrer)}
	future := vCtx.BlockTime().Add(10 * month)
	flags := profileTypes.Profile{}
	if rt.Choose("with profile", 2) == 1 {
		flags = profileTypes.Profile{AutoPay: rt.Bool("auto pay"), Noding: true, Vpn: rt.Bool("vpn"), Storage: true, Nickname: "newbie", AutoPayImExtra: rt.Bool("im")}
		p := flags
		if rt.Choose("gift", 2) == 1 {
			p.ActiveUntil, p.ExtraImUntil = &future, &future
			p.StorageLimit, p.VpnLimit, p.ImLimitExtra = rt.Uint64("storage", 0, 1<<50), rt.Uint64("vpn limit", 0, 1<<50), rt.Uint64("im limit", 0, 1<<20)
			p.StorageCurrent, p.VpnCurrent = rt.Uint64("storage used", 0, 1<<50), rt.Uint64("vpn used", 0, 1<<50)
		}
		msg.Profile = &p
	}
	old := rt.Choose("exists", 2) == 1
	if old {
		vNewAcc(5)
	}
	before := vBal(vCtx, vAddr(1), uartr)
	collected := vBal(vCtx, vApp.GetAccountKeeper().GetModuleAddress(authTypes.FeeCollectorName), uartr)
	fee := sdk.ZeroInt()
	if !free && rt.Fork(price > 0) {
		fee = sdk.NewInt(price)
	}
	err := vProfileMsg(1, msg)
	ok := !old && referrer != 9 && rt.Fork(before.GTE(fee))
	rt.Assert((err == nil) == ok, "exactly a new address is registered, under an existing account, when paid for")
	if !ok {
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before), "nothing is taken")
		rt.Assert(k.GetProfile(vCtx, vAddr(5)) == nil, "nothing is made")
		return
	}
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before.Sub(fee)), "the creator pays the price")
	rt.Assert(vBal(vCtx, vApp.GetAccountKeeper().GetModuleAddress(authTypes.FeeCollectorName), uartr).Equal(collected.Add(fee)), "the price is collected")
	p := vProf(5)
	rt.Assert(!p.IsActive(vCtx) && !p.IsExtraImStorageActive(vCtx) && p.StorageLimit == 0 && p.VpnLimit == 0 && p.VpnCurrent == 0 && p.StorageCurrent == 0, "nothing that has to be paid for is given")
	rt.Assert(!vRef(vCtx, 5).Active, "not active")
	rt.Assert(vRef(vCtx, 5).Referrer == vAcc(referrer), "under its referrer")
	p.CardNumber = 0
	rt.Assert(rt.Eq(p, flags), "the rest is as requested")
	rt.Assert(vBal(vCtx, vAddr(5), uartr).IsZero(), "no coins come with an account")
}

// ---------- P03: the tariff

type vPrices struct {
	num, den              int64
	sub, gb, vpn          int64
	baseStorage, baseVpn  int64
}

func vTariff(fine bool) (x vPrices) {
	k := vApp.GetProfileKeeper()
	pp := k.GetParams(vCtx)
	c := rt.Choose("rate", 2)
	x.num, x.gb = []int64{1, 1234567}[c], []int64{1<<32 - 1, 10}[c]
	if rt.Thorough() {
		x.num = rt.Int64("rate", 1, 1000000)
	}
	x.den = 1
	if fine && rt.Choose("fine rate", 2) == 1 {
		x.den = 1000
	}
	x.sub, x.vpn = rt.Int64("subscription", 1, 1<<32-1), rt.Int64("vpn price", 1, 1<<32-1)
	x.baseStorage, x.baseVpn = rt.Int64("base storage", 1, 1000), rt.Int64("base vpn", 1, 1000)
	pp.TokenRate = util.NewFraction(x.num, x.den)
	pp.SubscriptionPrice, pp.StorageGbPrice, pp.VpnGbPrice = uint32(x.sub), uint32(x.gb), uint32(x.vpn)
	pp.BaseStorageGb, pp.BaseVpnGb = uint32(x.baseStorage), uint32(x.baseVpn)
	vMust(pp.Validate())
	k.SetParams(vCtx, pp)
	rt.Bound("prices", "rates n/1 (when not yet active also n/1000) with n=1, 1234567 (thorough: up to 10^6), storage prices 10 and 2^32-1, other prices of 32 bits, included amounts up to 1000 GB")
	return
}

func vPayTariff(i int, gb int64) error {
	return vProfileMsg(i, &profileTypes.MsgPayTariff{Address: vAcc(i), StorageAmount: uint32(gb)})
}

// vCents is num/den of x, rounded down.
func vCents(x sdk.Int, num, den int64) sdk.Int { return x.MulRaw(num).QuoRaw(den) }

func Verif_P03_tariff() {
	k := vApp.GetProfileKeeper()
	sk := vApp.GetScheduleKeeper()
	month := sk.OneMonth(vCtx)
	vGrow(0, 1)
	vPut(0, profileTypes.Profile{})
	state := rt.Choose("state", 4) // never active, active for a while, for long, not any more
	x := vTariff(state == 0)
	c, max := vFeeParams()
	now := vCtx.BlockTime()
	p := profileTypes.Profile{}
	var left, parts, of int64
	switch state {
	case 1:
		l := rt.Choose("left", 3)
		left = []int64{1, int64(10 * vDay), int64(30 * vDay)}[l]
		parts, of = []int64{1, 1, 1}[l], []int64{int64(30 * vDay), 3, 1}[l]
	case 2:
		left, parts, of = int64(45*vDay), 3, 2
	case 3:
		left = -int64(vDay)
	}
	if state != 0 {
		t := now.Add(time.Duration(left))
		p.ActiveUntil = &t
		extra := rt.Int64("storage", 0, 1000000)
		p.StorageLimit = uint64(x.baseStorage+extra) * util.GBSize
		p.StorageCurrent = rt.Uint64("storage used", 0, 1<<62)
		p.VpnLimit = rt.Uint64("vpn limit", 0, 1<<60)
		p.VpnCurrent = rt.Uint64("vpn used", 0, 1<<60)
		rt.Assume(p.VpnLimit >= uint64(x.baseVpn)*util.GBSize)
	}
	vPut(1, p)
	p.CardNumber = vProf(1).CardNumber
	money := vInt("money", "0", "1000000000000000000000000000000")
	if rt.Fork(money.IsPositive()) {
		vFund(vAddr(1), sdk.NewCoins(sdk.NewCoin(uartr, money)))
	}
	total := vTotal(vCtx, uartr)
	before, company, fees := vBal(vCtx, vAddr(1), uartr), vBal(vCtx, vAddr(0), uartr), vBal(vCtx, vCollector(), uartr)
	gb := rt.Int64("gb", 0, 1<<32-1)
	want := gb
	if rt.Fork(gb == 0) {
		want = x.baseStorage
		if state != 0 {
			want = int64(p.StorageLimit / util.GBSize)
		}
	}

	// The price.
	tariff := vCents(sdk.NewInt(x.sub), x.num, x.den)
	fee := vFee(tariff, c, max)
	store := sdk.NewInt(want - x.baseStorage).MulRaw(x.gb).MulRaw(x.num)
	storeDen := x.den
	if state == 1 || state == 2 {
		store = store.MulRaw(of).Add(sdk.NewInt(want - int64(p.StorageLimit/util.GBSize)).MulRaw(x.gb).MulRaw(x.num).MulRaw(parts))
		storeDen *= of
		if rt.Fork(store.IsNegative()) {
			store = sdk.ZeroInt()
		}
	}
	price := tariff.Add(store.QuoRaw(storeDen))
	rt.Assume(rt.And(tariff.GT(fee), price.LT(sdk.NewIntFromUint64(1<<63))))

	err := vPayTariff(1, gb)
	can := rt.Fork(gb == 0) || rt.Fork(rt.And(gb >= x.baseStorage, uint64(gb)*util.GBSize >= p.StorageCurrent))
	can = can && rt.Fork(before.GTE(price))
	rt.Assert((err == nil) == can, "exactly what can be paid for is granted")
	rt.Assert(vTotal(vCtx, uartr).Equal(total), "no coins appear or vanish")
	if err != nil {
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before), "nothing is taken")
		rt.Assert(rt.Eq(vProf(1), p), "nothing changes")
		rt.Cover("refused")
		return
	}
	rt.Cover("paid")
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before.Sub(price)), "the price is as published")
	rt.Assert(vBal(vCtx, vCollector(), uartr).Equal(fees.Add(fee)), "the fee is collected")
	rt.Assert(vBal(vCtx, vAddr(0), uartr).Equal(company.Add(price).Sub(fee)), "the company gets the rest")
	q := vProf(1)
	until := now.Add(month)
	if state == 1 || state == 2 {
		until = p.ActiveUntil.Add(month)
	}
	rt.Assert(q.ActiveUntil != nil && q.ActiveUntil.Equal(until), "one month more")
	rt.Assert(vRef(vCtx, 1).Active, "active")
	rt.Assert(q.StorageLimit == uint64(want)*util.GBSize, "storage as paid for")
	_ = k
	if state == 1 || state == 2 {
		rt.Assert(q.VpnLimit == p.VpnLimit && q.VpnCurrent == p.VpnCurrent, "traffic is counted by months")
	} else {
		vVpnReset(p, q, x.baseVpn)
	}
	rt.Assert(q.StorageCurrent == p.StorageCurrent && q.Nickname == p.Nickname && q.CardNumber == p.CardNumber, "the rest is kept")
}

// vVpnReset: a new month of traffic; what was used over the included amount is gone from the limit.
func vVpnReset(p, q profileTypes.Profile, baseGb int64) {
	base := sdk.NewIntFromUint64(uint64(baseGb) * util.GBSize)
	limit := sdk.NewIntFromUint64(p.VpnLimit)
	used := sdk.NewIntFromUint64(p.VpnCurrent)
	if rt.Fork(used.GT(base)) {
		limit = limit.Sub(used.Sub(base))
	}
	limit = sdk.MaxInt(limit, base)
	rt.Assert(q.VpnCurrent == 0, "a new month of traffic")
	rt.Assert(sdk.NewIntFromUint64(q.VpnLimit).Equal(limit), "bought traffic is kept until used")
}

// Months go by: automatic payments, advance payments and the end of activity.
func Verif_P03_months() {
	month := vApp.GetScheduleKeeper().OneMonth(vCtx)
	vGrow(0, 1)
	vPut(0, profileTypes.Profile{})
	vPut(1, profileTypes.Profile{})
	x := vTariff(true)
	vNoFee()
	now := vCtx.BlockTime()
	tariff := vCents(sdk.NewInt(x.sub), x.num, x.den)
	rt.Assume(tariff.IsPositive())
	// enough for a number of months
	n := rt.Choose("months", 4)
	vFund(vAddr(1), sdk.NewCoins(sdk.NewCoin(uartr, tariff.MulRaw(int64(n+1)).SubRaw(1))))
	auto := rt.Choose("auto", 2) == 1
	if auto {
		vMust(vProfileMsg(1, &profileTypes.MsgUpdateProfile{Address: vAcc(1), Updates: []profileTypes.MsgUpdateProfile_Update{
			{Field: profileTypes.MsgUpdateProfile_Update_FIELD_AUTO_PAY, Value: &profileTypes.MsgUpdateProfile_Update_Bool{Bool: true}},
		}}))
	}
	paid := 0
	start := now.Add(time.Duration(rt.Int64("start", 1, int64(20*vDay))))
	vTick(start)
	advance := 1 + rt.Choose("advance", 3)
	for j := 0; j < advance; j++ {
		err := vPayTariff(1, 0)
		rt.Assert((err == nil) == (paid < n), "exactly what can be paid for is granted")
		if err == nil {
			paid++
		}
	}
	until := start.Add(time.Duration(paid) * month)
	for j := 1; j <= 4; j++ {
		due := start.Add(time.Duration(j) * month)
		vTick(due.Add(-1))
		rt.Assert(vRef(vCtx, 1).Active == vCtx.BlockTime().Before(until), "active as long as paid")
		if vRef(vCtx, 1).Active && rt.Choose("use", 2) == 1 {
			p := vProf(1)
			p.VpnCurrent = rt.Uint64("vpn used", 0, 1<<60)
			vPut(1, p)
		}
		p := vProf(1)
		vTick(due)
		if paid >= j && auto && !due.Before(until) && paid < n {
			paid++
			until = until.Add(month)
		}
		active := due.Before(until)
		rt.Assert(vRef(vCtx, 1).Active == active && vProf(1).IsActive(vCtx) == active, "active as long as paid")
		if paid > j || active {
			vVpnReset(p, vProf(1), x.baseVpn)
		}
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(tariff.MulRaw(int64(n+1-paid)).SubRaw(1)), "each month is paid for once")
	}
}

// ---------- P04: storage, traffic and messaging space

func vMoney() sdk.Int {
	money := vInt("money", "0", "1000000000000000000000000")
	if rt.Fork(money.IsPositive()) {
		vFund(vAddr(1), sdk.NewCoins(sdk.NewCoin(uartr, money)))
	} else {
		vFund(vAddr(1), sdk.NewCoins())
	}
	return money
}

// vParts: some lengths of time and how many months they are.
func vParts() (left time.Duration, parts, of int64) {
	c := rt.Choose("time left", 3)
	return []time.Duration{10 * vDay, 30 * vDay, 45 * vDay}[c], []int64{1, 1, 3}[c], []int64{3, 1, 2}[c]
}

func Verif_P04_buy() {
	vGrow(0, 1)
	vPut(0, profileTypes.Profile{})
	kind := rt.Choose("kind", 3) // storage, traffic, messaging
	x := vTariff(true)
	c, max := vFeeCfg{}, int64(0)
	if kind == 1 || rt.Thorough() {
		c, max = vFeeParams()
	} else {
		vNoFee()
	}
	k := vApp.GetProfileKeeper()
	pp := k.GetParams(vCtx)
	pp.VpnGbPrice = uint32(x.gb)
	k.SetParams(vCtx, pp)
	now := vCtx.BlockTime()
	p := profileTypes.Profile{StorageLimit: rt.Uint64("storage", 0, 1<<62), StorageCurrent: rt.Uint64("storage used", 0, 1<<62),
		VpnLimit: rt.Uint64("vpn limit", 0, 1<<62), VpnCurrent: rt.Uint64("vpn used", 0, 1<<62), ImLimitExtra: rt.Uint64("im", 0, 1<<40)}
	active := rt.Choose("active", 2) == 1
	parts, of := int64(1), int64(1)
	if active {
		var left time.Duration
		left, parts, of = vParts()
		t := now.Add(left)
		p.ActiveUntil, p.ExtraImUntil = &t, &t
	} else if kind != 2 && rt.Choose("was active", 2) == 1 {
		p.ActiveUntil = &now
	}
	imActive := rt.Fork(active && p.ImLimitExtra != 0)
	vPut(1, p)
	p = vProf(1)
	before := vMoney()
	company, fees, total := vBal(vCtx, vAddr(0), uartr), vBal(vCtx, vCollector(), uartr), vTotal(vCtx, uartr)
	extra := rt.Int64("extra", 0, 1<<32-1)
	var msg sdk.Msg
	switch kind {
	case 0:
		msg = &profileTypes.MsgBuyStorage{Address: vAcc(1), ExtraStorage: uint32(extra)}
	case 1:
		msg, parts, of = &profileTypes.MsgBuyVpn{Address: vAcc(1), ExtraTraffic: uint32(extra)}, 1, 1
	case 2:
		msg = &profileTypes.MsgBuyImExtraStorage{Address: vAcc(1), ExtraStorage: uint32(extra)}
		if !imActive {
			parts, of = 1, 1
		}
	}
	price := vCents(sdk.NewInt(extra).MulRaw(x.gb).MulRaw(parts), x.num, x.den*of)
	fee := sdk.ZeroInt()
	if c.lcm != 0 {
		fee = vFee(price, c, max)
	}
	rt.Assume(extra == 0 || price.LT(sdk.NewIntFromUint64(1<<63)) && price.GT(fee))
	err := vProfileMsg(1, msg)
	ok := rt.Fork(extra > 0) && (active || kind == 2) && rt.Fork(before.GTE(price))
	rt.Assert((err == nil) == ok, "exactly what can be paid for is granted")
	rt.Assert(vTotal(vCtx, uartr).Equal(total), "no coins appear or vanish")
	want := p
	if !ok {
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before), "nothing is taken")
		rt.Assert(rt.Eq(vProf(1), want), "nothing is granted")
		return
	}
	rt.Cover("bought")
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before.Sub(price)), "the price is as published")
	rt.Assert(vBal(vCtx, vCollector(), uartr).Equal(fees.Add(fee)), "the fee is collected")
	rt.Assert(vBal(vCtx, vAddr(0), uartr).Equal(company.Add(price).Sub(fee)), "the company gets the rest")
	switch kind {
	case 0:
		if rt.Fork(want.StorageLimit < uint64(x.baseStorage)*util.GBSize) {
			want.StorageLimit = uint64(x.baseStorage) * util.GBSize
		}
		want.StorageLimit += uint64(extra) * util.GBSize
	case 1:
		want.VpnLimit += uint64(extra) * util.GBSize
	case 2:
		if imActive {
			want.ImLimitExtra += uint64(extra)
		} else {
			t := now.Add(vApp.GetScheduleKeeper().OneMonth(vCtx))
			want.ImLimitExtra, want.ExtraImUntil = uint64(extra), &t
		}
	}
	rt.Assert(rt.Eq(vProf(1), want), "what is paid for is granted, and nothing else")
}

func Verif_P04_give() {
	vGrow(0, 1)
	x := vTariff(false)
	vNoFee()
	p := profileTypes.Profile{StorageLimit: rt.Uint64("storage", 0, 1<<63), StorageCurrent: rt.Uint64("storage used", 0, 1<<63), VpnLimit: rt.Uint64("vpn limit", 0, 1<<62)}
	t := vCtx.BlockTime().Add(10 * vDay)
	if rt.Choose("active", 2) == 1 {
		p.ActiveUntil = &t
	}
	vPut(1, p)
	p = vProf(1)
	before := vBal(vCtx, vAddr(1), uartr)
	gb := rt.Int64("gb", 0, 1<<32-1)
	err := vProfileMsg(1, &profileTypes.MsgGiveStorageUp{Address: vAcc(1), Amount: uint32(gb)})
	limit := uint64(vMax(gb, x.baseStorage)) * util.GBSize
	ok := rt.Fork(rt.And(gb > 0, limit >= p.StorageCurrent, limit < p.StorageLimit))
	rt.Assert((err == nil) == ok, "storage in use and included in the tariff cannot be given up")
	if ok {
		p.StorageLimit = limit
	}
	rt.Assert(rt.Eq(vProf(1), p), "the limit is as requested")
	rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(before), "giving up is free and is not paid back")
}

func vMax(a, b int64) int64 {
	if rt.Fork(a < b) {
		return b
	}
	return a
}

// Messaging space over time: buying, adding, prolonging, giving up, automatic payments.
func Verif_P04_messaging() {
	month := vApp.GetScheduleKeeper().OneMonth(vCtx)
	vGrow(0, 1)
	vPut(0, profileTypes.Profile{})
	vPut(1, profileTypes.Profile{})
	x := vTariff(false)
	bp := vApp.GetBankKeeper().GetParams(vCtx)
	bp.TransactionFee, bp.MaxTransactionFee = util.Percent(1), 0
	vApp.GetBankKeeper().SetParams(vCtx, bp)
	gbPrice := sdk.NewInt(x.gb).MulRaw(x.num)
	money := sdk.NewInt(rt.Int64("money", 1, 1<<60))
	vFund(vAddr(1), sdk.NewCoins(sdk.NewCoin(uartr, money)))
	auto, extra, until := false, int64(0), time.Time{}
	if rt.Choose("auto", 2) == 1 {
		auto = true
		vMust(vProfileMsg(1, &profileTypes.MsgUpdateProfile{Address: vAcc(1), Updates: []profileTypes.MsgUpdateProfile_Update{
			{Field: profileTypes.MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY, Value: &profileTypes.MsgUpdateProfile_Update_Bool{Bool: true}},
		}}))
	}
	free := vProf(1).ImLimitTotal(vCtx)
	pay := func(err error, price sdk.Int) bool {
		ok := rt.Fork(money.GTE(price))
		rt.Assert((err == nil) == ok, "exactly what can be paid for is granted")
		if ok {
			money = money.Sub(price)
		}
		return ok
	}
	check := func() {
		p := vProf(1)
		rt.Assert(p.ImLimitTotal(vCtx) == free+uint64(extra)*util.GBSize, "the space paid for is available")
		rt.Assert(vBal(vCtx, vAddr(1), uartr).Equal(money), "what is used is paid for once")
		rt.Assert(p.AutoPayImExtra == auto, "automatic payments go on until one fails")
		if extra != 0 {
			rt.Assert(p.ExtraImUntil.Equal(until), "for as long as paid")
		}
	}
	steps := 3
	if rt.Thorough() {
		steps = 4
	}
	rt.Bound("messaging", vItoa(steps)+" operations a third of a month or a month apart")
	for s := 0; s < steps; s++ {
		now := vCtx.BlockTime()
		op := 0
		if s > 0 {
			op = rt.Choose("op", 4)
		}
		switch op {
		case 0:
			e := rt.Int64("add", 1, 1000000)
			price := gbPrice.MulRaw(e)
			if extra != 0 {
				d := until.Sub(now) / (10 * vDay)
				price = price.MulRaw(int64(d)).QuoRaw(3)
			}
			rt.Assume(price.GTE(sdk.NewInt(1000)))
			if pay(vProfileMsg(1, &profileTypes.MsgBuyImExtraStorage{Address: vAcc(1), ExtraStorage: uint32(e)}), price) {
				if extra == 0 {
					until = now.Add(month)
				}
				extra += e
			}
		case 1:
			err := vProfileMsg(1, &profileTypes.MsgProlongImExtra{Address: vAcc(1)})
			if extra == 0 {
				rt.Assert(err != nil, "nothing to prolong")
			} else {
				rt.Assume(gbPrice.MulRaw(extra).GTE(sdk.NewInt(1000)))
				if pay(err, gbPrice.MulRaw(extra)) {
					until = until.Add(month)
				}
			}
		case 2:
			e := rt.Int64("keep", 0, 1000000)
			err := vProfileMsg(1, &profileTypes.MsgGiveUpImExtra{Address: vAcc(1), Amount: uint32(e)})
			ok := rt.Fork(e < extra)
			rt.Assert((err == nil) == ok, "one gives up what one has")
			if ok {
				extra = e
				if rt.Fork(e == 0) {
					extra = 0
				}
			}
		case 3:
			d := []time.Duration{10 * vDay, month}[rt.Choose("wait", 2)]
			for t := now.Add(10 * vDay); !t.After(now.Add(d)); t = t.Add(10 * vDay) {
				vTick(t)
				if extra != 0 && !t.Before(until) {
					price := gbPrice.MulRaw(extra)
					rt.Assume(price.GTE(sdk.NewInt(1000)))
					if auto && rt.Fork(money.GTE(price)) {
						money, until = money.Sub(price), until.Add(month)
						rt.Cover("automatic payment")
					} else {
						auto, extra = false, 0
						rt.Cover("expired")
					}
				}
			}
		}
		check()
	}
}

// ---------- P05: reports of the signers

func Verif_P05_reports() {
	k := vApp.GetProfileKeeper()
	vGrow(0, 3)
	kind := rt.Choose("kind", 3)
	pp := k.GetParams(vCtx)
	lists := []*[]string{&pp.StorageSigners, &pp.VpnSigners, &pp.TokenRateSigners}
	listed := rt.Choose("listed", 4)
	for i, l := range lists {
		*l = []string{vAcc(4)}
		mask := listed
		if i != kind {
			mask = 3 - listed
		}
		for j := 0; j < 2; j++ {
			if mask>>uint(j)&1 == 1 {
				*l = append(*l, vAcc(1+j))
			}
		}
	}
	k.SetParams(vCtx, pp)
	pp = k.GetParams(vCtx)
	p := profileTypes.Profile{StorageLimit: rt.Uint64("storage", 0, 1<<62), StorageCurrent: rt.Uint64("storage used", 0, 1<<62),
		VpnLimit: rt.Uint64("vpn limit", 0, 1<<62), VpnCurrent: rt.Uint64("vpn used", 0, 1<<62), Nickname: "user"}
	if rt.Choose("active", 2) == 1 {
		t := vCtx.BlockTime().Add(vDay)
		p.ActiveUntil = &t
	}
	vPut(3, p)
	p = vProf(3)
	sender := 1 + rt.Choose("sender", 3)
	subject := []int{3, 7}[rt.Choose("subject", 2)]
	v := rt.Uint64("value", 0, 1<<63)
	num, den := rt.Int64("num", -1<<60, 1<<60), []int64{1, 1000, -7}[rt.Choose("den", 3)]
	ok := sender <= 2 && listed>>uint(sender-1)&1 == 1
	var msg sdk.Msg
	switch kind {
	case 0:
		msg = &profileTypes.MsgSetStorageCurrent{Sender: vAcc(sender), Address: vAcc(subject), Value: v}
		ok = ok && subject == 3
		if ok {
			p.StorageCurrent = v
		}
	case 1:
		msg = &profileTypes.MsgSetVpnCurrent{Sender: vAcc(sender), Address: vAcc(subject), Value: v}
		ok = ok && subject == 3
		if ok {
			p.VpnCurrent = v
		}
	case 2:
		msg = &profileTypes.MsgSetRate{Sender: vAcc(sender), Value: util.NewFraction(num, den)}
		ok = ok && rt.Fork(rt.Or(rt.And(num > 0, den > 0), rt.And(num < 0, den < 0)))
		if ok {
			pp.TokenRate = util.NewFraction(num, den)
		}
	}
	err := vProfileMsg(sender, msg)
	rt.Assert((err == nil) == ok, "exactly the listed signers are heard")
	rt.Assert(rt.Eq(vProf(3), p), "the profile is as reported")
	q := k.GetParams(vCtx)
	rt.Assert(q.TokenRate.Equal(pp.TokenRate), "the rate is as reported")
	q.TokenRate = pp.TokenRate
	rt.Assert(rt.Eq(q, pp), "nothing else changes")
}
