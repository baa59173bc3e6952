From fa701afbc03b1d1bbdd8b11336721ee149863827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 01/29] fix: reject a zero denominator when parsing a fraction

---
 util/fraction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fraction.go b/util/fraction.go
index 5b0dce6..6e7efbc 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -122,6 +122,9 @@ func ParseFraction(s string) (Fraction, error) {
 			if err != nil {
 				return Fraction{}, err
 			}
+			if denom.Sign() == 0 {
+				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: " + s)
+			}
 		} else {
 			denom = big.NewInt(1)
 		}
-- 
2.43.0


From c0ecdf68cbf7de0c5f2063cc16de339b9711d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 02/29] fix: read the numbers of a fraction in decimal notation

---
 util/fraction.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/util/fraction.go b/util/fraction.go
index 6e7efbc..d83c525 100644
--- a/util/fraction.go
+++ b/util/fraction.go
@@ -99,7 +99,6 @@ func ParseFraction(s string) (Fraction, error) {
 	var (
 		num   = &big.Int{}
 		denom = &big.Int{}
-		err   error
 	)
 
 	if s == "" || s == "nil" {
@@ -118,9 +117,8 @@ func ParseFraction(s string) (Fraction, error) {
 			return Fraction{}, fmt.Errorf("invalid fraction format, 'x%' or 'x/y' expected: " + s)
 		}
 		if len(match) > 2 && len(match[2]) > 0 {
-			err = denom.UnmarshalText([]byte(match[2]))
-			if err != nil {
-				return Fraction{}, err
+			if _, ok := denom.SetString(match[2], 10); !ok {
+				return Fraction{}, fmt.Errorf("invalid denominator: " + s)
 			}
 			if denom.Sign() == 0 {
 				return Fraction{}, fmt.Errorf("invalid fraction, zero denominator: " + s)
@@ -130,9 +128,8 @@ func ParseFraction(s string) (Fraction, error) {
 		}
 	}
 
-	err = num.UnmarshalText([]byte(match[1]))
-	if err != nil {
-		return Fraction{}, err
+	if _, ok := num.SetString(match[1], 10); !ok {
+		return Fraction{}, fmt.Errorf("invalid numerator: " + s)
 	}
 
 	return Fraction{num, denom}, nil
-- 
2.43.0


From 16bced364f8859e638e8f84e86ddf44de9b44b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 03/29] fix: do not lose tasks scheduled, nor perform tasks
 cancelled, while the schedule is being performed

---
 x/schedule/keeper/keeper.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..ce263e4 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -123,13 +122,27 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
+	store := ctx.KVStore(k.storeKey)
 	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
 
+	var keys [][]byte
+	it := store.Iterator(nil, terminator)
 	for ; it.Valid(); it.Next() {
+		keys = append(keys, it.Key())
+	}
+	it.Close()
+
+	for _, key := range keys {
+		// Tasks may schedule and cancel other tasks, so every record must be read right before its turn and removed
+		// before its tasks are performed.
+		bz := store.Get(key)
+		if bz == nil {
+			continue
+		}
+		store.Delete(key)
+
 		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+		k.cdc.MustUnmarshalBinaryBare(bz, &sch)
 		for _, task := range sch.Tasks {
 			hook := k.eventHooks[task.HandlerName]
 			if hook != nil {
@@ -138,11 +151,7 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 			}
 		}
-		store.Delete(it.Key())
 	}
-
-	it.Close()
-	store.Write()
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From d8c6563115619b5a6eb441711cc6db9ca28b8e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 04/29] fix: accept earner reports from the listed signers only

---
 x/earning/keeper/msg_server.go | 13 ++++++++++++-
 x/earning/types/errors.go      |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..1cb6c11 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -16,7 +16,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Signer: msg.Signer, Earners: []types.Earner{msg.Earner}})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +28,17 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	authorized := false
+	for _, signer := range k.GetParams(sdkCtx).Signers {
+		if msg.Signer == signer {
+			authorized = true
+			break
+		}
+	}
+	if !authorized {
+		return nil, types.ErrUnauthorized
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
diff --git a/x/earning/types/errors.go b/x/earning/types/errors.go
index 94d2cbe..d9e3073 100644
--- a/x/earning/types/errors.go
+++ b/x/earning/types/errors.go
@@ -10,4 +10,5 @@ var (
 	ErrLocked        = sdkerrors.Register(ModuleName, 3, "earner list is locked")
 	ErrNotLocked     = sdkerrors.Register(ModuleName, 4, "earner list is not locked")
 	ErrNoMoney       = sdkerrors.Register(ModuleName, 5, "there are no coins in VPN&storage module accounts")
+	ErrUnauthorized  = sdkerrors.Register(ModuleName, 6, "sender is out of whitelist")
 )
-- 
2.43.0


From 25a0671dd1f0b6ca1cb569f6c658868818efa79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:27 +0000
Subject: [PATCH 05/29] fix: do not list an earning signer twice

---
 x/earning/keeper/params.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..ce9742d 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,7 +20,13 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
-	p.Signers = append(p.Signers, address.String())
+	bech32 := address.String()
+	for _, signer := range p.Signers {
+		if signer == bech32 {
+			return
+		}
+	}
+	p.Signers = append(p.Signers, bech32)
 	k.SetParams(ctx, p)
 }
 
-- 
2.43.0


From 108860c848328deeb5f490366412ffc5226b4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 06/29] fix: count the tenth level of the ancestors' networks
 when an account is compressed

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..002d843 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -362,7 +362,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 42e3dd8117292f734ee829f58b6238397bf84a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 07/29] fix: refuse transitions of and to accounts that are out
 of the referral

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 002d843..0520a52 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -1250,6 +1250,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if subject == newParent {
 		return errors.New("subject cannot be their own referral")
 	}
+	if !k.exists(ctx, subject) {
+		return errors.Wrap(types.ErrNotFound, "subject account data missing")
+	}
 	if r, err = k.Get(ctx, subject); err != nil {
 		return errors.Wrap(err, "subject account data missing")
 	}
@@ -1265,6 +1268,9 @@ func (k Keeper) validateTransition(ctx sdk.Context, subject, newParent string, f
 	if r.Referrer == newParent {
 		return errors.New("destination address is already subject's referrer")
 	}
+	if !k.exists(ctx, newParent) {
+		return errors.Wrap(types.ErrNotFound, "destination account data missing")
+	}
 	if p, err = k.Get(ctx, newParent); err != nil {
 		return errors.Wrap(err, "destination account data missing")
 	}
-- 
2.43.0


From 3d1f11e5e9ee15909b8abf466cd06302e1822834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:56 +0000
Subject: [PATCH 08/29] fix: do not append accounts to a referrer that does not
 exist

---
 x/referral/keeper/keeper.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 0520a52..31816f6 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -220,6 +220,9 @@ func (k Keeper) appendChild(ctx sdk.Context, parentAcc string, childAcc string,
 			fmt.Sprintf("account %s already exists", childAcc),
 		)
 	}
+	if !k.exists(ctx, parentAcc) {
+		return sdkerrors.Wrap(types.ErrNotFound, parentAcc)
+	}
 	var (
 		bu        = newBunchUpdater(k, ctx)
 		anc       = parentAcc
-- 
2.43.0


From 163ca21809c027091dccd03f64bb1fff23bb629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 09/29] fix: send one update per validator key

---
 x/noding/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..3a89395 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -505,7 +505,7 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
+			if x.PubKey.Equal(y.PubKey) {
 				unique[j] = x
 				found = true
 				break
-- 
2.43.0


From 2beef80235904449d8dddc8039801d474c8dae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:32 +0000
Subject: [PATCH 10/29] fix: keep a validator whose key has just been left by
 another operator

---
 x/noding/keeper/keeper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 3a89395..ad60d49 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -506,7 +506,9 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 		found := false
 		for j, y := range unique {
 			if x.PubKey.Equal(y.PubKey) {
-				unique[j] = x
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From b51fc83cb86abdf6cd2205e1ebc9df733d09026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 11/29] fix: do not give the key of a jailed validator away

---
 x/noding/keeper/keeper.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index ad60d49..f75937a 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -193,14 +193,21 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	}
 
 	consAddr := sdk.GetConsAddress(key)
-	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
+	owner, found, _, err := k.GetValidatorByConsAddr(ctx, consAddr)
 	if err != nil {
 		k.Logger(ctx).Error("couldn't Get validator by consensus address", "consAddr", consAddr)
 		return err
 	}
-	if found && active {
-		k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
-		return types.ErrPubkeyBusy
+	if found {
+		data, err := k.Get(ctx, owner)
+		if err != nil {
+			return sdkerrors.Wrapf(err, "cannot get data for %s", owner.String())
+		}
+		// A jailed validator keeps its key, it is going to be back
+		if data.Status && data.PubKey == bech32FromCryptoPubKey(key) {
+			k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
+			return types.ErrPubkeyBusy
+		}
 	}
 
 	isQualified, delegation, reason, err := k.IsQualified(ctx, accAddr)
-- 
2.43.0


From f993771c04d2ad928f198fb8d0bf767612721273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:07 +0000
Subject: [PATCH 12/29] fix: switch off a validator whose stake is not enough
 any more

---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index f75937a..c39233b 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -327,7 +327,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From 2ce89e9dc6b10189e3334a3cb9d5d0acefab6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 13/29] fix: check validators when the networks they draw their
 stake from are moved or banished

---
 x/referral/keeper/keeper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 31816f6..e2806a5 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -825,6 +825,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-1]
 		}
 
+		bu.addCallback(StakeChangedCallback, oldParent)
 		oldAncestor = value.Referrer
 		return nil
 	}); err != nil {
@@ -843,6 +844,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveRefCounts[i] += r.ActiveRefCounts[i-1]
 		}
 
+		bu.addCallback(StakeChangedCallback, newParent)
 		newAncestor = value.Referrer
 		return nil
 	}); err != nil {
@@ -860,6 +862,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
 					value.ActiveRefCounts[i] -= r.ActiveRefCounts[i-level]
 				}
+				bu.addCallback(StakeChangedCallback, oldAncestor)
 				oldAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -873,6 +876,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
 					value.ActiveRefCounts[i] += r.ActiveRefCounts[i-level]
 				}
+				bu.addCallback(StakeChangedCallback, newAncestor)
 				newAncestor = value.Referrer
 				return nil
 			}); err != nil {
@@ -957,6 +961,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 			util.RemoveStringFast(&value.Referrals, acc)
 			value.Coins[1] = value.Coins[1].Sub(c)
 			value.Delegated[1] = value.Delegated[1].Sub(d)
+			bu.addCallback(StakeChangedCallback, parent)
 
 			return nil
 		}); err != nil {
@@ -977,6 +982,7 @@ func (k Keeper) Banish(ctx sdk.Context, acc string) error {
 
 				value.Coins[lvl] = value.Coins[lvl].Sub(c)
 				value.Delegated[lvl] = value.Delegated[lvl].Sub(d)
+				bu.addCallback(StakeChangedCallback, parent)
 
 				return nil
 			}); err != nil {
-- 
2.43.0


From 99fa941dc2261fa4b5e9dbba003d01db85fd4004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 14/29] fix: keep the history of all proposals finished at the
 same block

---
 x/voting/keeper/keeper.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 4fcb1da..c3f642c 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -173,6 +173,10 @@ func (k Keeper) SaveProposalToHistory(ctx sdk.Context, store sdk.KVStore) {
 	height := make([]byte, 8)
 	binary.BigEndian.PutUint64(height, uint64(ctx.BlockHeight()))
 	key := append(types.KeyHistoryPrefix, height...)
+	for store.Has(key) {
+		// There can be more than one proposal finished at the same block
+		key = append(key, 0)
+	}
 	store.Set(key, historyBz)
 }
 
@@ -185,6 +189,10 @@ func (k Keeper) AddProposalHistoryRecord(ctx sdk.Context, record types.ProposalH
 	height := make([]byte, 8)
 	binary.BigEndian.PutUint64(height, uint64(record.Finished))
 	key := append(types.KeyHistoryPrefix, height...)
+	for store.Has(key) {
+		// There can be more than one proposal finished at the same block
+		key = append(key, 0)
+	}
 	store.Set(key, historyBz)
 }
 
-- 
2.43.0


From cb8c35c3896d71107bb2c09b3655773706133c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 15/29] fix: do not add a governor twice, do not remove the
 last one

---
 x/voting/keeper/keeper.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index c3f642c..6e7d1de 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -246,9 +246,19 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_PRODUCT_NETWORK_AWARD:
 			err = errors.New("parameter is deprecated")
 		case types.PROPOSAL_TYPE_GOVERNMENT_ADD:
-			k.AddGovernor(ctx, proposal.GetAddress().GetAddress())
+			if addr := proposal.GetAddress().GetAddress(); k.GetGovernment(ctx).Contains(addr) {
+				err = types.ErrProposalGovernorExists
+			} else {
+				k.AddGovernor(ctx, addr)
+			}
 		case types.PROPOSAL_TYPE_GOVERNMENT_REMOVE:
-			k.RemoveGovernor(ctx, proposal.GetAddress().GetAddress())
+			if gov, addr := k.GetGovernment(ctx), proposal.GetAddress().GetAddress(); !gov.Contains(addr) {
+				err = types.ErrProposalGovernorNotExists
+			} else if len(gov.Members) == 1 {
+				err = types.ErrProposalGovernorLast
+			} else {
+				k.RemoveGovernor(ctx, addr)
+			}
 		case types.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.VpnGbPrice = proposal.GetPrice().Price
-- 
2.43.0


From 9f2418babc6f6d69a06b14f1edf3b4b235ae9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 16/29] fix: ignore accepted proposals with inadmissible values
 instead of panicking

---
 x/profile/keeper/params.go | 16 ++++++++++++++++
 x/voting/keeper/keeper.go  | 24 ++++++++++++++++++------
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/x/profile/keeper/params.go b/x/profile/keeper/params.go
index 78db4a0..e98e2af 100644
--- a/x/profile/keeper/params.go
+++ b/x/profile/keeper/params.go
@@ -39,6 +39,10 @@ func (k Keeper) AddFreeCreator(ctx sdk.Context, creator sdk.AccAddress) {
 func (k Keeper) RemoveFreeCreator(ctx sdk.Context, creator sdk.AccAddress) {
 	params := k.GetParams(ctx)
 	params.Creators = remove(params.Creators, creator.String())
+	if err := params.Validate(); err != nil {
+		k.Logger(ctx).Error("could not remove an account from a list", "error", err)
+		return
+	}
 	k.SetParams(ctx, params)
 }
 
@@ -51,6 +55,10 @@ func (k Keeper) AddTokenRateSigner(ctx sdk.Context, signer sdk.AccAddress) {
 func (k Keeper) RemoveTokenRateSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	params := k.GetParams(ctx)
 	params.TokenRateSigners = remove(params.TokenRateSigners, signer.String())
+	if err := params.Validate(); err != nil {
+		k.Logger(ctx).Error("could not remove an account from a list", "error", err)
+		return
+	}
 	k.SetParams(ctx, params)
 }
 
@@ -63,6 +71,10 @@ func (k Keeper) AddVpnCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 func (k Keeper) RemoveVpnCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	p := k.GetParams(ctx)
 	p.VpnSigners = remove(p.VpnSigners, signer.String())
+	if err := p.Validate(); err != nil {
+		k.Logger(ctx).Error("could not remove an account from a list", "error", err)
+		return
+	}
 	k.SetParams(ctx, p)
 }
 
@@ -75,6 +87,10 @@ func (k Keeper) AddStorageCurrentSigner(ctx sdk.Context, signer sdk.AccAddress)
 func (k Keeper) RemoveStorageCurrentSigner(ctx sdk.Context, signer sdk.AccAddress) {
 	p := k.GetParams(ctx)
 	p.StorageSigners = remove(p.StorageSigners, signer.String())
+	if err := p.Validate(); err != nil {
+		k.Logger(ctx).Error("could not remove an account from a list", "error", err)
+		return
+	}
 	k.SetParams(ctx, p)
 }
 
diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 6e7d1de..9ae019b 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -238,7 +238,9 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_ENTER_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.SubscriptionPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_DELEGATION_AWARD:
 			err = errors.New("parameter is deprecated")
 		case types.PROPOSAL_TYPE_DELEGATION_NETWORK_AWARD:
@@ -262,11 +264,15 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_PRODUCT_VPN_BASE_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.VpnGbPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_PRODUCT_STORAGE_BASE_PRICE:
 			p := k.profileKeeper.GetParams(ctx)
 			p.StorageGbPrice = proposal.GetPrice().Price
-			k.profileKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.profileKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_FREE_CREATOR_ADD:
 			k.profileKeeper.AddFreeCreator(ctx, proposal.GetAddress().GetAddress())
 		case types.PROPOSAL_TYPE_FREE_CREATOR_REMOVE:
@@ -314,11 +320,15 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_MIN_DELEGATE:
 			p := k.delegatingKeeper.GetParams(ctx)
 			p.MinDelegate = proposal.GetMinAmount().MinAmount
-			k.delegatingKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.delegatingKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_MAX_VALIDATORS:
 			p := k.nodingKeeper.GetParams(ctx)
 			p.MaxValidators = proposal.GetCount().Count
-			k.nodingKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.nodingKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_GENERAL_AMNESTY:
 			k.nodingKeeper.GeneralAmnesty(ctx)
 		case types.PROPOSAL_TYPE_LUCKY_VALIDATORS:
@@ -340,7 +350,9 @@ func (k Keeper) EndProposal(ctx sdk.Context, proposal types.Proposal, agreed boo
 		case types.PROPOSAL_TYPE_DUST_DELEGATION:
 			p := k.bankKeeper.GetParams(ctx)
 			p.DustDelegation = proposal.GetMinAmount().MinAmount
-			k.bankKeeper.SetParams(ctx, p)
+			if err = p.Validate(); err == nil {
+				k.bankKeeper.SetParams(ctx, p)
+			}
 		case types.PROPOSAL_TYPE_VOTING_POWER:
 			p := k.nodingKeeper.GetParams(ctx)
 			p.VotingPower = *proposal.GetVotingPower()
-- 
2.43.0


From e1383533b5e71010bf5cd9adf049b15a8793bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:42 +0000
Subject: [PATCH 17/29] fix: do not panic on an accepted proposal to remove the
 last earning signer

---
 x/earning/keeper/params.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index ce9742d..860c637 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -40,6 +40,10 @@ func (k Keeper) RemoveSigner(ctx sdk.Context, address sdk.AccAddress) {
 				p.Signers[i] = p.Signers[last]
 			}
 			p.Signers = p.Signers[:last]
+			if err := p.Validate(); err != nil {
+				k.Logger(ctx).Error("could not remove a signer", "error", err)
+				return
+			}
 			k.SetParams(ctx, p)
 			return
 		}
-- 
2.43.0


From 6393bc7af208005cfc1f8b9d13de16a13d73785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 18/29] fix: profile: store a nickname as it is indexed, check
 it on creation

---
 x/profile/keeper/keeper.go |  2 ++
 x/profile/types/msgs.go    | 36 +++++++++++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..84640bb 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -125,6 +125,8 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
+	// The nickname is to be stored exactly as it's indexed
+	profile.Nickname = nickname
 
 	// If old profile filled
 	if oldProfile != nil {
diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 872699a..fbf9654 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -67,7 +67,30 @@ func (msg MsgCreateAccount) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Referrer); err != nil {
 		return errors.Wrap(err, "invalid referrer")
 	}
+	if msg.Profile != nil {
+		if err := validateNickname(msg.Profile.Nickname); err != nil {
+			return sdkerrors.Wrap(err, "invalid nickname")
+		}
+	}
+
+	return nil
+}
 
+// validateNickname checks a nickname (may be empty) as it will be stored, i.e. without leading and trailing whitespaces
+func validateNickname(nickname string) error {
+	if strings.ContainsAny(nickname, ForbiddenNicknameCharacters) {
+		return ErrNicknameInvalidChars
+	}
+	nickname = strings.TrimSpace(nickname)
+	if len(nickname) == 0 {
+		return nil
+	}
+	if len(nickname) < 3 {
+		return ErrNicknameTooShort
+	}
+	if strings.HasPrefix(nickname, "ARTR-") {
+		return ErrNicknamePrefix
+	}
 	return nil
 }
 
@@ -135,17 +158,8 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 			if !ok {
 				return errors.Errorf("wrong update #%d value type: %T (string expected)", i, upd.Value)
 			}
-			s := val.String_
-			if len(s) != 0 {
-				if strings.ContainsAny(s, ForbiddenNicknameCharacters) {
-					return sdkerrors.Wrapf(ErrNicknameInvalidChars, "wrong update #%d value", i)
-				}
-				if len(s) < 3 {
-					return sdkerrors.Wrapf(ErrNicknameTooShort, "wrong update #%d value", i)
-				}
-				if strings.HasPrefix(s, "ARTR-") {
-					return sdkerrors.Wrapf(ErrNicknamePrefix, "wrong update #%d value", i)
-				}
+			if err := validateNickname(val.String_); err != nil {
+				return sdkerrors.Wrapf(err, "wrong update #%d value", i)
 			}
 		case
 			MsgUpdateProfile_Update_FIELD_AUTO_PAY,
-- 
2.43.0


From 06aaf96602d4adc0385cca899b87977512dc3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 19/29] fix: profile: give no unpaid activity and limits to new
 accounts

---
 x/profile/keeper/msg_server.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..9de72ca 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,13 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		profile := *msg.Profile
+		// Activity and resources are to be paid for, and consumption is to be reported by the signers
+		profile.ActiveUntil, profile.ExtraImUntil = nil, nil
+		profile.StorageLimit, profile.StorageCurrent = 0, 0
+		profile.VpnLimit, profile.VpnCurrent = 0, 0
+		profile.ImLimitExtra = 0
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), profile); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
-- 
2.43.0


From 224d892833e6837242d5cb20a883b412f3d2a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 20/29] fix: profile: grant the storage an inactive account has
 paid for

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..4652887 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -67,9 +67,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			if storageFeeFrac.IsNegative() {
 				storageFeeFrac = util.FractionZero()
 			}
-			profile.StorageLimit = storageB
 		}
 	}
+	profile.StorageLimit = storageB
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From 4977459f23692c7a6fcff7b6493f538f8cac612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 21/29] fix: profile: do not overflow while calculating prices

---
 x/profile/keeper/subscription.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 4652887..15d27e0 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -52,7 +52,8 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 	}
 
 	storageFeeFrac := p.TokenRate.
-		MulInt64((int64(storageB) - int64(p.BaseStorageGb)*util.GBSize) * int64(p.StorageGbPrice)).
+		MulInt64(int64(storageB) - int64(p.BaseStorageGb)*util.GBSize).
+		MulInt64(int64(p.StorageGbPrice)).
 		DivInt64(util.GBSize).Reduce()
 	if profile.IsActive(ctx) {
 		if storageB != profile.StorageLimit {
@@ -143,9 +144,9 @@ func (k Keeper) BuyStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint32)
 	}
 
 	time := k.monthPart(ctx, *profile.ActiveUntil)
-	storageFee := p.TokenRate.MulInt64(int64(extraGb) * int64(p.StorageGbPrice)).Mul(time).Int64()
+	storageFee := sdk.NewIntFromBigInt(p.TokenRate.MulInt64(int64(extraGb)).MulInt64(int64(p.StorageGbPrice)).Mul(time).BigInt())
 
-	if storageFee <= 0 {
+	if !storageFee.IsPositive() {
 		k.Logger(ctx).Error(
 			"free storage",
 			"extraGb", extraGb,
@@ -157,7 +158,7 @@ func (k Keeper) BuyStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint32)
 		)
 		panic("free storage")
 	}
-	total := util.Uartrs(storageFee)
+	total := sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, storageFee))
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -197,8 +198,8 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 	}
 
 	p := k.GetParams(ctx)
-	storageFee := p.TokenRate.MulInt64(int64(extraGb) * int64(p.StorageGbPrice)).Mul(tq).Int64()
-	if storageFee <= 0 {
+	storageFee := sdk.NewIntFromBigInt(p.TokenRate.MulInt64(int64(extraGb)).MulInt64(int64(p.StorageGbPrice)).Mul(tq).BigInt())
+	if !storageFee.IsPositive() {
 		k.Logger(ctx).Error(
 			"free IM extra",
 			"extraGb", extraGb,
@@ -210,7 +211,7 @@ func (k Keeper) BuyImStorage(ctx sdk.Context, addr sdk.AccAddress, extraGb uint3
 		)
 		panic("free IM extra")
 	}
-	total := util.Uartrs(storageFee)
+	total := sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, storageFee))
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -256,12 +257,12 @@ func (k Keeper) BuyVpn(ctx sdk.Context, addr sdk.AccAddress, vpnGb uint32) error
 	}
 
 	p := k.GetParams(ctx)
-	vpnFee := p.TokenRate.MulInt64(int64(vpnGb) * int64(p.VpnGbPrice)).Int64()
+	vpnFee := sdk.NewIntFromBigInt(p.TokenRate.MulInt64(int64(vpnGb)).MulInt64(int64(p.VpnGbPrice)).BigInt())
 
-	if vpnFee < 0 {
+	if vpnFee.IsNegative() {
 		panic("free VPN")
 	}
-	coins := util.Uartrs(vpnFee)
+	coins := sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, vpnFee))
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, coins); err != nil {
 		k.Logger(ctx).Error(err.Error())
@@ -476,8 +477,8 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 	}
 
 	p := k.GetParams(ctx)
-	storageFee := p.TokenRate.MulInt64(int64(profile.ImLimitExtra) * int64(p.StorageGbPrice)).Int64()
-	if storageFee <= 0 {
+	storageFee := sdk.NewIntFromBigInt(p.TokenRate.MulInt64(int64(profile.ImLimitExtra)).MulInt64(int64(p.StorageGbPrice)).BigInt())
+	if !storageFee.IsPositive() {
 		k.Logger(ctx).Error(
 			"free IM extra",
 			"extraGb", profile.ImLimitExtra,
@@ -486,7 +487,7 @@ func (k Keeper) prolongImExtra(ctx sdk.Context, addr sdk.AccAddress, profile *ty
 		)
 		panic("free IM extra")
 	}
-	total := util.Uartrs(storageFee)
+	total := sdk.NewCoins(sdk.NewCoin(util.ConfigMainDenom, storageFee))
 
 	if txFee, err := k.bankKeeper.PayTxFee(ctx, addr, total); err != nil {
 		k.Logger(ctx).Error(err.Error())
-- 
2.43.0


From 6579ba03ac709744e418526f18b6cd5d83a5ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 22/29] fix: profile: do not turn an exceeded VPN limit into an
 infinite one

---
 x/profile/keeper/subscription.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 15d27e0..34a6ab5 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -368,7 +368,11 @@ func (k Keeper) scheduleRenewIm(ctx sdk.Context, addr sdk.AccAddress, time time.
 func (k Keeper) resetLimits(ctx sdk.Context, addr sdk.AccAddress, p types.Params, profile *types.Profile) {
 	baseVpn := uint64(p.BaseVpnGb) * util.GBSize
 	if profile.VpnCurrent > baseVpn {
-		profile.VpnLimit -= profile.VpnCurrent - baseVpn
+		if extra := profile.VpnCurrent - baseVpn; extra < profile.VpnLimit {
+			profile.VpnLimit -= extra
+		} else {
+			profile.VpnLimit = 0
+		}
 	}
 	profile.VpnCurrent = 0
 
-- 
2.43.0


From 65dec1577feacd84de9c2fa21195e62e8649b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:16 +0000
Subject: [PATCH 23/29] fix: profile: take nothing if an automatic payment for
 IM storage fails

---
 x/profile/keeper/subscription.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 34a6ab5..265dcd3 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -447,8 +447,13 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
-		if err != nil {
+		// A failed payment must not leave its first part (i.e. the tx fee) paid
+		cacheCtx, write := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
+		if err == nil {
+			write()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
+		} else {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
 		}
 	} else {
-- 
2.43.0


From 764054b0eff32899f4aca5f95cb945be2f83f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:46 +0000
Subject: [PATCH 24/29] fix: profile: charge no rename fee for trimming a
 nickname

---
 x/profile/keeper/keeper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index 84640bb..d06f762 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -131,10 +131,10 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	// If old profile filled
 	if oldProfile != nil {
 		// Check if nickname changed
-		if oldProfile.Nickname != profile.Nickname {
+		if oldNickname := strings.TrimSpace(oldProfile.Nickname); oldNickname != nickname {
 			// Profile.Nickname changed - we need to remove old nickname from store
-			if oldProfile.Nickname != "" {
-				k.removeProfileAccountByNickname(ctx, oldProfile.Nickname)
+			if oldNickname != "" {
+				k.removeProfileAccountByNickname(ctx, oldNickname)
 			}
 
 			// If new nickname not empty - add it to KVStore
-- 
2.43.0


From 3dd86cdd72c89dcb347cbfb4a19b91b985e12e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:46 +0000
Subject: [PATCH 25/29] fix: profile: import profiles of accounts that do not
 exist yet

---
 x/profile/keeper/genesis.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/x/profile/keeper/genesis.go b/x/profile/keeper/genesis.go
index 7b6bb4a..03860ea 100644
--- a/x/profile/keeper/genesis.go
+++ b/x/profile/keeper/genesis.go
@@ -36,6 +36,10 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 	for _, record := range data {
 		addr := record.GetAddress()
 		acc := k.accountKeeper.GetAccount(ctx, addr)
+		if acc == nil {
+			acc = k.accountKeeper.NewAccountWithAddress(ctx, addr)
+			k.accountKeeper.SetAccount(ctx, acc)
+		}
 		record.Profile.CardNumber = k.CardNumberByAccountNumber(ctx, acc.GetAccountNumber())
 
 		nickname := strings.TrimSpace(record.Profile.Nickname)
@@ -51,11 +55,6 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 		}
 		store.Set(addr, bz)
 
-		if acc == nil {
-			acc = k.accountKeeper.NewAccountWithAddress(ctx, addr)
-			k.accountKeeper.SetAccount(ctx, acc)
-		}
-
 		if active := record.Profile.IsActive(ctx); active {
 			k.referralKeeper.MustSetActiveWithoutStatusUpdate(ctx, addr.String(), active)
 		}
-- 
2.43.0


From 81c170e6c3a7ded465c06a161d97c465bdc5f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:46 +0000
Subject: [PATCH 26/29] fix: profile: list VPN signers as VPN signers

---
 x/profile/types/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/types/params.go b/x/profile/types/params.go
index edf73f5..7804613 100644
--- a/x/profile/types/params.go
+++ b/x/profile/types/params.go
@@ -92,7 +92,7 @@ func (p *Params) SetStorageSigners(signers []sdk.AccAddress) {
 
 func (p Params) GetVpnSigners() []sdk.AccAddress {
 	res := make([]sdk.AccAddress, len(p.VpnSigners))
-	for i, bech32 := range p.StorageSigners {
+	for i, bech32 := range p.VpnSigners {
 		addr, err := sdk.AccAddressFromBech32(bech32)
 		if err != nil {
 			panic(err)
-- 
2.43.0


From bd004b8875145db21a688eeb50cc1dfba0adf33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:22 +0000
Subject: [PATCH 27/29] fix: a genesis state without a running proposal is
 valid when its lists of votes are empty

---
 x/voting/types/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/voting/types/genesis.go b/x/voting/types/genesis.go
index c6bd2e7..7d0997e 100644
--- a/x/voting/types/genesis.go
+++ b/x/voting/types/genesis.go
@@ -46,10 +46,10 @@ func ValidateGenesis(data GenesisState) error {
 		if data.StartBlock != 0 {
 			return errors.New("invalid start_block: must be zero unless current_proposal is set")
 		}
-		if data.Agreed != nil {
+		if len(data.Agreed) != 0 {
 			return errors.New("invalid agreed: must be empty unless current_proposal is set")
 		}
-		if data.Disagreed != nil {
+		if len(data.Disagreed) != 0 {
 			return errors.New("invalid disagreed: must be empty unless current_proposal is set")
 		}
 	} else {
-- 
2.43.0


From d9eb952f079216095f69fe343e9ef86d75db7dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:18 +0000
Subject: [PATCH 28/29] fix: import polls whose respondents do not meet the
 requirements anymore

---
 x/voting/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/voting/keeper/keeper.go b/x/voting/keeper/keeper.go
index 9ae019b..4a457f4 100644
--- a/x/voting/keeper/keeper.go
+++ b/x/voting/keeper/keeper.go
@@ -620,6 +620,10 @@ func (k Keeper) Answer(ctx sdk.Context, acc string, yes bool) error {
 		}
 	}
 
+	return k.saveAnswer(ctx, acc, yes)
+}
+
+func (k Keeper) saveAnswer(ctx sdk.Context, acc string, yes bool) error {
 	store := prefix.NewStore(ctx.KVStore(k.storeKey), types.KeyPollPrefix)
 	ansStore := prefix.NewStore(store, types.KeyPollAnswers)
 	key := []byte(acc)
@@ -770,7 +774,8 @@ func (k Keeper) LoadPolls(ctx sdk.Context, state types.GenesisState) {
 	if state.CurrentPoll != nil {
 		store.Set(types.KeyPollCurrent, k.cdc.MustMarshalBinaryBare(state.CurrentPoll))
 		for _, ans := range state.PollAnswers {
-			if err := k.Answer(ctx, ans.Acc, ans.Ans); err != nil {
+			// The answers have been checked when they were given
+			if err := k.saveAnswer(ctx, ans.Acc, ans.Ans); err != nil {
 				panic(err)
 			}
 		}
-- 
2.43.0


From ebce92ca0aefb74377ec8f5836b516f12f6b9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:18 +0000
Subject: [PATCH 29/29] fix: import the keys of jailed validators, so nobody
 else can take them

---
 x/noding/keeper/keeper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index c39233b..ee4f525 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -623,9 +623,14 @@ func (k Keeper) SetNonActiveValidators(ctx sdk.Context, validators []types.Valid
 		if err != nil {
 			return errors.Wrap(err, "cannot obtain stake")
 		}
-		if err := k.set(ctx, acc, v.ToInfo(stake.Int64())); err != nil {
+		info := v.ToInfo(stake.Int64())
+		if err := k.set(ctx, acc, info); err != nil {
 			return err
 		}
+		if info.Status {
+			// A jailed validator keeps its key, it is going to be back
+			k.addNodeOperatorToIndex(ctx, consAddressFromCryptoBubKey(cryptoPubKeyFromBech32(info.PubKey)), acc)
+		}
 		for _, h := range v.ProposedBlocks {
 			k.addProposerToIndex(ctx, int64(h), acc)
 		}
-- 
2.43.0

