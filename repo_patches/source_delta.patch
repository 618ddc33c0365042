From ad725673f4d7bec4119ff2c84ed48fab46cfcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 01/25] fix: noding: save the record of a validator which stops
 qualifying on a stake change

---
 x/noding/keeper/keeper.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 0b05ec4..e75fd08 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -320,7 +320,6 @@ func (k Keeper) OnStakeChanged(ctx sdk.Context, acc sdk.AccAddress) error {
 				Reason:  reason,
 			},
 		)
-		return nil
 	}
 
 	if changed {
-- 
2.43.0


From 0918d2a53c13a112d3566dc848e8efaa1332d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 02/25] fix: bank: report a failed module account burn

---
 x/bank/internal/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bank/internal/keeper/keeper.go b/x/bank/internal/keeper/keeper.go
index ce34772..77af0f3 100644
--- a/x/bank/internal/keeper/keeper.go
+++ b/x/bank/internal/keeper/keeper.go
@@ -214,7 +214,7 @@ func (k BaseKeeper) BurnCoins(ctx sdk.Context, moduleName string, amt sdk.Coins)
 	}
 
 	if err := k.BurnAccCoins(ctx, acc.GetAddress(), amt); err != nil {
-		return nil
+		return err
 	}
 
 	logger := k.Logger(ctx)
-- 
2.43.0


From b5ba64858585095ac4e076853eaf3c243fc3c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 03/25] fix: noding: compare public keys by value looking for
 duplicate validator updates

---
 x/noding/keeper/keeper.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index e75fd08..66cb103 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -504,8 +504,11 @@ func (k Keeper) GatherValidatorUpdates(ctx sdk.Context) ([]abci.ValidatorUpdate,
 	for _, x := range result {
 		found := false
 		for j, y := range unique {
-			if x.PubKey == y.PubKey {
-				unique[j] = x
+			if x.PubKey.Equal(y.PubKey) {
+				// Dropping of a key somebody has already been switched on with must not switch them off
+				if x.Power != 0 {
+					unique[j] = x
+				}
 				found = true
 				break
 			}
-- 
2.43.0


From 6e407601a03f3117b7c424639f5b14ffcaa1ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 04/25] fix: referral: update ancestors' deepest level on
 compression

---
 x/referral/keeper/keeper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index c61e21a..002d843 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -362,7 +362,7 @@ func (k Keeper) Compress(ctx sdk.Context, acc string) error {
 			value.Coins[k] = value.Coins[k].Add(coins[1])
 			value.Delegated[k] = value.Delegated[k].Add(delegated[1])
 			value.ActiveRefCounts[k] += refsCount[1]
-			for i := 1; i < 10-k; i++ {
+			for i := 1; i <= 10-k; i++ {
 				value.Coins[k+i] = value.Coins[k+i].Add(coins[i+1]).Sub(coins[i])
 				value.Delegated[k+i] = value.Delegated[k+i].Add(delegated[i+1]).Sub(delegated[i])
 				value.ActiveRefCounts[k+i] += refsCount[i+1] - refsCount[i]
-- 
2.43.0


From 17d80e202ae79ea26d0a6edd3b2ed042f1f4e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 05/25] fix: util: emit event attributes in a deterministic
 order

---
 util/msg_server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/util/msg_server.go b/util/msg_server.go
index 4b9bccc..3fafe03 100644
--- a/util/msg_server.go
+++ b/util/msg_server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/gogo/protobuf/proto"
@@ -62,8 +63,16 @@ func patchEvent(tev proto.Message) sdk.Event {
 		panic(errors.Wrap(err, "cannot unmarshal JSON"))
 	}
 
+	keys := make([]string, 0, len(attrMap))
+	for k := range attrMap {
+		keys = append(keys, k)
+	}
+	// Events get to the results hash, so their attributes must follow in the same order on every node.
+	sort.Strings(keys)
+
 	attrs := make([]abci.EventAttribute, 0, len(attrMap))
-	for k, v := range attrMap {
+	for _, k := range keys {
+		v := attrMap[k]
 		if bytes.Equal(v, []byte("null")) {
 			continue
 		}
-- 
2.43.0


From 3d5c5c0b290ac65a3d8370628c12c0aca753104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:52 +0000
Subject: [PATCH 06/25] fix: schedule: don't lose tasks added while the
 schedule is being performed

---
 x/schedule/keeper/keeper.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/x/schedule/keeper/keeper.go b/x/schedule/keeper/keeper.go
index 44d514e..f700bea 100644
--- a/x/schedule/keeper/keeper.go
+++ b/x/schedule/keeper/keeper.go
@@ -11,7 +11,6 @@ import (
 	"github.com/tendermint/tendermint/libs/log"
 
 	"github.com/cosmos/cosmos-sdk/codec"
-	"github.com/cosmos/cosmos-sdk/store/cachekv"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	paramtypes "github.com/cosmos/cosmos-sdk/x/params/types"
 
@@ -123,13 +122,26 @@ func (k Keeper) delete(ctx sdk.Context, time time.Time, predicate func(types.Tas
 // PerformSchedule performs scheduled tasks for the block height. Tasks will be removed from the store when they are
 // complete.
 func (k Keeper) PerformSchedule(ctx sdk.Context) {
-	store := cachekv.NewStore(ctx.KVStore(k.storeKey))
+	store := ctx.KVStore(k.storeKey)
 	terminator := Key(ctx.BlockTime().Add(time.Nanosecond))
-	it := store.Iterator(nil, terminator)
 
+	// Tasks being performed may schedule and delete other ones, so nothing but keys is read beforehand.
+	var keys [][]byte
+	it := store.Iterator(nil, terminator)
 	for ; it.Valid(); it.Next() {
+		keys = append(keys, it.Key())
+	}
+	it.Close()
+
+	for _, key := range keys {
+		bz := store.Get(key)
+		if bz == nil {
+			continue
+		}
 		var sch types.Schedule
-		k.cdc.MustUnmarshalBinaryBare(it.Value(), &sch)
+		k.cdc.MustUnmarshalBinaryBare(bz, &sch)
+		// Removed in advance to keep a task added for the very same moment until the next block.
+		store.Delete(key)
 		for _, task := range sch.Tasks {
 			hook := k.eventHooks[task.HandlerName]
 			if hook != nil {
@@ -138,11 +150,7 @@ func (k Keeper) PerformSchedule(ctx sdk.Context) {
 				k.Logger(ctx).Error("callback is not registered", "hook", task.HandlerName)
 			}
 		}
-		store.Delete(it.Key())
 	}
-
-	it.Close()
-	store.Write()
 }
 
 func performSchedule(ctx sdk.Context, task types.Task, hook func(ctx sdk.Context, data []byte, time time.Time), logger log.Logger) {
-- 
2.43.0


From e454d08aa665c4712f39879a496d5e55a191c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 07/25] fix: profile: keep a nickname and its alias consistent
 when there are spaces around

---
 x/profile/keeper/keeper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/keeper.go b/x/profile/keeper/keeper.go
index e6101f0..91a6252 100644
--- a/x/profile/keeper/keeper.go
+++ b/x/profile/keeper/keeper.go
@@ -125,6 +125,7 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 	if err := k.ValidateProfileNickname(ctx, addr, nickname); err != nil {
 		return errors.Wrap(err, "invalid nickname")
 	}
+	profile.Nickname = nickname
 
 	// If old profile filled
 	if oldProfile != nil {
@@ -132,7 +133,7 @@ func (k Keeper) SetProfile(ctx sdk.Context, addr sdk.AccAddress, profile types.P
 		if oldProfile.Nickname != profile.Nickname {
 			// Profile.Nickname changed - we need to remove old nickname from store
 			if oldProfile.Nickname != "" {
-				k.removeProfileAccountByNickname(ctx, oldProfile.Nickname)
+				k.removeProfileAccountByNickname(ctx, strings.TrimSpace(oldProfile.Nickname))
 			}
 
 			// If new nickname not empty - add it to KVStore
-- 
2.43.0


From d5b1bd42ab546a363bfbaa58287a56a3c233042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 08/25] fix: profile: return VPN signers where VPN signers are
 requested

---
 x/profile/types/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/types/params.go b/x/profile/types/params.go
index edf73f5..7804613 100644
--- a/x/profile/types/params.go
+++ b/x/profile/types/params.go
@@ -92,7 +92,7 @@ func (p *Params) SetStorageSigners(signers []sdk.AccAddress) {
 
 func (p Params) GetVpnSigners() []sdk.AccAddress {
 	res := make([]sdk.AccAddress, len(p.VpnSigners))
-	for i, bech32 := range p.StorageSigners {
+	for i, bech32 := range p.VpnSigners {
 		addr, err := sdk.AccAddressFromBech32(bech32)
 		if err != nil {
 			panic(err)
-- 
2.43.0


From 974112c3f1b9e9b961dc07f2d4e3656aeee84077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 09/25] fix: profile: create a missing account before using its
 number on genesis import

---
 x/profile/keeper/genesis.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/x/profile/keeper/genesis.go b/x/profile/keeper/genesis.go
index 7b6bb4a..03860ea 100644
--- a/x/profile/keeper/genesis.go
+++ b/x/profile/keeper/genesis.go
@@ -36,6 +36,10 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 	for _, record := range data {
 		addr := record.GetAddress()
 		acc := k.accountKeeper.GetAccount(ctx, addr)
+		if acc == nil {
+			acc = k.accountKeeper.NewAccountWithAddress(ctx, addr)
+			k.accountKeeper.SetAccount(ctx, acc)
+		}
 		record.Profile.CardNumber = k.CardNumberByAccountNumber(ctx, acc.GetAccountNumber())
 
 		nickname := strings.TrimSpace(record.Profile.Nickname)
@@ -51,11 +55,6 @@ func (k Keeper) ImportProfileRecords(ctx sdk.Context, data []types.GenesisProfil
 		}
 		store.Set(addr, bz)
 
-		if acc == nil {
-			acc = k.accountKeeper.NewAccountWithAddress(ctx, addr)
-			k.accountKeeper.SetAccount(ctx, acc)
-		}
-
 		if active := record.Profile.IsActive(ctx); active {
 			k.referralKeeper.MustSetActiveWithoutStatusUpdate(ctx, addr.String(), active)
 		}
-- 
2.43.0


From 8ed1f5d4919d3e12964bbcd14079ecf062ddf2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 10/25] fix: profile: don't give VPN traffic away for free

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 3bfc006..6c997bd 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -258,7 +258,7 @@ func (k Keeper) BuyVpn(ctx sdk.Context, addr sdk.AccAddress, vpnGb uint32) error
 	p := k.GetParams(ctx)
 	vpnFee := p.TokenRate.MulInt64(int64(vpnGb) * int64(p.VpnGbPrice)).Int64()
 
-	if vpnFee < 0 {
+	if vpnFee <= 0 {
 		panic("free VPN")
 	}
 	coins := util.Uartrs(vpnFee)
-- 
2.43.0


From 11173240f3016d1aa8d183e2a0ec3d45d30fd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 11/25] fix: voting: don't add a governor twice

---
 x/voting/keeper/government.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/voting/keeper/government.go b/x/voting/keeper/government.go
index 3b7629d..dd9f76b 100644
--- a/x/voting/keeper/government.go
+++ b/x/voting/keeper/government.go
@@ -38,6 +38,9 @@ func (k Keeper) RemoveGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 
 func (k Keeper) AddGovernor(ctx sdk.Context, gov sdk.AccAddress) {
 	govs := k.GetGovernment(ctx)
+	if govs.Contains(gov) {
+		return
+	}
 	govs.Append(gov)
 	k.SetGovernment(ctx, govs)
 }
-- 
2.43.0


From 9feb970aef2ab253e2f2d358e96f186df199ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 12/25] fix: referral: don't treat protobuf encoded sign bytes
 as JSON

---
 x/referral/types/msgs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/referral/types/msgs.go b/x/referral/types/msgs.go
index a1bcf47..7dfc3f3 100644
--- a/x/referral/types/msgs.go
+++ b/x/referral/types/msgs.go
@@ -67,7 +67,7 @@ func (msg MsgRequestTransition) GetSignBytes() []byte {
 	if err != nil {
 		panic(err)
 	}
-	return sdk.MustSortJSON(bz)
+	return bz
 }
 
 func (msg MsgRequestTransition) GetSigners() []sdk.AccAddress {
@@ -120,7 +120,7 @@ func (msg MsgResolveTransition) GetSignBytes() []byte {
 	if err != nil {
 		panic(err)
 	}
-	return sdk.MustSortJSON(bz)
+	return bz
 }
 
 func (msg MsgResolveTransition) GetSigners() []sdk.AccAddress {
-- 
2.43.0


From 96594f397c75a98cacf27f40a00e59416a7e6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 13/25] fix: earning: let nobody but authorized signers set
 earners

---
 x/earning/keeper/msg_server.go | 7 ++++++-
 x/earning/types/errors.go      | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/earning/keeper/msg_server.go b/x/earning/keeper/msg_server.go
index 0057484..a8b3aa7 100644
--- a/x/earning/keeper/msg_server.go
+++ b/x/earning/keeper/msg_server.go
@@ -8,6 +8,7 @@ import (
 
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
+	"github.com/arterynetwork/artr/util"
 	"github.com/arterynetwork/artr/x/earning/types"
 )
 
@@ -16,7 +17,7 @@ type MsgServer Keeper
 var _ types.MsgServer = MsgServer{}
 
 func (s MsgServer) Set(ctx context.Context, msg *types.MsgSet) (resp *types.MsgSetResponse, err error) {
-	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}})
+	_, err = s.SetMultiple(ctx, &types.MsgSetMultiple{Earners: []types.Earner{msg.Earner}, Signer: msg.Signer})
 	if err != nil {
 		return nil, err
 	}
@@ -28,6 +29,10 @@ func (s MsgServer) SetMultiple(ctx context.Context, msg *types.MsgSetMultiple) (
 	k := Keeper(s)
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 
+	if !util.ContainsString(k.GetParams(sdkCtx).Signers, msg.Signer) {
+		return nil, types.ErrUnauthorized
+	}
+
 	for _, earner := range msg.Earners {
 		var acc sdk.AccAddress
 		acc, err = sdk.AccAddressFromBech32(earner.Account)
diff --git a/x/earning/types/errors.go b/x/earning/types/errors.go
index 94d2cbe..5895b3e 100644
--- a/x/earning/types/errors.go
+++ b/x/earning/types/errors.go
@@ -10,4 +10,5 @@ var (
 	ErrLocked        = sdkerrors.Register(ModuleName, 3, "earner list is locked")
 	ErrNotLocked     = sdkerrors.Register(ModuleName, 4, "earner list is not locked")
 	ErrNoMoney       = sdkerrors.Register(ModuleName, 5, "there are no coins in VPN&storage module accounts")
+	ErrUnauthorized  = sdkerrors.Register(ModuleName, 6, "signer is not authorized to set earners")
 )
-- 
2.43.0


From 40e876287805785f49553d2cf0604172d3d6da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 14/25] fix: profile: don't let a newly created account have a
 subscription and limits nobody paid for

---
 x/profile/keeper/msg_server.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/x/profile/keeper/msg_server.go b/x/profile/keeper/msg_server.go
index 0964e9f..e677ed2 100644
--- a/x/profile/keeper/msg_server.go
+++ b/x/profile/keeper/msg_server.go
@@ -41,7 +41,7 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	}
 
 	if msg.WithProfile() {
-		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), *msg.Profile); err != nil {
+		if err := Keeper(s).CreateAccountWithProfile(sdkCtx, msg.GetAddress(), msg.GetReferrer(), initialProfile(*msg.Profile)); err != nil {
 			return nil, errors.Wrap(err, "cannot create an account with profile")
 		}
 	} else {
@@ -53,6 +53,20 @@ func (s MsgServer) CreateAccount(ctx context.Context, msg *types.MsgCreateAccoun
 	return &types.MsgCreateAccountResponse{}, nil
 }
 
+// initialProfile leaves only those profile fields that a user is free to set on their own. The rest of them (a paid
+// subscription, purchased limits and measured consumption) cannot be just declared.
+func initialProfile(profile types.Profile) types.Profile {
+	return types.Profile{
+		AutoPay:        profile.AutoPay,
+		AutoPayImExtra: profile.AutoPayImExtra,
+		Noding:         profile.Noding,
+		Storage:        profile.Storage,
+		Validator:      profile.Validator,
+		Vpn:            profile.Vpn,
+		Nickname:       profile.Nickname,
+	}
+}
+
 func (s MsgServer) UpdateProfile(ctx context.Context, msg *types.MsgUpdateProfile) (*types.MsgUpdateProfileResponse, error) {
 	sdkCtx := sdk.UnwrapSDKContext(ctx)
 	k := Keeper(s)
-- 
2.43.0


From 300b19cf074a913a13d7d8164dc16417e0efef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 15/25] fix: earning: don't list a signer twice, so that one
 removal is enough

---
 x/earning/keeper/params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/earning/keeper/params.go b/x/earning/keeper/params.go
index 34629c6..becdaea 100644
--- a/x/earning/keeper/params.go
+++ b/x/earning/keeper/params.go
@@ -20,6 +20,11 @@ func (k Keeper) SetParams(ctx sdk.Context, params types.Params) {
 
 func (k Keeper) AddSigner(ctx sdk.Context, address sdk.AccAddress) {
 	p := k.GetParams(ctx)
+	for _, signer := range p.Signers {
+		if signer == address.String() {
+			return
+		}
+	}
 	p.Signers = append(p.Signers, address.String())
 	k.SetParams(ctx, p)
 }
-- 
2.43.0


From 2e04ca6fac8a3237c9f3234185f1b9a4d4c53060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 16/25] fix: referral transition announces the changed stakes
 of both ancestries

AffirmTransition moves delegations between the networks of the old and the
new ancestors without the stake-changed callback, so a validator who lost its
stake that way stayed active with a stale score.
---
 x/referral/keeper/keeper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 002d843..50e24eb 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -816,6 +816,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			util.RemoveStringFast(&value.ActiveReferrals, subject)
 		}
 
+		bu.addCallback(StakeChangedCallback, oldParent)
 		for i := 1; i <= 10; i++ {
 			value.Coins[i] = value.Coins[i].Sub(r.Coins[i-1])
 			value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-1])
@@ -834,6 +835,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 			value.ActiveReferrals = append(value.ActiveReferrals, subject)
 		}
 
+		bu.addCallback(StakeChangedCallback, newParent)
 		for i := 1; i <= 10; i++ {
 			value.Coins[i] = value.Coins[i].Add(r.Coins[i-1])
 			value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-1])
@@ -852,6 +854,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 		if oldAncestor != "" {
 			if err = bu.update(oldAncestor, true, func(value *types.Info) error {
+				bu.addCallback(StakeChangedCallback, oldAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Sub(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Sub(r.Delegated[i-level])
@@ -865,6 +868,7 @@ func (k Keeper) AffirmTransition(ctx sdk.Context, subject string) error {
 		}
 		if newAncestor != "" {
 			if err = bu.update(newAncestor, true, func(value *types.Info) error {
+				bu.addCallback(StakeChangedCallback, newAncestor)
 				for i := level; i <= 10; i++ {
 					value.Coins[i] = value.Coins[i].Add(r.Coins[i-level])
 					value.Delegated[i] = value.Delegated[i].Add(r.Delegated[i-level])
-- 
2.43.0


From 3196e971fd3bdf77f9370ab0e49b4e4b00592c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:12 +0000
Subject: [PATCH 17/25] fix: noding: the key of a jailed validator cannot be
 taken by another account

A jailed validator that is unjailed goes on with its key; if another account had been switched on with the key
meanwhile, two active validators shared it and switching either off dropped the other from the consensus.
---
 x/noding/keeper/keeper.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/noding/keeper/keeper.go b/x/noding/keeper/keeper.go
index 66cb103..1fb8430 100644
--- a/x/noding/keeper/keeper.go
+++ b/x/noding/keeper/keeper.go
@@ -193,14 +193,21 @@ func (k Keeper) SwitchOn(ctx sdk.Context, accAddr sdk.AccAddress, key crypto.Pub
 	}
 
 	consAddr := sdk.GetConsAddress(key)
-	_, found, active, err := k.GetValidatorByConsAddr(ctx, consAddr)
+	operator, found, _, err := k.GetValidatorByConsAddr(ctx, consAddr)
 	if err != nil {
 		k.Logger(ctx).Error("couldn't Get validator by consensus address", "consAddr", consAddr)
 		return err
 	}
-	if found && active {
-		k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
-		return types.ErrPubkeyBusy
+	if found {
+		// A jailed validator keeps its key, it's going to use it again as soon as it's unjailed
+		data, err := k.Get(ctx, operator)
+		if err != nil {
+			return sdkerrors.Wrapf(err, "cannot get data for %s", operator.String())
+		}
+		if data.Status && data.PubKey == bech32FromCryptoPubKey(key) {
+			k.Logger(ctx).Error("validator with same public key already exists", "pubKey", key)
+			return types.ErrPubkeyBusy
+		}
 	}
 
 	isQualified, delegation, reason, err := k.IsQualified(ctx, accAddr)
-- 
2.43.0


From 809fc0f1881302eda21e2b5b17b3a78e028af5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:30 +0000
Subject: [PATCH 18/25] fix: profile: storage paid for together with a tariff
 is granted when the subscription was not active

---
 x/profile/keeper/subscription.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index 6c997bd..fc33457 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -67,9 +67,9 @@ func (k Keeper) PayTariff(ctx sdk.Context, addr sdk.AccAddress, storageGb uint32
 			if storageFeeFrac.IsNegative() {
 				storageFeeFrac = util.FractionZero()
 			}
-			profile.StorageLimit = storageB
 		}
 	}
+	profile.StorageLimit = storageB
 
 	tariffTotal = tariffTotal.Add(sdk.NewIntFromBigInt(storageFeeFrac.BigInt()))
 	// NOTE: `tariffTotal` cannot be just assigned to `total` here, 'cause Int is a struct over a pointer.
-- 
2.43.0


From 1abd13900811eb84204ca3e4ff8707e19d933cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 19/25] fix: profile: a failed automatic prolongation of extra
 IM storage charges nothing

---
 x/profile/keeper/subscription.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/profile/keeper/subscription.go b/x/profile/keeper/subscription.go
index fc33457..d1acfc2 100644
--- a/x/profile/keeper/subscription.go
+++ b/x/profile/keeper/subscription.go
@@ -442,8 +442,13 @@ func (k Keeper) monthlyImRoutine(ctx sdk.Context, addr sdk.AccAddress) error {
 	var err error
 
 	if profile.AutoPayImExtra {
-		err = k.prolongImExtra(ctx, addr, profile)
-		if err != nil {
+		// There is no transaction to be reverted here, so a payment that fails halfway has to be reverted explicitly.
+		cacheCtx, write := ctx.CacheContext()
+		err = k.prolongImExtra(cacheCtx, addr, profile)
+		if err == nil {
+			write()
+			ctx.EventManager().EmitEvents(cacheCtx.EventManager().Events())
+		} else {
 			k.Logger(ctx).Error("IM store autopay failed", "addr", addr.String(), "err", err)
 		}
 	} else {
-- 
2.43.0


From a1277054f003e6cdf8977f0932d7d19f81954298 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 20/25] fix: profile: MsgUpdateProfile validates the IM
 auto-pay flag like the other flags

---
 x/profile/types/msgs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index 872699a..db5aced 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -149,6 +149,7 @@ func (msg MsgUpdateProfile) ValidateBasic() error {
 			}
 		case
 			MsgUpdateProfile_Update_FIELD_AUTO_PAY,
+			MsgUpdateProfile_Update_FIELD_IM_AUTO_PAY,
 			MsgUpdateProfile_Update_FIELD_NODING,
 			MsgUpdateProfile_Update_FIELD_STORAGE,
 			MsgUpdateProfile_Update_FIELD_VALIDATOR,
-- 
2.43.0


From f8c68e711517b8995b27d5dee90c7375959bf401 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 21/25] fix: profile: MsgBuyVpn reports its own type

---
 x/profile/types/msgs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/profile/types/msgs.go b/x/profile/types/msgs.go
index db5aced..e46f889 100644
--- a/x/profile/types/msgs.go
+++ b/x/profile/types/msgs.go
@@ -385,7 +385,7 @@ func (msg MsgGiveStorageUp) GetAccAddress() sdk.AccAddress {
 
 func (msg MsgBuyVpn) Route() string { return RouterKey }
 
-func (msg MsgBuyVpn) Type() string { return BuyStorageConst }
+func (msg MsgBuyVpn) Type() string { return BuyVpnConst }
 
 func (msg MsgBuyVpn) ValidateBasic() error {
 	if _, err := sdk.AccAddressFromBech32(msg.Address); err != nil {
-- 
2.43.0


From c9afb88ffff3d5f288b15ba963cac8ad650a3d43 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 22/25] fix: delegating: MsgExpressRevoke has a type of its own

---
 x/delegating/types/msgs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/delegating/types/msgs.go b/x/delegating/types/msgs.go
index 5d5a9df..e2432e7 100644
--- a/x/delegating/types/msgs.go
+++ b/x/delegating/types/msgs.go
@@ -121,7 +121,7 @@ func NewMsgExpressRevoke(acc sdk.AccAddress, ucoins sdk.Int) MsgExpressRevoke {
 	}
 }
 
-const ExpressRevokeConst = "revoke"
+const ExpressRevokeConst = "express_revoke"
 
 // nolint
 func (msg MsgExpressRevoke) Route() string { return RouterKey }
-- 
2.43.0


From e46d3d2a05e8127460e245e50a732b719520f9d3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:19:16 +0000
Subject: [PATCH 23/25] fix: bank: genesis validation checks the parameters

---
 x/bank/types/genesis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/bank/types/genesis.go b/x/bank/types/genesis.go
index ea6ebc4..83c9dd3 100644
--- a/x/bank/types/genesis.go
+++ b/x/bank/types/genesis.go
@@ -23,7 +23,7 @@ func DefaultGenesisState() *GenesisState {
 
 // ValidateGenesis performs basic validation of bank genesis data returning an
 // error for any failed validation criteria.
-func ValidateGenesis(data GenesisState) error { return nil }
+func ValidateGenesis(data GenesisState) error { return data.Params.Validate() }
 
 // SanitizeGenesisAccounts sorts addresses and coin sets.
 func SanitizeGenesisBalances(balances []Balance) []Balance {
-- 
2.43.0


From e32c261caec5ac8aaee1f0d6be390da9468719e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:23 +0000
Subject: [PATCH 24/25] fix: voting: refuse proposals whose values the
 parameters cannot take

---
 x/voting/types/types.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/x/voting/types/types.go b/x/voting/types/types.go
index 2b6db6a..208b065 100644
--- a/x/voting/types/types.go
+++ b/x/voting/types/types.go
@@ -57,6 +57,9 @@ func (p Proposal) Validate() error {
 			if err := args.Price.Validate(); err != nil {
 				return errors.Wrap(err, "invalid args")
 			}
+			if args.Price.Price == 0 && p.Type != PROPOSAL_TYPE_TRANSITION_PRICE {
+				return errors.New("positive number expected")
+			}
 		}
 	case PROPOSAL_TYPE_DELEGATION_AWARD:
 		if p.Args == nil {
@@ -137,9 +140,18 @@ func (p Proposal) Validate() error {
 			if err := args.MinAmount.Validate(); err != nil {
 				return errors.Wrap(err, "invalid args")
 			}
+			switch p.Type {
+			case PROPOSAL_TYPE_MIN_DELEGATE:
+				if args.MinAmount.MinAmount <= 0 {
+					return errors.New("positive number expected")
+				}
+			case PROPOSAL_TYPE_DUST_DELEGATION, PROPOSAL_TYPE_MAX_TRANSACTION_FEE:
+				if args.MinAmount.MinAmount < 0 {
+					return errors.New("non-negative number expected")
+				}
+			}
 		}
 	case
-		PROPOSAL_TYPE_MAX_VALIDATORS,
 		PROPOSAL_TYPE_LUCKY_VALIDATORS:
 
 		if p.Args == nil {
@@ -153,6 +165,7 @@ func (p Proposal) Validate() error {
 			}
 		}
 	case
+		PROPOSAL_TYPE_MAX_VALIDATORS,
 		PROPOSAL_TYPE_JAIL_AFTER:
 
 		if p.Args == nil {
-- 
2.43.0


From cc9a3efc083cdc011611e619534a15488bdc23cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:46 +0000
Subject: [PATCH 25/25] fix: referral: a depth of zero means no limit for
 delegated coins in a network too

---
 x/referral/keeper/keeper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/referral/keeper/keeper.go b/x/referral/keeper/keeper.go
index 50e24eb..e4bc83f 100644
--- a/x/referral/keeper/keeper.go
+++ b/x/referral/keeper/keeper.go
@@ -412,8 +412,11 @@ func (k Keeper) GetCoinsInNetwork(ctx sdk.Context, acc string, maxDepth int) (sd
 
 // GetDelegatedInNetwork returns total amount of delegated coins in a person's network
 // (at levels that are open according the person's current status, but no deeper than `maxDepth` levels down).
-// Own coins inclusive.
+// Own coins inclusive. maxDepth = 0 means no limits.
 func (k Keeper) GetDelegatedInNetwork(ctx sdk.Context, acc string, maxDepth int) (sdk.Int, error) {
+	if maxDepth <= 0 {
+		maxDepth = 10
+	}
 	data, err := k.Get(ctx, acc)
 	if err != nil {
 		return sdk.Int{}, err
-- 
2.43.0

