From 4fce7eca90ab4f3303ab4404b94173d5acd02a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 01/37] fix: don't write padding into the caller's buffer when
 encrypting

---
 shlib/shcrypto/encryption.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index 22f50be..f42c280 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -171,7 +171,8 @@ func DecryptBlocks(encryptedBlocks []Block, sigma Block) []Block {
 func PadMessage(m []byte) []Block {
 	paddingLength := BlockSize - len(m)%BlockSize
 	padding := bytes.Repeat([]byte{byte(paddingLength)}, paddingLength)
-	m = append(m, padding...)
+	// limit the capacity, so that append doesn't write into memory owned by the caller
+	m = append(m[:len(m):len(m)], padding...)
 
 	blocks := []Block{}
 	numBlocks := len(m) / BlockSize
-- 
2.43.0


From 8e02035afe41b6f4646abedb9597b33db4de85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 02/37] fix: reject ciphertexts with missing or inconsistent
 padding

---
 shlib/shcrypto/encryption.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encryption.go b/shlib/shcrypto/encryption.go
index f42c280..68d115b 100644
--- a/shlib/shcrypto/encryption.go
+++ b/shlib/shcrypto/encryption.go
@@ -187,7 +187,7 @@ func PadMessage(m []byte) []Block {
 // UnpadMessage returns the message provided in padded form as a sequence of blocks.
 func UnpadMessage(blocks []Block) ([]byte, error) {
 	if len(blocks) == 0 {
-		return []byte{}, nil
+		return nil, errors.New("no padding, message has no blocks")
 	}
 
 	lastBlock := blocks[len(blocks)-1]
@@ -198,6 +198,11 @@ func UnpadMessage(blocks []Block) ([]byte, error) {
 	if paddingLength > BlockSize {
 		return nil, fmt.Errorf("invalid padding length %d (greater than block size %d)", paddingLength, BlockSize)
 	}
+	for _, b := range lastBlock[BlockSize-paddingLength:] {
+		if int(b) != paddingLength {
+			return nil, errors.New("inconsistent padding")
+		}
+	}
 
 	m := make([]byte, len(blocks)*BlockSize-paddingLength)
 	// copy unpadded blocks
-- 
2.43.0


From 7a092bcea3714c43a077078c7eb233297a448f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 03/37] fix: report undecodable points instead of ignoring the
 error

The uncompressing functions return nil for malformed input; the receiver is
never nil. Gammas.GobDecode in addition panicked for truncated input and
appended to what was there before.
---
 shlib/shcrypto/encoding.go | 18 ++++++------------
 shlib/shcrypto/feldman.go  | 14 +-------------
 2 files changed, 7 insertions(+), 25 deletions(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 42bebf3..1972758 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -51,8 +51,7 @@ func (m *EncryptedMessage) Unmarshal(d []byte) error {
 	if m.C1 == nil {
 		m.C1 = new(blst.P2Affine)
 	}
-	m.C1.Uncompress(d[1 : 1+blst.BLST_P2_COMPRESS_BYTES])
-	if m.C1 == nil {
+	if m.C1.Uncompress(d[1:1+blst.BLST_P2_COMPRESS_BYTES]) == nil {
 		return errors.New("failed to deserialize C1")
 	}
 	if !m.C1.InG2() {
@@ -93,8 +92,7 @@ func (eonPublicKeyShare *EonPublicKeyShare) Marshal() []byte {
 // Unmarshal deserializes an eon public key share.
 func (eonPublicKeyShare *EonPublicKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key share")
 	}
 	if !p.InG2() {
@@ -111,8 +109,7 @@ func (eonPublicKey *EonPublicKey) Marshal() []byte {
 // Unmarshal deserializes an eon public key from the given byte slice.
 func (eonPublicKey *EonPublicKey) Unmarshal(m []byte) error {
 	p := (*blst.P2Affine)(eonPublicKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize eon public key")
 	}
 	if !p.InG2() {
@@ -143,8 +140,7 @@ func (epochID *EpochID) Marshal() []byte {
 // Unmarshal deserializes an epoch id.
 func (epochID *EpochID) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochID)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch id")
 	}
 	if !p.InG1() {
@@ -162,8 +158,7 @@ func (epochSecretKeyShare *EpochSecretKeyShare) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key share.
 func (epochSecretKeyShare *EpochSecretKeyShare) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKeyShare)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key share")
 	}
 	if !p.InG1() {
@@ -180,8 +175,7 @@ func (epochSecretKey *EpochSecretKey) Marshal() []byte {
 // Unmarshal deserializes an epoch secret key.
 func (epochSecretKey *EpochSecretKey) Unmarshal(m []byte) error {
 	p := (*blst.P1Affine)(epochSecretKey)
-	p.Uncompress(m)
-	if p == nil {
+	if p.Uncompress(m) == nil {
 		return errors.New("failed to deserialize epoch secret key")
 	}
 	if !p.InG1() {
diff --git a/shlib/shcrypto/feldman.go b/shlib/shcrypto/feldman.go
index 088ace1..9ee24e8 100644
--- a/shlib/shcrypto/feldman.go
+++ b/shlib/shcrypto/feldman.go
@@ -3,7 +3,6 @@ package shcrypto
 import (
 	"bytes"
 	"crypto/rand"
-	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -171,18 +170,7 @@ func (g *Gammas) GobEncode() ([]byte, error) {
 
 // GobDecode decodes a Gammas value. See https://golang.org/pkg/encoding/gob/#GobDecoder
 func (g *Gammas) GobDecode(data []byte) error {
-	for i := 0; i < len(data); i += blst.BLST_P2_COMPRESS_BYTES {
-		p := new(blst.P2Affine)
-		p.Uncompress(data[i : i+blst.BLST_P2_COMPRESS_BYTES])
-		if p == nil {
-			return errors.New("failed to deserialize gammas")
-		}
-		if !p.InG2() {
-			return errors.New("gamma is not on curve")
-		}
-		*g = append(*g, p)
-	}
-	return nil
+	return g.Unmarshal(data)
 }
 
 // KeyperX computes the x value assigned to the keyper identified by its index.
-- 
2.43.0


From aa0cf9e60e68da8b159a366f550e6662313c90ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 04/37] fix: reject blocks of wrong length when decoding from
 text

---
 shlib/shcrypto/encoding.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shlib/shcrypto/encoding.go b/shlib/shcrypto/encoding.go
index 1972758..9753bc7 100644
--- a/shlib/shcrypto/encoding.go
+++ b/shlib/shcrypto/encoding.go
@@ -206,8 +206,14 @@ func (block Block) MarshalText() ([]byte, error) { //nolint:unparam
 // UnmarshalText deserializes the block from hex.
 func (block *Block) UnmarshalText(b []byte) error {
 	decoded, err := hexutil.Decode(string(b))
+	if err != nil {
+		return err
+	}
+	if len(decoded) != BlockSize {
+		return fmt.Errorf("invalid length %d of block", len(decoded))
+	}
 	copy(block[:], decoded)
-	return err
+	return nil
 }
 
 // MarshalText serializes the encrypted message to hex.
-- 
2.43.0


From 8fb5aae3b9c38198856d2360caf09a9248e81e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 05/37] fix: keep track of missing DKG messages when storing a
 PureDKG with gob

Gob turns nil pointers in slices into zero values. An instance loaded from disk
refused the outstanding poly commitments and evals as duplicates.
---
 shlib/puredkg/puredkg.go | 78 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 78 insertions(+)

diff --git a/shlib/puredkg/puredkg.go b/shlib/puredkg/puredkg.go
index e080078..98da87e 100644
--- a/shlib/puredkg/puredkg.go
+++ b/shlib/puredkg/puredkg.go
@@ -3,7 +3,9 @@
 package puredkg
 
 import (
+	"bytes"
 	"crypto/rand"
+	"encoding/gob"
 	"fmt"
 	"math/big"
 
@@ -99,6 +101,82 @@ func NewPureDKG(eon uint64, numKeypers uint64, threshold uint64, keyper KeyperIn
 	}
 }
 
+// storedPureDKG is the gob representation of PureDKG. The commitments and poly evals received so
+// far are stored in maps, because gob turns nil pointers in slices into pointers to zero values, i.e.
+// we couldn't tell which messages we have received.
+type storedPureDKG struct {
+	Phase       Phase
+	Eon         uint64
+	NumKeypers  uint64
+	Threshold   uint64
+	Keyper      KeyperIndex
+	Polynomial  *shcrypto.Polynomial
+	Commitments map[KeyperIndex]*shcrypto.Gammas
+	Evals       map[KeyperIndex]*big.Int
+	Accusations map[accusationKey]struct{}
+	Apologies   map[accusationKey]*big.Int
+}
+
+// GobEncode encodes a PureDKG value. See https://golang.org/pkg/encoding/gob/#GobEncoder
+func (pure PureDKG) GobEncode() ([]byte, error) {
+	stored := storedPureDKG{
+		Phase:       pure.Phase,
+		Eon:         pure.Eon,
+		NumKeypers:  pure.NumKeypers,
+		Threshold:   pure.Threshold,
+		Keyper:      pure.Keyper,
+		Polynomial:  pure.Polynomial,
+		Commitments: make(map[KeyperIndex]*shcrypto.Gammas),
+		Evals:       make(map[KeyperIndex]*big.Int),
+		Accusations: pure.Accusations,
+		Apologies:   pure.Apologies,
+	}
+	for i, c := range pure.Commitments {
+		if c != nil {
+			stored.Commitments[KeyperIndex(i)] = c
+		}
+	}
+	for i, e := range pure.Evals {
+		if e != nil {
+			stored.Evals[KeyperIndex(i)] = e
+		}
+	}
+	buff := bytes.Buffer{}
+	err := gob.NewEncoder(&buff).Encode(stored)
+	return buff.Bytes(), err
+}
+
+// GobDecode decodes a PureDKG value. See https://golang.org/pkg/encoding/gob/#GobDecoder
+func (pure *PureDKG) GobDecode(data []byte) error {
+	stored := storedPureDKG{}
+	err := gob.NewDecoder(bytes.NewReader(data)).Decode(&stored)
+	if err != nil {
+		return err
+	}
+	*pure = NewPureDKG(stored.Eon, stored.NumKeypers, stored.Threshold, stored.Keyper)
+	pure.Phase = stored.Phase
+	pure.Polynomial = stored.Polynomial
+	for i, c := range stored.Commitments {
+		if i >= pure.NumKeypers {
+			return errors.Errorf("poly commitment of invalid keyper %d", i)
+		}
+		pure.Commitments[i] = c
+	}
+	for i, e := range stored.Evals {
+		if i >= pure.NumKeypers {
+			return errors.Errorf("poly eval of invalid keyper %d", i)
+		}
+		pure.Evals[i] = e
+	}
+	for k := range stored.Accusations {
+		pure.Accusations[k] = struct{}{}
+	}
+	for k, e := range stored.Apologies {
+		pure.Apologies[k] = e
+	}
+	return nil
+}
+
 func (pure *PureDKG) setPhase(p Phase) {
 	if p != pure.Phase+1 {
 		panic("wrong phase")
-- 
2.43.0


From b1fe04f9c7ab6e6d70e1c3dd3524ac4ed249464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 06/37] fix: drop started votes when a new batch config is
 adopted

---
 shuttermint/app/app.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shuttermint/app/app.go b/shuttermint/app/app.go
index 9b5450d..ab915bd 100644
--- a/shuttermint/app/app.go
+++ b/shuttermint/app/app.go
@@ -150,6 +150,8 @@ func (app *ShutterApp) addConfig(cfg BatchConfig) error {
 	}
 	log.Printf("adding config %d", cfg.ConfigIndex)
 	app.Configs = append(app.Configs, &cfg)
+	// The votes cast so far are for starting the previous config
+	app.StartedVotes = make(map[common.Address]struct{})
 	app.updateCheckTxMembers()
 	return nil
 }
-- 
2.43.0


From e26ef6fc628568258a78ef824b5006a437e1c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 07/37] fix: compare the threshold of a batch config without
 overflow

---
 shuttermint/keyper/shutterevents/batchconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/batchconfig.go b/shuttermint/keyper/shutterevents/batchconfig.go
index a7e3ea3..b276723 100644
--- a/shuttermint/keyper/shutterevents/batchconfig.go
+++ b/shuttermint/keyper/shutterevents/batchconfig.go
@@ -32,7 +32,7 @@ func (bc *BatchConfig) EnsureValid() error {
 	if bc.Threshold == 0 {
 		return errors.Errorf("threshold must not be zero")
 	}
-	if int(bc.Threshold) > len(bc.Keypers) {
+	if bc.Threshold > uint64(len(bc.Keypers)) {
 		return errors.Errorf("threshold too high")
 	}
 	// XXX maybe we should check for duplicate addresses
-- 
2.43.0


From 9f47eedde5795b50761902a5ef24de8c22e5cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 08/37] fix: parse poly commitment events without gammas

---
 shuttermint/keyper/shutterevents/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/shutterevents/marshal.go b/shuttermint/keyper/shutterevents/marshal.go
index d75cf47..0134210 100644
--- a/shuttermint/keyper/shutterevents/marshal.go
+++ b/shuttermint/keyper/shutterevents/marshal.go
@@ -134,8 +134,11 @@ func encodeGammas(gammas *shcrypto.Gammas) []byte {
 }
 
 func decodeGammas(eventValue []byte) (shcrypto.Gammas, error) {
-	parts := strings.Split(string(eventValue), ",")
 	var res shcrypto.Gammas
+	if len(eventValue) == 0 {
+		return res, nil
+	}
+	parts := strings.Split(string(eventValue), ",")
 	for _, p := range parts {
 		marshaledG2, err := hex.DecodeString(p)
 		if err != nil {
-- 
2.43.0


From 0608a48b070f8de459b0b28a42eaef9ed50594b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:48 +0000
Subject: [PATCH 09/37] fix: refuse signed messages too short to hold a
 signature

---
 shuttermint/shmsg/encode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shuttermint/shmsg/encode.go b/shuttermint/shmsg/encode.go
index a56c325..880499a 100644
--- a/shuttermint/shmsg/encode.go
+++ b/shuttermint/shmsg/encode.go
@@ -68,6 +68,9 @@ func GetSigner(signedMessage []byte) (common.Address, error) {
 
 // GetMessage returns the unmarshalled Message of a signed message.
 func GetMessage(signedMessage []byte) (*MessageWithNonce, error) {
+	if len(signedMessage) < crypto.SignatureLength {
+		return nil, errors.New("message too short")
+	}
 	msg := MessageWithNonce{}
 	if err := proto.Unmarshal(signedMessage[crypto.SignatureLength:], &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 2c0f61228b88b407b005b377b743b79024467368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 10/37] fix: don't store receipts of skipped half steps under
 half step zero

---
 shuttermint/keyper/observe/mainchain.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 49033ce..f5d48c1 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -223,7 +223,11 @@ func (mainchain *MainChain) syncExecutionState(cc *contract.Caller, opts *bind.C
 		if err != nil {
 			return errors.Wrap(err, "failed to get cipher execution receipt from contract")
 		}
-		mainchain.CipherExecutionReceipts[receipt.HalfStep] = &receipt
+		if !receipt.Executed {
+			// the half step was skipped, so the contract has no receipt for it
+			continue
+		}
+		mainchain.CipherExecutionReceipts[halfStep] = &receipt
 	}
 	mainchain.NumExecutionHalfSteps = numExecutionHalfSteps
 	return nil
-- 
2.43.0


From 3bfdd1a03e26dd3c6954be2c2b3d4711780eee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 11/37] fix: never move the observed main chain backwards

---
 shuttermint/keyper/observe/mainchain.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index f5d48c1..8042d62 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -350,6 +350,13 @@ func (mainchain *MainChain) SyncToHead(
 
 	mainchain = mainchain.Clone()
 
+	if mainchain.CurrentBlock > 0 && syncUntilBlockNumber <= mainchain.CurrentBlock {
+		// There's nothing new for us. The node may even be behind what we have already seen. We
+		// must not go back, otherwise we would process the events of some blocks twice.
+		mainchain.NodeSyncProgress = syncProgress
+		return mainchain, nil
+	}
+
 	opts := &bind.CallOpts{
 		BlockNumber: new(big.Int).SetUint64(syncUntilBlockNumber),
 		Context:     ctx,
-- 
2.43.0


From db4521b31edcb94283d591d125f7f88f08638130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 12/37] fix: drop unscheduled configs from the observed main
 chain

---
 shuttermint/keyper/observe/mainchain.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/shuttermint/keyper/observe/mainchain.go b/shuttermint/keyper/observe/mainchain.go
index 8042d62..c9130f8 100644
--- a/shuttermint/keyper/observe/mainchain.go
+++ b/shuttermint/keyper/observe/mainchain.go
@@ -148,6 +148,26 @@ func (mainchain *MainChain) ConfigForBatchIndex(batchIndex uint64) (contract.Bat
 	return mainchain.BatchConfigs[index], true
 }
 
+// dropUnscheduledConfigs removes the configs that have been unscheduled in the blocks covered by the
+// given filter. Their indexes may have been assigned to other configs since then.
+func (mainchain *MainChain) dropUnscheduledConfigs(cc *contract.Caller, filter *bind.FilterOpts) error {
+	it, err := cc.ConfigContract.FilterConfigUnscheduled(filter)
+	if err != nil {
+		return errors.Wrap(err, "failed to filter for config unscheduled events")
+	}
+	numConfigs := uint64(len(mainchain.BatchConfigs))
+	for it.Next() {
+		if it.Event.NumConfigs < numConfigs {
+			numConfigs = it.Event.NumConfigs
+		}
+	}
+	if it.Error() != nil {
+		return errors.Wrap(it.Error(), "failed to iterate config unscheduled events")
+	}
+	mainchain.BatchConfigs = mainchain.BatchConfigs[:numConfigs]
+	return nil
+}
+
 func (mainchain *MainChain) syncConfigs(cc *contract.Caller, opts *bind.CallOpts) error {
 	numConfigs, err := cc.ConfigContract.NumConfigs(opts)
 	if err != nil {
@@ -366,6 +386,11 @@ func (mainchain *MainChain) SyncToHead(
 		End:   &syncUntilBlockNumber,
 	}
 
+	err = mainchain.dropUnscheduledConfigs(cc, filter)
+	if err != nil {
+		return nil, err
+	}
+
 	err = mainchain.syncConfigs(cc, opts)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d88a74a4227a2fdb923a372668037360fb13735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 13/37] fix: keep unprocessed epoch secret key shares when
 filtering

---
 shuttermint/keyper/observe/shutter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ba179a1..ad3ede6 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -113,6 +113,7 @@ func (eon *Eon) ApplyFilter(syncHeight int64) *Eon {
 	clone.PolyEvals = append(clone.PolyEvals, eon.GetPolyEvals(syncHeight)...)
 	clone.Accusations = append(clone.Accusations, eon.GetAccusations(syncHeight)...)
 	clone.Apologies = append(clone.Apologies, eon.GetApologies(syncHeight)...)
+	clone.EpochSecretKeyShares = append(clone.EpochSecretKeyShares, eon.GetEpochSecretKeyShares(syncHeight)...)
 	return &clone
 }
 
-- 
2.43.0


From 027a11888bbeb8db5a5b04659fe71b4274a8d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:03 +0000
Subject: [PATCH 14/37] fix: don't panic when the shuttermint node is behind
 the observed height

---
 shuttermint/keyper/observe/shutter.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index ad3ede6..28464dd 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -495,6 +495,17 @@ func (shutter *Shutter) SyncToHead(ctx context.Context, shmcl client.Client) (*S
 	if height == shutter.CurrentBlock {
 		return shutter, nil
 	}
+	if height < shutter.CurrentBlock {
+		// The node is behind what we have already seen, e.g. because it has been replaced by
+		// another one. There's nothing new for us and we must not go back.
+		nodeStatus, err := shmcl.Status(ctx)
+		if err != nil {
+			return nil, pkgErrors.Wrap(err, "failed to get shuttermint status")
+		}
+		clone := shutter.ShallowClone()
+		clone.NodeStatus = nodeStatus
+		return clone, nil
+	}
 	return shutter.SyncToHeight(ctx, shmcl, height)
 }
 
-- 
2.43.0


From 5d2d0d4606b04af83bdbbfb415d8b17c9f7c41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 15/37] fix: don't panic in the keyper if a config has no
 keypers

The config contract admits active configs without keypers. Every keyper panicked
with a division by zero once the first of their batches was over.
---
 shuttermint/keyper/decide.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3b2e1df..9a013c2 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1164,6 +1164,10 @@ func (dcdr *Decider) syncPendingAppeals() {
 // executionDelay returns the number of main chain blocks to wait before sending an execution tx.
 // This makes sure not all keypers try to send the same tx at the same time.
 func (dcdr *Decider) executionDelay(config contract.BatchConfig, halfStep uint64) uint64 {
+	if len(config.Keypers) == 0 {
+		return 0 // there's no one to take turns with
+	}
+
 	// do not delay the execution for more than 50% of the execution timeout
 	var maxStaggering, staggering, divisor uint64
 	divisor = uint64(len(config.Keypers) - 1)
-- 
2.43.0


From 2caef36b063c2823b2eceb71c64cc3bc98ac6501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 16/37] fix: execute pending batches while the current config
 is inactive

The executor contract goes on executing the batches of an earlier config after an
inactive config has started. No keyper did so, so that those batches were stuck until
another config became active.
---
 shuttermint/keyper/decide.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 9a013c2..782c4f1 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -882,10 +882,9 @@ func (dcdr *Decider) handleDecryptionSignatures() {
 }
 
 func (dcdr *Decider) maybeExecuteBatch() {
+	// Note that the batches of an earlier config may still have to be executed if the current
+	// config is inactive.
 	config := dcdr.MainChain.CurrentConfig()
-	if !config.IsActive() {
-		return // nothing to execute if config is inactive
-	}
 	batchIndex := config.BatchIndex(dcdr.MainChain.CurrentBlock)
 
 	nextHalfStep := dcdr.MainChain.NumExecutionHalfSteps
-- 
2.43.0


From 71ed743861cdf03a1ebc43bffa0e17f428aca8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 17/37] fix: decrypt a batch only when it is over on the
 observed main chain

If the keyper's main chain node lagged behind the other keypers' nodes, the epoch
secret key was known before all of the batch's transactions. The keyper then signed
and stored the result of decrypting an incomplete (or empty) batch for good, and it
panicked if the batch's config wasn't known yet.
---
 shuttermint/keyper/decide.go | 41 +++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 782c4f1..dea77db 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -659,12 +659,8 @@ func (dcdr *Decider) syncEKGWithEon(syncHeight int64, ekg *EKG, eon *observe.Eon
 			log.Printf("Error while handling epoch secret key share: %+v", err)
 			continue
 		}
-		if key, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
+		if _, ok := ekg.EpochKG.SecretKeys[share.Epoch]; ok {
 			log.Printf("Epoch secret key generated for epoch %d", share.Epoch)
-			dcdr.decryptTransactions(key, share.Epoch)
-			if !dcdr.executionTimeoutReachedOrInactive(share.Epoch) {
-				dcdr.sendDecryptionSignature(share.Epoch)
-			}
 		}
 	}
 }
@@ -724,9 +720,7 @@ func (dcdr *Decider) decryptTransactions(key *shcrypto.EpochSecretKey, epoch uin
 	batchIndex := epoch
 	batch, ok := dcdr.MainChain.Batches[batchIndex]
 	if !ok {
-		// We may run into this case if our main chain node is lagging behind or if the
-		// batch is empty. XXX The former case is not being handled here.
-		log.Printf("Batch missing for batch index=%d", batchIndex)
+		log.Printf("No transactions in batch index=%d", batchIndex)
 		batch = &observe.Batch{BatchIndex: batchIndex}
 	}
 	txs := batch.DecryptTransactions(key)
@@ -783,6 +777,36 @@ func (dcdr *Decider) syncEKGs() {
 	}
 }
 
+// decryptBatches decrypts the batches that are over and that we know the epoch secret key of. Other
+// keypers may be ahead of our main chain node, so we may learn a key before we have seen all of the
+// batch's transactions.
+func (dcdr *Decider) decryptBatches() {
+	for _, ekg := range dcdr.State.EKGs {
+		var batchIndexes []uint64
+		for batchIndex, key := range ekg.EpochKG.SecretKeys {
+			if _, ok := dcdr.State.Batches[batchIndex]; !ok && key != nil && dcdr.isBatchOver(batchIndex) {
+				batchIndexes = append(batchIndexes, batchIndex)
+			}
+		}
+		sort.Slice(batchIndexes, func(i, j int) bool {
+			return batchIndexes[i] < batchIndexes[j]
+		})
+		for _, batchIndex := range batchIndexes {
+			dcdr.decryptTransactions(ekg.EpochKG.SecretKeys[batchIndex], batchIndex)
+			if !dcdr.executionTimeoutReachedOrInactive(batchIndex) {
+				dcdr.sendDecryptionSignature(batchIndex)
+			}
+		}
+	}
+}
+
+// isBatchOver checks if no more transactions can be added to the given batch. It returns false for
+// batches of an inactive config.
+func (dcdr *Decider) isBatchOver(batchIndex uint64) bool {
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	return ok && dcdr.MainChain.CurrentBlock >= config.BatchEndBlock(batchIndex)
+}
+
 func (dcdr *Decider) publishEpochSecretKeyShares() {
 	blockNum := dcdr.MainChain.CurrentBlock
 
@@ -819,6 +843,7 @@ func (dcdr *Decider) executionTimeoutReachedOrInactive(batchIndex uint64) bool {
 
 func (dcdr *Decider) handleEpochKG() {
 	dcdr.syncEKGs()
+	dcdr.decryptBatches()
 	dcdr.publishEpochSecretKeyShares()
 }
 
-- 
2.43.0


From b511d77cb184964a1472ed3e7db5dc6c36b66c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:07 +0000
Subject: [PATCH 18/37] fix: reject decryption signatures that the slasher
 contract doesn't accept

Signatures with a high s value counted as verified, so that a keyper could keep others
from appealing: the keyper slasher contract reverts if it is given such a signature.
---
 shuttermint/keyper/decide.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index dea77db..5536375 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -44,8 +44,17 @@ type Batch struct {
 	IsEmpty                  bool
 }
 
-// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash.
+// VerifySignature checks if the sender signed the batches' DecryptionSignatureHash. Like the keyper
+// slasher contract, it accepts only one of the two possible values of s.
 func (batch *Batch) VerifySignature(sender common.Address, signature []byte) bool {
+	if len(signature) != crypto.SignatureLength {
+		return false
+	}
+	sigR := new(big.Int).SetBytes(signature[:32])
+	sigS := new(big.Int).SetBytes(signature[32:64])
+	if !crypto.ValidateSignatureValues(signature[crypto.RecoveryIDOffset], sigR, sigS, true) {
+		return false
+	}
 	pubkey, err := crypto.SigToPub(batch.DecryptionSignatureHash, signature)
 	if err != nil {
 		return false
-- 
2.43.0


From 141597b7a2e957dd320cc0da7bde703a18d6847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 19/37] fix: accuse executors of batches that are decrypted
 after their execution

The keyper checked each executed half step only once, even if it hadn't been able to
decrypt the batch yet. An executor that was faster than the other keypers could execute
arbitrary transactions without being accused.
---
 shuttermint/keyper/decide.go | 76 +++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 32 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 5536375..7abc5db 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -805,6 +805,10 @@ func (dcdr *Decider) decryptBatches() {
 			if !dcdr.executionTimeoutReachedOrInactive(batchIndex) {
 				dcdr.sendDecryptionSignature(batchIndex)
 			}
+			if halfStep := 2 * batchIndex; halfStep < dcdr.State.HalfStepsChecked {
+				// the batch has been executed before we were able to decrypt it
+				dcdr.maybeAccuseHalfStep(halfStep)
+			}
 		}
 	}
 }
@@ -1137,47 +1141,55 @@ func (dcdr *Decider) maybeAppeal() {
 
 func (dcdr *Decider) maybeAccuse() {
 	for halfStep := dcdr.State.HalfStepsChecked; halfStep < dcdr.MainChain.NumExecutionHalfSteps; halfStep++ {
-		if halfStep%2 != 0 {
-			continue // only accuse for cipher execution half steps, not plain ones
-		}
+		dcdr.maybeAccuseHalfStep(halfStep)
+	}
 
-		batchIndex := halfStep / 2
+	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+}
 
-		receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
-		if receipt == nil {
-			// half step was skipped
-			continue
-		}
+// maybeAccuseHalfStep accuses the executor of the given half step, if the executed transactions are
+// not the ones we've decrypted.
+func (dcdr *Decider) maybeAccuseHalfStep(halfStep uint64) {
+	if halfStep%2 != 0 {
+		return // only accuse for cipher execution half steps, not plain ones
+	}
 
-		stBatch, ok := dcdr.State.Batches[batchIndex]
-		if !ok {
-			continue
-		}
+	batchIndex := halfStep / 2
 
-		if !bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
-			// what was decrypted does not match what we've decrypted
+	receipt := dcdr.MainChain.CipherExecutionReceipts[halfStep]
+	if receipt == nil {
+		// half step was skipped
+		return
+	}
 
-			if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
-				log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
-				continue
-			}
+	stBatch, ok := dcdr.State.Batches[batchIndex]
+	if !ok {
+		// we'll check this half step again when we've decrypted the batch
+		return
+	}
 
-			config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
-			if !ok {
-				log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
-				continue
-			}
+	if bytes.Equal(stBatch.DecryptedBatchHash, receipt.BatchHash[:]) {
+		return
+	}
 
-			keyperIndex, _ := config.KeyperIndex(dcdr.Config.Address())
-			action := fx.Accuse{
-				HalfStep:    halfStep,
-				KeyperIndex: keyperIndex,
-			}
-			dcdr.addAction(&action)
-		}
+	// what was executed does not match what we've decrypted
+	if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
+		log.Printf("Not accusing executor for batch %d because accusation already present", batchIndex)
+		return
 	}
 
-	dcdr.State.HalfStepsChecked = dcdr.MainChain.NumExecutionHalfSteps
+	config, ok := dcdr.MainChain.ConfigForBatchIndex(batchIndex)
+	if !ok {
+		log.Printf("Error: cannot accuse executor of batch %d because config is missing", batchIndex)
+		return
+	}
+
+	keyperIndex, _ := config.KeyperIndex(dcdr.Config.Address())
+	action := fx.Accuse{
+		HalfStep:    halfStep,
+		KeyperIndex: keyperIndex,
+	}
+	dcdr.addAction(&action)
 }
 
 // syncPendingAppeals removes any pending appeals that have been successfully handled by the main
-- 
2.43.0


From c69b72e60d25c68d6b6acf2584920d211756fabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 20/37] fix: handle decryption signatures that arrive after
 their batch was filtered

The keyper remembered the number of signatures it had handled, but the list of signatures
starts anew if more arrive after the batch has been executed. The late ones were ignored,
although they may be needed for an appeal.
---
 shuttermint/keyper/decide.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 7abc5db..52724ed 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -35,13 +35,13 @@ type decryptfn func(encrypted []byte) ([]byte, error)
 
 // Batch is used to store local state about a single Batch.
 type Batch struct {
-	BatchIndex               uint64
-	DecryptionSignatureHash  []byte
-	DecryptedTransactions    [][]byte
-	DecryptedBatchHash       []byte
-	DecryptionSignatureIndex int
-	VerifiedSignatures       map[common.Address][]byte
-	IsEmpty                  bool
+	BatchIndex                uint64
+	DecryptionSignatureHash   []byte
+	DecryptedTransactions     [][]byte
+	DecryptedBatchHash        []byte
+	DecryptionSignatureHeight int64 // signatures in blocks below have been handled
+	VerifiedSignatures        map[common.Address][]byte
+	IsEmpty                   bool
 }
 
 // VerifySignature checks if the sender signed the batches' DecryptionSignatureHash. Like the keyper
@@ -885,8 +885,10 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 	}
 
 	signatureCount := 0
-	for i := batch.DecryptionSignatureIndex; i < len(shBatch.DecryptionSignatures); i++ {
-		ev := shBatch.DecryptionSignatures[i]
+	for _, ev := range shBatch.DecryptionSignatures {
+		if ev.Height < batch.DecryptionSignatureHeight {
+			continue
+		}
 		if !config.IsKeyper(ev.Sender) {
 			log.Printf("Ignoring signature for batch %d from non-keyper %s", batch.BatchIndex, ev.Sender.Hex())
 			continue
@@ -910,7 +912,7 @@ func (dcdr *Decider) syncBatch(batch *Batch) {
 		log.Printf("Verified %d signatures for batch %d, total %d signatures",
 			signatureCount, batch.BatchIndex, len(batch.VerifiedSignatures))
 	}
-	batch.DecryptionSignatureIndex = len(shBatch.DecryptionSignatures)
+	batch.DecryptionSignatureHeight = dcdr.Shutter.CurrentBlock + 1
 }
 
 func (dcdr *Decider) handleDecryptionSignatures() {
-- 
2.43.0


From 2b4793c57b47a06cf848ef584bbb50a0a2e766b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 21/37] fix: accuse executors only as a keyper of the batch

---
 shuttermint/keyper/decide.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 52724ed..b574028 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -1186,7 +1186,12 @@ func (dcdr *Decider) maybeAccuseHalfStep(halfStep uint64) {
 		return
 	}
 
-	keyperIndex, _ := config.KeyperIndex(dcdr.Config.Address())
+	keyperIndex, ok := config.KeyperIndex(dcdr.Config.Address())
+	if !ok {
+		// the keyper slasher accepts accusations only from the keypers of the batch
+		log.Printf("Not accusing executor for batch %d because we are not a keyper of it", batchIndex)
+		return
+	}
 	action := fx.Accuse{
 		HalfStep:    halfStep,
 		KeyperIndex: keyperIndex,
-- 
2.43.0


From 831505cffdd826d949ffa5f61e743883b8436355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 22/37] fix: don't panic if preparing a main chain transaction
 fails

---
 shuttermint/keyper/fx/runenv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index 57a18e0..c92016d 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -66,11 +66,11 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 	var auth *bind.TransactOpts
 
 	auth, err = runenv.ContractCaller.Auth()
-	auth.Context = ctx
-
 	if err != nil {
 		return err
 	}
+	auth.Context = ctx
+
 	tx, err = act.SendTX(runenv.ContractCaller, auth)
 	if err != nil {
 		return err
-- 
2.43.0


From a6c245617903762760936778105ab86bec45c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 23/37] fix: keep waiting for main chain transactions after
 errors and restarts

---
 shuttermint/keyper/fx/runenv.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/shuttermint/keyper/fx/runenv.go b/shuttermint/keyper/fx/runenv.go
index c92016d..7fe2da9 100644
--- a/shuttermint/keyper/fx/runenv.go
+++ b/shuttermint/keyper/fx/runenv.go
@@ -76,25 +76,32 @@ func (runenv *RunEnv) sendMainChainTX(ctx context.Context, id ActionID, act Main
 		return err
 	}
 	runenv.PendingActions.SetMainChainTXHash(id, tx.Hash())
-	runenv.inFlightMainChainTXs <- id
+	select {
+	case runenv.inFlightMainChainTXs <- id:
+	case <-ctx.Done():
+		// We'll wait for the transaction after a restart.
+	}
 	return nil
 }
 
 var zerohash = common.Hash{}
 
-func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
+// waitMined waits until the transaction sent for the given action is mined. It returns false if ctx
+// has been canceled before that.
+func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) bool {
 	act := runenv.PendingActions.GetAction(id)
 	hash := runenv.PendingActions.GetMainChainTXHash(id)
 	if hash == zerohash {
 		log.Fatalf("internal error: cannot wait for the zero hash, id=%d", id)
 	}
 	receipt, err := medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
-	if err == context.Canceled {
-		return
-	}
-	if err != nil {
+	for err != nil {
+		if ctx.Err() != nil {
+			return false
+		}
 		log.Printf("Error waiting for transaction id=%d, %s: %v", id, hash.Hex(), err)
-		return
+		medley.Sleep(ctx, time.Second)
+		receipt, err = medley.WaitMined(ctx, runenv.ContractCaller.Ethclient, hash)
 	}
 	if receipt.Status != types.ReceiptStatusSuccessful {
 		world := runenv.CurrentWorld() // XXX we should make sure our world includes the receipt's blocknumber
@@ -103,7 +110,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 		tx, _, err := runenv.ContractCaller.Ethclient.TransactionByHash(ctx, hash)
 		if err != nil {
 			log.Printf("TX reverted: id=%d, gasUsed=%d, expired=%t, %s, hash=%s", id, receipt.GasUsed, expired, act, hash.Hex())
-			return
+			return true
 		}
 
 		reason := medley.GetRevertReason(ctx, runenv.ContractCaller.Ethclient, runenv.ContractCaller.Address(), tx, receipt.BlockNumber)
@@ -111,6 +118,7 @@ func (runenv *RunEnv) waitMined(ctx context.Context, id ActionID) {
 	} else {
 		log.Printf("TX success: id=%d, gasUsed=%d, %s, hash=%s", id, receipt.GasUsed, act, hash.Hex())
 	}
+	return true
 }
 
 func (runenv *RunEnv) RunActions(ctx context.Context, actionCounter uint64, actions []IAction) error {
@@ -237,8 +245,9 @@ func (runenv *RunEnv) handleInFlightTXs(ctx context.Context) {
 	for {
 		select {
 		case id := <-runenv.inFlightMainChainTXs:
-			runenv.waitMined(ctx, id)
-			runenv.PendingActions.RemoveAction(id)
+			if runenv.waitMined(ctx, id) {
+				runenv.PendingActions.RemoveAction(id)
+			}
 		case <-ctx.Done():
 			return
 		}
-- 
2.43.0


From debd48898d3b043b9cd17a5bc3ed2e5ce90d5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 24/37] fix: send messages again if the shuttermint node
 rejects them

---
 shuttermint/keyper/fx/messagesender.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shuttermint/keyper/fx/messagesender.go b/shuttermint/keyper/fx/messagesender.go
index 67ab21f..31d3667 100644
--- a/shuttermint/keyper/fx/messagesender.go
+++ b/shuttermint/keyper/fx/messagesender.go
@@ -117,6 +117,11 @@ func (ms *RPCMessageSender) SendMessage(ctx context.Context, msg *shmsg.Message)
 	if err != nil {
 		return err
 	}
+	if res.CheckTx.Code != 0 {
+		// The message didn't make it into the mempool, e.g. because we've sent too many
+		// messages. Later it may be accepted.
+		return errors.Errorf("message rejected by shuttermint node: %s", res.CheckTx.Log)
+	}
 	if res.DeliverTx.Code != 0 {
 		return &RemoteError{
 			msg: res.DeliverTx.Log,
-- 
2.43.0


From 660c1edea4402a16da9e4b0d71fd2412d803649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 25/37] fix: escape strings in the keyper configuration file

WriteTOML put URLs and the database directory unescaped into the file, so that a quote
or a backslash gave a file that can't be read or has another value.
---
 shuttermint/keyper/config.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index 3afbfd4..fb1d3f6 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -5,9 +5,11 @@ import (
 	"crypto/ed25519"
 	"crypto/rand"
 	"encoding/hex"
+	"encoding/json"
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 	"text/template"
 
 	"github.com/ethereum/go-ethereum/common"
@@ -48,9 +50,9 @@ ExecutorContract	= "{{ .ExecutorContractAddress }}"
 KeyBroadcastContract	= "{{ .KeyBroadcastContractAddress }}"
 KeyperSlasher		= "{{ .KeyperSlasherAddress }}"
 
-EthereumURL		= "{{ .EthereumURL }}"
-ShuttermintURL		= "{{ .ShuttermintURL }}"
-DBDir			= "{{ .DBDir }}"
+EthereumURL		= {{ .EthereumURL | quote }}
+ShuttermintURL		= {{ .ShuttermintURL | quote }}
+DBDir			= {{ .DBDir | quote }}
 DKGPhaseLength		= {{ .DKGPhaseLength }}
 ExecutionStaggering	= {{ .ExecutionStaggering }}
 MainChainFollowDistance = {{ .MainChainFollowDistance }}
@@ -64,10 +66,18 @@ ValidatorSeed	= "{{ .ValidatorKey.Seed | printf "%x" }}"
 
 var tmpl *template.Template
 
+// quoteTOML returns the given string as TOML basic string. JSON strings are valid TOML basic strings
+// except that DEL must also be escaped.
+func quoteTOML(s string) (string, error) {
+	quoted, err := json.Marshal(s)
+	return strings.ReplaceAll(string(quoted), "\x7f", "\\u007f"), err
+}
+
 func init() {
 	var err error
 	tmpl, err = template.New("keyper").Funcs(template.FuncMap{
 		"FromECDSA": crypto.FromECDSA,
+		"quote":     quoteTOML,
 	}).Parse(configTemplate)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 1a34fa9db0ad68ca9a83845a2f49ae987e5ddfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 26/37] fix: refuse gas price multipliers that are not finite

NaN let the keyper panic at startup, an infinite multiplier made it lose the gas price.
---
 shuttermint/keyper/gaspricer/gaspricer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shuttermint/keyper/gaspricer/gaspricer.go b/shuttermint/keyper/gaspricer/gaspricer.go
index 1a67424..160ba0e 100644
--- a/shuttermint/keyper/gaspricer/gaspricer.go
+++ b/shuttermint/keyper/gaspricer/gaspricer.go
@@ -3,6 +3,7 @@
 package gaspricer
 
 import (
+	"math"
 	"math/big"
 
 	"github.com/pkg/errors"
@@ -15,6 +16,9 @@ func SetMultiplier(f float64) error {
 	if f < 0.0 {
 		return errors.New("gas price multiplier must be non-negative")
 	}
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return errors.New("gas price multiplier must be a finite number")
+	}
 	gasPriceMultiplier = big.NewFloat(f)
 	return nil
 }
-- 
2.43.0


From 8dc3cef570570ddb6ec0469434a172ea0ed0d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 27/37] fix: refuse null as batch config instead of crashing

---
 shuttermint/contract/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 976a641..0ec7094 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -115,7 +115,7 @@ func (bc *BatchConfig) UnmarshalJSON(data []byte) error {
 		Alias: (*Alias)(bc),
 	}
 
-	if err := json.Unmarshal(data, &tmp); err != nil {
+	if err := json.Unmarshal(data, tmp); err != nil {
 		return err
 	}
 
-- 
2.43.0


From c0f88e966e36bfd4f607aa5019bc1c245abed743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 28/37] fix: refuse keyper configurations with missing or
 malformed settings

Negative and fractional numbers were silently converted (-1 to 2^64-1, 1.5 to 1), so were
numbers and lists given as keys or addresses, and a missing key crashed the keyper.
---
 shuttermint/keyper/config.go | 70 +++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/config.go b/shuttermint/keyper/config.go
index fb1d3f6..8b37da1 100644
--- a/shuttermint/keyper/config.go
+++ b/shuttermint/keyper/config.go
@@ -130,6 +130,69 @@ func stringToAddress(f reflect.Type, t reflect.Type, data interface{}) (interfac
 	return addr, nil
 }
 
+// refuseLossyConversions makes us refuse settings of the wrong type and numbers that are out of
+// range. Without it they would be converted silently to some other value, e.g. -1 to 2^64-1 or 1.5
+// to 1. Numbers may be given as strings because they may come from environment variables.
+func refuseLossyConversions(f reflect.Type, t reflect.Type, data interface{}) (interface{}, error) {
+	var ok bool
+	v := reflect.ValueOf(data)
+	switch t {
+	case reflect.TypeOf(uint64(0)):
+		switch f.Kind() {
+		case reflect.String:
+			ok = v.String() != ""
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			ok = v.Int() >= 0
+		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			ok = true
+		}
+	case reflect.TypeOf(float64(0)):
+		switch f.Kind() {
+		case reflect.String:
+			ok = v.String() != ""
+		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
+			reflect.Float32, reflect.Float64:
+			ok = true
+		}
+	case reflect.TypeOf(""),
+		reflect.TypeOf(ed25519.PrivateKey{}),
+		reflect.TypeOf(&ecdsa.PrivateKey{}),
+		reflect.TypeOf(&ecies.PrivateKey{}),
+		reflect.TypeOf(common.Address{}):
+		ok = f.Kind() == reflect.String
+	default:
+		ok = true
+	}
+	if !ok {
+		return nil, errors.Errorf("invalid value %v", data)
+	}
+	return data, nil
+}
+
+// validate makes sure that the config contains all keys and contract addresses.
+func (config *Config) validate() error {
+	for _, x := range []struct {
+		name    string
+		missing bool
+	}{
+		{"SigningKey", config.SigningKey == nil},
+		{"EncryptionKey", config.EncryptionKey == nil},
+		{"ValidatorSeed", len(config.ValidatorKey) == 0},
+		{"ConfigContract", config.ConfigContractAddress == common.Address{}},
+		{"BatcherContract", config.BatcherContractAddress == common.Address{}},
+		{"KeyBroadcastContract", config.KeyBroadcastContractAddress == common.Address{}},
+		{"ExecutorContract", config.ExecutorContractAddress == common.Address{}},
+		{"DepositContract", config.DepositContractAddress == common.Address{}},
+		{"KeyperSlasher", config.KeyperSlasherAddress == common.Address{}},
+	} {
+		if x.missing {
+			return errors.Errorf("field %s is missing", x.name)
+		}
+	}
+	return nil
+}
+
 func randomSigningKey() (*ecdsa.PrivateKey, error) {
 	return crypto.GenerateKey()
 }
@@ -173,10 +236,11 @@ func (config *Config) GenerateNewKeys() error {
 
 // Unmarshal unmarshals a keyper Config from the the given Viper object.
 func (config *Config) Unmarshal(v *viper.Viper) error {
-	return v.Unmarshal(
+	err := v.Unmarshal(
 		config,
 		viper.DecodeHook(
 			mapstructure.ComposeDecodeHookFunc(
+				refuseLossyConversions,
 				stringToEd25519PrivateKey,
 				stringToEcdsaPrivateKey,
 				stringToEciesPrivateKey,
@@ -186,6 +250,10 @@ func (config *Config) Unmarshal(v *viper.Viper) error {
 			),
 		),
 	)
+	if err != nil {
+		return err
+	}
+	return config.validate()
 }
 
 // Address returns the keyper's Ethereum address.
-- 
2.43.0


From e70f140f9bb059c763bbaed2fc768cad616c0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 29/37] fix: replace all keypers of the next config, even if
 some are given twice

SetNextBatchConfig took the number of keypers to be removed from a list without duplicates,
so that some of the old keypers stayed in the config contract.
---
 shuttermint/contract/config.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shuttermint/contract/config.go b/shuttermint/contract/config.go
index 0ec7094..4f030ec 100644
--- a/shuttermint/contract/config.go
+++ b/shuttermint/contract/config.go
@@ -312,6 +312,11 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 	if err != nil {
 		return err
 	}
+	// GetNextConfig hides duplicate keypers
+	curKeypers, err := cc.GetNextConfigKeypers(callOpts)
+	if err != nil {
+		return err
+	}
 
 	txopts := batch.TransactOpts
 	var tx *types.Transaction
@@ -381,9 +386,9 @@ func (cc *ConfigContract) SetNextBatchConfig(ctx context.Context, batch *txbatch
 		}
 		batch.Add(tx)
 	}
-	if !addressesEqual(newbc.Keypers, curbc.Keypers) {
+	if !addressesEqual(newbc.Keypers, curKeypers) {
 		// TODO: remove and keypers in groups if there are too many of them
-		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curbc.Keypers))); err != nil {
+		if tx, err = cc.NextConfigRemoveKeypers(txopts, uint64(len(curKeypers))); err != nil {
 			return err
 		}
 		batch.Add(tx)
-- 
2.43.0


From d0e33b11e86d9b863aa5fe51a332f2798082e7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 30/37] fix: let set-next choose a start block the contract
 accepts

The start wrapped around if the last config starts in the future, and was too early if its
batches are longer than the config change heads up.
---
 shuttermint/cmd/config/setnext.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/shuttermint/cmd/config/setnext.go b/shuttermint/cmd/config/setnext.go
index 76108c4..4839357 100644
--- a/shuttermint/cmd/config/setnext.go
+++ b/shuttermint/cmd/config/setnext.go
@@ -77,7 +77,14 @@ func chooseStartBlockAndBatch(ctx context.Context, client *ethclient.Client, cc
 	if err != nil {
 		return 0, 0, errors.Wrap(err, "failed to get header")
 	}
+	// The contract asks for a heads up of at least one batch.
+	if batchSpan > headsUp {
+		headsUp = batchSpan
+	}
 	minStartBlock := header.Number.Uint64() + headsUp + 20
+	if minStartBlock < startBlockNumber {
+		minStartBlock = startBlockNumber
+	}
 
 	if batchSpan == 0 {
 		return minStartBlock, startBatchIndex, nil
-- 
2.43.0


From dd2f252cc245358d4f6793bbf627641376d92397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:47 +0000
Subject: [PATCH 31/37] fix: keypers get stuck at main chain configs that
 shuttermint doesn't accept

The config contract allows configs without keypers or with a threshold
that can't be reached. Shuttermint refuses votes for them, so the keypers
sent a single refused vote and never got to vote for any later config.
They also kept back the secret key shares of the last batches before such
a config. Skip these configs.
---
 shuttermint/keyper/decide.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index b574028..a05484a 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -23,6 +23,7 @@ import (
 	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
 	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
 	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
+	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
 	"github.com/shutter-network/shutter/shuttermint/medley"
 	"github.com/shutter-network/shutter/shuttermint/shmsg"
 )
@@ -377,12 +378,26 @@ func (dcdr *Decider) sendBatchConfig(configIndex uint64, config contract.BatchCo
 	dcdr.sendShuttermintMessage(fmt.Sprintf("batch config, index=%d", configIndex), msg)
 }
 
+// isAcceptedByShuttermint checks if shuttermint accepts votes for the given main chain config. The
+// config contract also allows configs without keypers or with a threshold that can't be reached.
+func isAcceptedByShuttermint(config contract.BatchConfig) bool {
+	bc := shutterevents.BatchConfig{
+		Keypers:   config.Keypers,
+		Threshold: config.Threshold,
+	}
+	return bc.EnsureValid() == nil && medley.EnsureUniqueAddresses(config.Keypers) == nil
+}
+
 func (dcdr *Decider) maybeSendBatchConfig() {
 	if len(dcdr.Shutter.BatchConfigs) == 0 {
 		log.Printf("Shutter is not bootstrapped")
 		return
 	}
 	configIndex := 1 + dcdr.Shutter.BatchConfigs[len(dcdr.Shutter.BatchConfigs)-1].ConfigIndex
+	for configIndex < uint64(len(dcdr.MainChain.BatchConfigs)) &&
+		!isAcceptedByShuttermint(dcdr.MainChain.BatchConfigs[configIndex]) {
+		configIndex++
+	}
 
 	if configIndex <= dcdr.State.LastSentBatchConfigIndex {
 		return // already sent this one out
@@ -827,8 +842,12 @@ func (dcdr *Decider) publishEpochSecretKeyShares() {
 	activeCFGIdx := dcdr.MainChain.ActiveConfigIndex(blockNum)
 	bc := dcdr.MainChain.BatchConfigs[activeCFGIdx]
 
-	// find the corresponding config on shutter
-	_, err := dcdr.Shutter.FindBatchConfigByConfigIndex(uint64(activeCFGIdx))
+	// find the corresponding config on shutter, which has none for the configs it doesn't accept
+	shutterCFGIdx := activeCFGIdx
+	for shutterCFGIdx > 0 && !isAcceptedByShuttermint(dcdr.MainChain.BatchConfigs[shutterCFGIdx]) {
+		shutterCFGIdx--
+	}
+	_, err := dcdr.Shutter.FindBatchConfigByConfigIndex(uint64(shutterCFGIdx))
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 35cdeec574b25beba422784aa568837f8935b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 32/37] fix: late keypers take part in a DKG with the keyper
 set of a later config

A config following an inactive one starts with the same batch. When a
keyper came to handle the eon of the former after Shuttermint had
accepted the latter, it used the latter's keypers and threshold for it.
Use the config that was in force when the eon started.
---
 shuttermint/keyper/decide.go          |  2 +-
 shuttermint/keyper/observe/shutter.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index a05484a..010643c 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -410,7 +410,7 @@ func (dcdr *Decider) maybeSendBatchConfig() {
 }
 
 func (dcdr *Decider) startDKG(eon *observe.Eon) {
-	batchConfig := dcdr.Shutter.FindBatchConfigByBatchIndex(eon.StartEvent.BatchIndex)
+	batchConfig := dcdr.Shutter.FindBatchConfigAtHeight(eon.StartEvent.BatchIndex, eon.StartHeight)
 	keyperIndex, err := medley.FindAddressIndex(batchConfig.Keypers, dcdr.Config.Address())
 	if err != nil {
 		return
diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index 28464dd..b712801 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -462,6 +462,18 @@ func (shutter *Shutter) FindBatchConfigByBatchIndex(batchIndex uint64) shutterev
 	return shutterevents.BatchConfig{}
 }
 
+// FindBatchConfigAtHeight returns the batch config that was responsible for the given batch at the
+// given height.
+func (shutter *Shutter) FindBatchConfigAtHeight(batchIndex uint64, height int64) shutterevents.BatchConfig {
+	for i := len(shutter.BatchConfigs) - 1; i >= 0; i-- {
+		bc := shutter.BatchConfigs[i]
+		if bc.Height <= height && bc.StartBatchIndex <= batchIndex {
+			return bc
+		}
+	}
+	return shutterevents.BatchConfig{}
+}
+
 func (shutter *Shutter) ShallowClone() *Shutter {
 	s := *shutter
 	return &s
-- 
2.43.0


From af469222d36c3c3329f165f3449ea364399d5b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:15 +0000
Subject: [PATCH 33/37] fix: keypers restarted during a DKG refuse genuine
 commitments and evaluations

Gob turns the missing poly commitments and poly evals of a DKG into empty
commitments and zeros. After a restart in the dealing phase, the keyper
ignored the real ones as duplicates, accused all of these dealers and had
no eon key in the end. Remove them again when loading the state.
---
 shuttermint/keyper/decide.go | 26 ++++++++++++++++++++++++++
 shuttermint/keyper/keyper.go |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 010643c..3fa8522 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -80,6 +80,7 @@ type DKG struct {
 	Pure                 *puredkg.PureDKG
 	OutgoingPolyEvalMsgs []puredkg.PolyEvalMsg
 	PhaseLength          PhaseLength
+	ZeroEvals            []uint64 // senders of poly evals that are zero, see restoreMissing
 }
 
 // EKG is used to store local state about the epoch key generation process.
@@ -97,6 +98,29 @@ func (dkg *DKG) IsFinalized() bool {
 	return dkg.Pure == nil || dkg.Pure.Phase == puredkg.Finalized
 }
 
+// restoreMissing removes the empty poly commitments and zero poly evals that have taken the place of
+// missing ones while encoding and decoding the DKG with gob. Otherwise, we would ignore the real
+// ones as duplicates.
+func (dkg *DKG) restoreMissing() {
+	if dkg.Pure == nil {
+		return
+	}
+	for i, gammas := range dkg.Pure.Commitments {
+		if gammas != nil && len(*gammas) == 0 {
+			dkg.Pure.Commitments[i] = nil
+		}
+	}
+	received := map[uint64]bool{dkg.Pure.Keyper: true}
+	for _, sender := range dkg.ZeroEvals {
+		received[sender] = true
+	}
+	for i, eval := range dkg.Pure.Evals {
+		if eval != nil && eval.Sign() == 0 && !received[uint64(i)] {
+			dkg.Pure.Evals[i] = nil
+		}
+	}
+}
+
 // newApology create a new shmsg apology message from the given puredkg apologies.
 func (dkg *DKG) newApology(apologies []puredkg.ApologyMsg) *shmsg.Message {
 	var accusers []common.Address
@@ -183,6 +207,8 @@ func (dkg *DKG) syncPolyEvals(syncHeight int64, eon observe.Eon, decrypt decrypt
 				})
 			if err != nil {
 				log.Printf("Error in syncPolyEvals: %+v", err)
+			} else if b.Sign() == 0 {
+				dkg.ZeroEvals = append(dkg.ZeroEvals, uint64(sender))
 			}
 		}
 	}
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index 7f86e52..a2b835e 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -329,6 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	for i := range st.State.DKGs {
+		st.State.DKGs[i].restoreMissing()
+	}
 	kpr.State = st.State
 	world := observe.World{
 		Shutter:   st.Shutter,
-- 
2.43.0


From 0bb19b7b74f3bdd70db446f760ec0c6865ad1383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:01 +0000
Subject: [PATCH 34/37] fix: a restarted keyper forgets that half step 0 is
 pending

Gob doesn't store pointers to zero, so that a keyper executed the first
half step once more after a restart.
---
 shuttermint/keyper/decide.go | 11 +++++++++--
 shuttermint/keyper/keyper.go |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/shuttermint/keyper/decide.go b/shuttermint/keyper/decide.go
index 3fa8522..d45a9a9 100644
--- a/shuttermint/keyper/decide.go
+++ b/shuttermint/keyper/decide.go
@@ -287,6 +287,7 @@ type State struct {
 	DKGs                     []DKG
 	EKGs                     []*EKG
 	PendingHalfStep          *uint64
+	HalfStepPending          bool // PendingHalfStep isn't nil; gob doesn't distinguish nil and zero
 	PendingAppeals           map[uint64]struct{}
 	NextEpochSecretShare     uint64
 	Batches                  map[uint64]*Batch
@@ -309,6 +310,12 @@ func NewState() *State {
 	}
 }
 
+// setPendingHalfStep sets the pending half step, which may be nil.
+func (st *State) setPendingHalfStep(halfStep *uint64) {
+	st.PendingHalfStep = halfStep
+	st.HalfStepPending = halfStep != nil
+}
+
 // GetShutterFilter returns the shutter filter to be applied to the Shutter state.
 func (st *State) GetShutterFilter(mainChain *observe.MainChain) observe.ShutterFilter {
 	return observe.ShutterFilter{
@@ -978,7 +985,7 @@ func (dcdr *Decider) maybeExecuteBatch() {
 		// XXX There's a chance that another keyper has executed the previous half step and our tx
 		// is still pending. In that case we should probably wait until it fails before sending
 		// another one.
-		dcdr.State.PendingHalfStep = nil
+		dcdr.State.setPendingHalfStep(nil)
 	}
 	if dcdr.State.PendingHalfStep != nil {
 		// Don't try to execute anything if there's already one or more pending transaction
@@ -991,7 +998,7 @@ func (dcdr *Decider) maybeExecuteBatch() {
 		if action := dcdr.maybeExecuteHalfStep(halfStep); action != nil {
 			dcdr.addAction(action)
 			halfStep2 := halfStep // avoid using reference to loop variable
-			dcdr.State.PendingHalfStep = &halfStep2
+			dcdr.State.setPendingHalfStep(&halfStep2)
 		} else {
 			break
 		}
diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index a2b835e..beff25e 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -253,7 +253,7 @@ func (kpr *Keyper) loadRunenv(ctx context.Context) error {
 
 	if !havePendingActions && len(kpr.State.Actions) == 0 && kpr.State.PendingHalfStep != nil {
 		log.Printf("Fixing State: PendingHalfStep should be nil!")
-		kpr.State.PendingHalfStep = nil
+		kpr.State.setPendingHalfStep(nil)
 	}
 	return nil
 }
@@ -329,6 +329,9 @@ func (kpr *Keyper) LoadState() error {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
+	if st.State.HalfStepPending && st.State.PendingHalfStep == nil {
+		st.State.setPendingHalfStep(new(uint64))
+	}
 	for i := range st.State.DKGs {
 		st.State.DKGs[i].restoreMissing()
 	}
-- 
2.43.0


From 0aaa933ddb9a9f7ed144f634eb8d1f955150982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 35/37] fix: a keyper restarted before its first decision skips
 the DKG messages up to then

A state that was stored while the main chain was still syncing has no
sync height. Loading it took it for a state stored by an older version,
so that the events that hadn't been handled yet were ignored.
---
 shuttermint/keyper/keyper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shuttermint/keyper/keyper.go b/shuttermint/keyper/keyper.go
index beff25e..4e6cebd 100644
--- a/shuttermint/keyper/keyper.go
+++ b/shuttermint/keyper/keyper.go
@@ -325,7 +325,9 @@ func (kpr *Keyper) LoadState() error {
 		return err
 	}
 
-	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 {
+	// Without any DKG or EKG, we may not have handled any event yet, e.g. because the main chain
+	// wasn't synced.
+	if st.State.SyncHeight == 0 && st.Shutter.CurrentBlock > 0 && len(st.State.DKGs)+len(st.State.EKGs) > 0 {
 		log.Printf("Fixing SyncHeight: %d", st.Shutter.CurrentBlock)
 		st.State.SyncHeight = st.Shutter.CurrentBlock // We didn't have this field in older versions
 	}
-- 
2.43.0


From 8ff474f9dba50094c1193794f80ef52436967567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:38 +0000
Subject: [PATCH 36/37] fix: make the WebAssembly modules compile again (pass
 epoch ids as bytes)

---
 shuttermint/shcryptowasm/both_wasm.go    | 14 +++++++-------
 shuttermint/shcryptowasm/decrypt_wasm.go | 14 +++++++-------
 shuttermint/shcryptowasm/encrypt_wasm.go |  4 +---
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/shuttermint/shcryptowasm/both_wasm.go b/shuttermint/shcryptowasm/both_wasm.go
index 508a396..da14573 100644
--- a/shuttermint/shcryptowasm/both_wasm.go
+++ b/shuttermint/shcryptowasm/both_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -133,11 +132,11 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeUint64Arg(arg, "epochID")
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
@@ -195,13 +194,14 @@ func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
 	return b, nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
+// decodeUint64Arg returns the big endian encoding of a 64 bit number.
+func decodeUint64Arg(arg js.Value, name string) ([]byte, error) {
 	b, err := decodeBytesArg(arg, name)
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
diff --git a/shuttermint/shcryptowasm/decrypt_wasm.go b/shuttermint/shcryptowasm/decrypt_wasm.go
index c624c34..a94f124 100644
--- a/shuttermint/shcryptowasm/decrypt_wasm.go
+++ b/shuttermint/shcryptowasm/decrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -130,23 +129,24 @@ func decodeEonPublicKeyArg(arg js.Value) (*shcrypto.EonPublicKey, error) {
 }
 
 func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
-	i, err := decodeUint64Arg(arg, "epochID")
+	b, err := decodeUint64Arg(arg, "epochID")
 	if err != nil {
 		return nil, err
 	}
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
-func decodeUint64Arg(arg js.Value, name string) (uint64, error) {
+// decodeUint64Arg returns the big endian encoding of a 64 bit number.
+func decodeUint64Arg(arg js.Value, name string) ([]byte, error) {
 	b, err := decodeBytesArg(arg, name)
 	if err != nil {
-		return 0, err
+		return nil, err
 	}
 	if len(b) != 8 {
-		return 0, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
+		return nil, fmt.Errorf("%s must be 8 bytes, got %d", name, len(b))
 	}
-	return binary.BigEndian.Uint64(b), nil
+	return b, nil
 }
 
 func decodeBytesArg(arg js.Value, name string) ([]byte, error) {
diff --git a/shuttermint/shcryptowasm/encrypt_wasm.go b/shuttermint/shcryptowasm/encrypt_wasm.go
index 7fa22e7..d1415ba 100644
--- a/shuttermint/shcryptowasm/encrypt_wasm.go
+++ b/shuttermint/shcryptowasm/encrypt_wasm.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"encoding/binary"
 	"encoding/hex"
 	"fmt"
 	"syscall/js"
@@ -88,8 +87,7 @@ func decodeEpochIDArg(arg js.Value) (*shcrypto.EpochID, error) {
 		return nil, fmt.Errorf("epochID must be 8 bytes, got %d", len(b))
 	}
 
-	i := binary.BigEndian.Uint64(b)
-	p := shcrypto.ComputeEpochID(i)
+	p := shcrypto.ComputeEpochID(b)
 	return p, nil
 }
 
-- 
2.43.0


From 4df42adcd1de749d6eb5315c2b3b1d6fbe26f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:04 +0000
Subject: [PATCH 37/37] fix: sync from the block results, the transaction index
 may miss transactions

Keypers searched for transactions in tendermint's transaction index. This
index is filled after a block has been committed: it never gets the
transactions of a block if the node crashes in between, and it only has the
last result of a transaction a proposer repeats in a later block. Keypers that
sync from such a node miss the events for good.
---
 shuttermint/keyper/observe/shutter.go | 98 ++++++++++++++-------------
 1 file changed, 52 insertions(+), 46 deletions(-)

diff --git a/shuttermint/keyper/observe/shutter.go b/shuttermint/keyper/observe/shutter.go
index b712801..6e6679f 100644
--- a/shuttermint/keyper/observe/shutter.go
+++ b/shuttermint/keyper/observe/shutter.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/gob"
 	"errors"
-	"fmt"
 	"io"
 	"log"
 	"reflect"
@@ -367,67 +366,74 @@ func (shutter *Shutter) fetchAndApplyEvents(ctx context.Context, shmcl client.Cl
 	}
 	cloned := false
 
-	currentBlock := shutter.CurrentBlock
-	const perQuery = 500
-	logProgress := shutter.CurrentBlock+perQuery < targetHeight
+	// tendermint returns at most 20 block metas
+	const perQuery = 20
+	logProgress := shutter.CurrentBlock+500 < targetHeight
 
-	for {
-		height := currentBlock + perQuery
-		if height > targetHeight {
-			height = targetHeight
+	height := shutter.CurrentBlock + 1
+	if height < 1 {
+		height = 1 // the first block
+	}
+	for ; height <= targetHeight; height += perQuery {
+		lastHeight := height + perQuery - 1
+		if lastHeight > targetHeight {
+			lastHeight = targetHeight
 		}
-
-		query := fmt.Sprintf("tx.height >= %d and tx.height <= %d", currentBlock+1, height)
-		if logProgress {
-			log.Printf("fetchAndApplyEvents: query=%s targetHeight=%d", query, targetHeight)
+		if logProgress && height/500 != lastHeight/500 {
+			log.Printf("fetchAndApplyEvents: height=%d targetHeight=%d", lastHeight, targetHeight)
 		}
-
-		// tendermint silently caps the perPage value at 100, make sure to stay below, otherwise
-		// our exit condition is wrong and the log.Fatalf will trigger a panic below; see
-		// https://github.com/shutter-network/shutter/issues/50
-		perPage := 100
-		page := 1
-		total := 0
-		for {
-			res, err := shmcl.TxSearch(ctx, query, false, &page, &perPage, "")
+		nonEmpty, err := fetchNonEmptyBlocks(ctx, shmcl, height, lastHeight)
+		if err != nil {
+			return nil, err
+		}
+		for _, h := range nonEmpty {
+			h := h
+			// We don't search for the transactions: tendermint fills its transaction index after
+			// it has committed a block, never does so if it crashes in between, and keeps only
+			// the last result of a transaction that has been repeated in a later block.
+			res, err := shmcl.BlockResults(ctx, &h)
 			if err != nil {
-				return nil, pkgErrors.Wrap(err, "failed to fetch shuttermint txs")
+				return nil, pkgErrors.Wrapf(err, "failed to fetch results of shuttermint block %d", h)
 			}
-			// Create a shallow or deep clone
 			if !cloned {
-				if res.TotalCount == 0 && height == targetHeight {
-					return shutter.ShallowClone(), nil
-				}
 				shutter = shutter.Clone()
 				cloned = true
 			}
-
-			total += len(res.Txs)
-			for _, tx := range res.Txs {
-				events := tx.TxResult.GetEvents()
-				shutter.applyTxEvents(tx.Height, events)
-			}
-			if page*perPage >= res.TotalCount {
-				if total != res.TotalCount {
-					log.Fatalf("internal error. got %d transactions, expected %d transactions from shuttermint for height %d..%d",
-						total,
-						res.TotalCount,
-						shutter.CurrentBlock+1,
-						targetHeight)
-				}
-				break
+			for _, tx := range res.TxsResults {
+				shutter.applyTxEvents(h, tx.GetEvents())
 			}
-			page++
 		}
-		if height == targetHeight {
-			break
-		}
-		currentBlock = height
 	}
 
+	if !cloned {
+		return shutter.ShallowClone(), nil
+	}
 	return shutter, nil
 }
 
+// fetchNonEmptyBlocks returns the heights of the blocks in the given range that have transactions.
+func fetchNonEmptyBlocks(ctx context.Context, shmcl client.Client, minHeight, maxHeight int64) ([]int64, error) {
+	info, err := shmcl.BlockchainInfo(ctx, minHeight, maxHeight)
+	if err != nil {
+		return nil, pkgErrors.Wrap(err, "failed to fetch shuttermint blocks")
+	}
+	if int64(len(info.BlockMetas)) != maxHeight-minHeight+1 {
+		return nil, pkgErrors.Errorf("got %d shuttermint blocks for height %d..%d", len(info.BlockMetas), minHeight, maxHeight)
+	}
+	var heights []int64
+	// tendermint starts with the latest block
+	for i := len(info.BlockMetas) - 1; i >= 0; i-- {
+		meta := info.BlockMetas[i]
+		if meta == nil {
+			return nil, pkgErrors.Errorf("missing shuttermint block in height %d..%d", minHeight, maxHeight)
+		}
+		if meta.NumTxs > 0 {
+			heights = append(heights, meta.Header.Height)
+		}
+	}
+	return heights, nil
+}
+
 // IsCheckedIn checks if the given address sent it's check-in message.
 func (shutter *Shutter) IsCheckedIn(addr common.Address) bool {
 	_, ok := shutter.KeyperEncryptionKeys[addr]
-- 
2.43.0

