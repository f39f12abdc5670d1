#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


SC = "shlib/shcrypto/"
AP = "shuttermint/app/"
KP = "shuttermint/keyper/"
SM = "shuttermint/shmsg/"

# ------------------------------------------------------------------ shlib
p("C01", "Encrypted messages decrypt to themselves with any threshold of keypers",
  "For every message, every keyper set and every threshold t, a message encrypted to the eon public key for an epoch decrypts to exactly that message using the epoch secret key computed from the shares of any t keypers, in any order. Every choice of t keypers yields the same epoch secret key, and any number of shares other than t, or mismatching index lists, is refused with an error. Neither encryption nor decryption changes the caller's message, its backing memory, or the ciphertext.",
  ["inputs", "configurations"],
  "all message lengths and contents, all n and t<=n, all t-subsets and orders, all epoch indices and random sigmas",
  "The unit tests encrypt a few fixed messages with one 3-keyper set-up; subsets, orders, block-boundary lengths and buffer aliasing are not sampled.",
  [SC + "encryption.go", SC + "keys.go", SC + "feldman.go", SC + "hash.go"],
  [("padding and sigma derived block keys", SC + "encryption.go Encrypt/PadMessage"),
   ("Lagrange interpolation of epoch key shares", SC + "keys.go ComputeEpochSecretKey")])
p("C02", "Altered ciphertexts or wrong keys never decrypt to another message",
  "Decrypting with a key other than the epoch secret key of that eon and epoch, or decrypting a ciphertext in which any part has been altered, reordered, dropped, appended or mixed with another ciphertext, fails with an error and never returns a plaintext. Encryption is a function of exactly message, eon key, epoch and sigma: two ciphertexts that differ in any of these differ. No input makes decryption crash.",
  ["inputs"],
  "all ciphertexts, all single and combined mutations of c1, c2, c3, all wrong keys",
  "Existing tests flip one field of one message; appended, dropped and swapped blocks, cross-message mixes and arbitrary keys are not covered.",
  [SC + "encryption.go", SC + "hash.go"],
  [("Fujisaki-Okamoto style check of c1 against the recomputed r", SC + "encryption.go Decrypt"),
   ("padding check", SC + "encryption.go UnpadMessage")])
p("C03", "Epoch key shares and epoch secret keys verify exactly when genuine",
  "An epoch secret key share verifies against a keyper's eon public key share and an epoch id if and only if it is the one that keyper's eon secret key share produces for that epoch, and an epoch secret key verifies against an eon public key and epoch if and only if it is the genuine one. Shares of another keyper, another epoch or another eon, and any other group element, are rejected. Epoch ids of different epoch identities differ, and equality of keys and shares coincides with equality of their encodings.",
  ["inputs", "configurations"],
  "all keyper sets and polynomials, all epoch identities, all non-genuine points",
  "Tests check one genuine share and one wrong key for fixed epochs.",
  [SC + "keys.go", SC + "hash.go"],
  [("pairing check", SC + "keys.go VerifyEpochSecretKeyShare / VerifyEpochSecretKey"),
   ("hash to curve of the epoch index", SC + "hash.go")])
p("C04", "Encodings of cryptographic objects round-trip; malformed input is an error",
  "Every eon or epoch key, key share, polynomial commitment, block, encrypted message and BLS key or signature decodes from its own binary, text and gob encoding to an equal object that encodes to the same bytes. Byte strings or texts that are not such an encoding (wrong length, points off the curve or out of range, inconsistent block counts) are rejected with an error and do not produce an object. No input makes a decoder crash, and decoding into an already used object gives the same result as decoding into a fresh one.",
  ["inputs"],
  "all objects and all byte strings and texts, including truncations, extensions and bit flips of valid encodings",
  "Tests round-trip one object per type and feed no malformed encodings to most decoders.",
  [SC + "encoding.go", SC + "feldman.go", SC + "shbls/encoding.go", SC + "keys.go"],
  [("compressed BLS12-381 points with subgroup checks", SC + "encoding.go"),
   ("GobEncode/GobDecode", SC + "feldman.go")])
p("C05", "DKG: honest keypers agree on a working key despite Byzantine dealers",
  "After dealing, accusing and apologizing with all public messages delivered to every keyper in the chain's common order, all honest keypers compute the same set of qualified dealers and hence the same eon public key and the same public key shares, or all report failure; failure occurs exactly when fewer dealers than the threshold qualify. A dealer qualifies exactly if it published a well-formed commitment, every accusation against it was answered by an apology, and none of its apologies carries a wrong evaluation, so honest dealers always qualify. Every honest keyper's secret share matches its public key share, and any threshold many of them produce the epoch secret keys of the common public key.",
  ["fault_sequences", "schedules", "configurations"],
  "all n and thresholds, all sets of Byzantine dealers (missing or wrong commitments, evaluations, apologies; false accusations), all delivery orders within the phases",
  "The tests run three keypers with one hand-picked corruption each; combinations of faults and message orders are not explored.",
  ["shlib/puredkg/puredkg.go", SC + "feldman.go", SC + "keys.go"],
  [("accusation and apology evaluation", "shlib/puredkg/puredkg.go ComputeResult/isCorrupt"),
   ("evaluation check against commitment", SC + "feldman.go VerifyPolyEval")])
p("C06", "DKG: messages that are not valid for the instance are refused without effect",
  "A DKG instance refuses, with an error and without any change of its state, messages for another eon, addressed to another receiver, repeated for the same dealer (or accuser and accused), out of phase, with commitments of the wrong degree or with evaluations outside the field. Own messages are accepted and the messages an instance emits (commitment, evaluations to every other keyper, accusations against exactly the dealers whose evaluation is missing or wrong, apologies to exactly its accusers) are accepted by all others. The instance survives serialization at any point without changing later behaviour.",
  ["inputs", "histories"],
  "all message sequences with arbitrary field values in every phase",
  "Tests send a handful of invalid messages, one per handler.",
  ["shlib/puredkg/puredkg.go"],
  [("checkPhase/eon/keyper checks per handler", "shlib/puredkg/puredkg.go Handle*Msg"),
   ("phase transitions", "shlib/puredkg/puredkg.go StartPhase*")])
p("C07", "Batch shuffling is a permutation determined by the decryption key alone",
  "For every list of transactions and every epoch secret key or other secret seed, shuffling returns a permutation of the input: nothing is lost, duplicated or altered. The permutation depends only on the secret and the number of items, is the same on every machine and call, and does not modify the input. Different seeds are able to reach every ordering, none being structurally favoured.",
  ["inputs"],
  "all list lengths including 0 and 1, all contents with duplicates, all keys",
  "Tests shuffle one small fixed list and compare with a recorded order.",
  [SC + "shuffle.go"],
  [("SHA3/keccak based Fisher-Yates", SC + "shuffle.go")])
p("C08", "BLS aggregate signatures verify exactly for the signers and messages",
  "A BLS signature verifies under a public key and message if and only if it was made for that message with the matching secret key, and an aggregate signature verifies under the aggregate of public keys if and only if it is the aggregate of those keys' signatures of that message, in any order of aggregation. Altering the message, the set of signers, a key or the signature makes verification fail. Keys and signatures survive marshalling, and malformed encodings are rejected.",
  ["inputs", "configurations"],
  "all messages, signer sets, aggregation orders and alterations",
  "The tests sign a single message with few fixed keys.",
  [SC + "shbls/shbls.go", SC + "shbls/encoding.go"],
  [("pairing check and point aggregation", SC + "shbls/shbls.go")])
p("C09", "Verifiable secret sharing: shares verify exactly against their commitment",
  "An evaluation verifies against a polynomial commitment for a keyper if and only if it equals the committed polynomial's value at that keyper's point, and different keypers get different points. Public key shares computed from the commitments equal the public counterpart of the secret key share computed from the evaluations, and the eon public key is the public counterpart of the sum of the dealers' secrets and is consistent with any threshold of public key shares. Polynomials have exactly the degree asked for, the degree belonging to a threshold is threshold-1, and evaluation agrees with direct arithmetic modulo the group order.",
  ["inputs", "configurations"],
  "all degrees, coefficients including 0 and order-1, keyper indices and perturbed evaluations",
  "Tests use fixed polynomials of degree 2 or 3 and one wrong evaluation.",
  [SC + "feldman.go", SC + "keys.go"],
  [("Horner evaluation and commitment evaluation in the exponent", SC + "feldman.go"),
   ("key aggregation", SC + "keys.go ComputeEonPublicKey/ComputeEonPublicKeyShare/ComputeEonSecretKeyShare")])

# -------------------------------------------------------------------- app
p("C10", "Shuttermint: only fresh transactions signed by members for this chain count",
  "A transaction takes effect only if it is a valid signed encoding, carries this chain's id, and its (signer, random nonce) pair was not used by an earlier transaction of any kind; in particular a replayed transaction never has any effect, no matter how much later, also after restarts. Actions reserved for keypers are carried out only for senders entitled by the batch config in question, and attributed to exactly the address that signed. The set of used nonces of one sender does not affect another sender.",
  ["histories", "inputs"],
  "all histories of delivered transactions with replays, foreign chain ids, altered bytes and non-member senders",
  "Tests check a nonce tracker once and never drive whole histories with replays through block boundaries and restarts.",
  [AP + "app.go", AP + "messages.go", AP + "types.go", SM + "encode.go", AP + "noncetracker.go"],
  [("signature recovery", SM + "encode.go GetSigner/GetMessage"),
   ("nonce tracker and chain id check", AP + "app.go DeliverTx")])
p("C11", "Shuttermint: a rejected transaction leaves no trace and nothing crashes the app",
  "Any byte string given to CheckTx or DeliverTx returns a response and never crashes the application. A transaction answered with an error code emits no events and does not influence the outcome of any later transaction, validator update or persisted state, except that its nonce counts as used. CheckTx never influences the replicated state.",
  ["inputs", "histories"],
  "all byte strings and all protobuf messages with arbitrary, missing or oversized fields in every application state",
  "Tests deliver a few well-formed messages; no arbitrary bytes, no comparison of later behaviour.",
  [AP + "app.go", AP + "messages.go", AP + "checktx.go", AP + "dkg.go"],
  [("parse and validate before mutate", AP + "app.go deliver*"), ("message parsing", AP + "messages.go")])
p("C12", "Batch configs change only by a threshold vote of the previous config's keypers",
  "A new batch config is adopted exactly when the number of distinct keypers of the latest config voting for it, with identical content, reaches that config's threshold; each keyper has one vote per election. Adopted configs have strictly increasing config indices, non-decreasing start batch indices, unique keypers and a threshold that is not larger than the number of keypers. A config is started only if it was adopted as already started or a threshold of the previous config's keypers reported that very config as started, and votes cast for one config never count for another.",
  ["histories", "inputs"],
  "all histories of config proposals and started reports from members and outsiders, all field values including 2^63 and 2^64-1",
  "The tests check the voting counter in isolation and two or three fixed deliveries.",
  [AP + "app.go", AP + "configvoting.go", KP + "shutterevents/batchconfig.go"],
  [("ConfigVoting", AP + "configvoting.go"), ("checkConfig/EnsureValid", AP + "app.go, shutterevents/batchconfig.go"),
   ("StartedVotes", AP + "app.go")],
  [("Configs", "adopted batch configs in order", AP + "types.go ShutterApp"),
   ("StartedVotes", "who reported the latest config as started", AP + "types.go")])
p("C13", "Validator set follows the started config's checked-in keypers",
  "After every block the validator set announced to Tendermint is the genesis set until a config with at least threshold many checked-in keypers has started, and from then on exactly the checked-in validator keys of the most recent such config's keypers, with power 10 per keyper, plus a placeholder with the power of those who did not check in. The updates announced in a block are exactly the difference to the set before, with power zero for removed keys, in an order that is the same on every node. In dev mode no updates are announced.",
  ["histories", "configurations"],
  "all histories of configs, check-ins (including shared validator keys) and started votes",
  "Tests diff two hand-written power maps.",
  [AP + "powermap.go", AP + "app.go"],
  [("DiffPowermaps / ValidatorUpdates", AP + "powermap.go"), ("CurrentValidators", AP + "app.go EndBlock")])
p("C14", "A DKG starts exactly when config adoption or a threshold vote demands it",
  "Adopting a config whose keyper set or threshold is not covered by the latest DKG starts a new DKG for that config, and a DKG for a start batch index is restarted exactly when a threshold of the keypers of the config responsible for that index vote for it, each keyper having one revisable vote. Every start is announced once, by an eon-started event with a fresh, strictly increasing eon number and the batch index it is for. DKG messages of an eon are judged by the keypers of the config the eon was started for.",
  ["histories"],
  "all histories of configs and restart votes with changed votes, outsiders and several pending indices",
  "Tests start one DKG.",
  [AP + "app.go", AP + "dkg.go", AP + "types.go"],
  [("ShouldStartDKG/StartDKG", AP + "app.go"), ("EonStartVotings", AP + "app.go deliverEonStartVoteMsg")])
p("C15", "Shuttermint relays each keyper's DKG message at most once, unaltered",
  "A polynomial commitment, evaluation, accusation or apology is relayed, exactly as sent and with the true sender, if and only if its eon is known, the sender is a keyper of that eon's config, all addressees are distinct keypers other than the sender, and the sender has not had one accepted before (for evaluations: to that receiver). A message refused for one reason does not use up the sender's slot. Accepted messages of one eon never affect another eon.",
  ["histories", "inputs"],
  "all histories of DKG messages with arbitrary eons, senders, receiver lists, duplicates and malformed payloads",
  "The tests register one message of each type and repeat it.",
  [AP + "dkg.go", AP + "app.go", AP + "messages.go", KP + "shutterevents/events.go"],
  [("DKGInstance.Register*Msg", AP + "dkg.go"), ("parsing", AP + "messages.go"), ("event encoding", KP + "shutterevents/events.go MakeABCIEvent")])
p("C16", "Shuttermint relays decryption signatures, key shares and check-ins correctly",
  "A decryption signature is relayed exactly once per sender and batch, only for keypers of the config responsible for the batch (settled by the first signature for it), and an epoch secret key share only if it is a well-formed share; both are relayed unaltered with the true sender. A check-in is accepted once per keyper of any adopted config with a well-formed validator key and encryption key, and is announced with that key. Nothing else is relayed.",
  ["histories", "inputs"],
  "all histories of signatures, shares and check-ins around config changes, with malformed payloads and outsiders",
  "Tests deliver no decryption signatures, shares or check-ins through the application at all.",
  [AP + "app.go", AP + "types.go", AP + "messages.go"],
  [("BatchState per batch", AP + "app.go getBatchState/deliverDecryptionSignature"), ("deliverCheckIn", AP + "app.go")])
p("C17", "Replicas that execute the same blocks agree on every observable result",
  "Two application instances given the same genesis and the same blocks return identical response codes, identical events with identical attribute order and bytes, and identical validator updates, whatever CheckTx calls, queries or restarts each of them sees in between. This also holds for state that went through persistence.",
  ["histories", "schedules"],
  "all block histories with per-replica CheckTx traffic, map iteration orders and restarts",
  "Tests run a single application instance; map iteration nondeterminism shows up only over many runs.",
  [AP + "app.go", AP + "powermap.go", AP + "types.go", KP + "shutterevents/events.go"],
  [("deterministic iteration", AP + "powermap.go ValidatorUpdates sort"), ("gob persisted state", AP + "app.go PersistToDisk")])
p("C18", "A node restarted at any point resumes to the same state as one never stopped",
  "An application that is stopped after any commit, or while writing its state file, and reloaded from what is on disk reports the height and app hash of a state it committed, and after replay of the blocks above that height behaves exactly like one that never stopped. Persisting is atomic: an interrupted write leaves the previous state readable. The persisted state contains everything that influences later behaviour, including used nonces, votes and pending DKGs.",
  ["crash_points", "histories"],
  "all histories, all crash points between and during persists, all persist intervals",
  "The tests save and load an almost empty application once.",
  [AP + "app.go"],
  [("PersistToDisk via temp file and rename", AP + "app.go"), ("Info reports last persisted height", AP + "app.go Info/LoadShutterAppFromFile")])
p("C19", "The mempool check limits each member and admits only current members",
  "CheckTx admits a transaction only if it is a valid signed message for this chain with an unused nonce, signed by a keyper of an adopted config, and at most ten transactions per sender and the same nonce only once between two commits. Within these limits valid transactions of members are admitted. Each commit starts a fresh allowance, and one sender's traffic does not use up another's.",
  ["histories", "inputs"],
  "all interleavings of CheckTx, DeliverTx and Commit from several members and outsiders",
  "Tests count up to the limit for one sender in isolation.",
  [AP + "checktx.go", AP + "app.go"],
  [("CheckTxState", AP + "checktx.go")])
p("C20", "Events survive the trip through Tendermint; hostile events are errors",
  "Every event the application can emit is parsed back by keypers to an equal event with the height it was found at, including empty lists and extreme numbers. An ABCI event of any type with missing, surplus, reordered, duplicated or arbitrary attributes is either parsed to what it says or rejected with an error, and never crashes the parser. Encoding followed by decoding followed by encoding is stable.",
  ["inputs"],
  "all event values; all attribute lists",
  "Tests round-trip one sample per type.",
  [KP + "shutterevents/events.go", KP + "shutterevents/marshal.go", KP + "shutterevents/helpers.go", KP + "shutterevents/batchconfig.go"],
  [("MakeABCIEvent / MakeEvent", KP + "shutterevents/events.go")])
p("C21", "Signed Shuttermint messages carry the signer and content they were made with",
  "A message signed with a key and decoded from its transaction encoding yields exactly the content and the address of that key; any change to the bytes yields an error, or a different signer or the same signed content, but never other content under that signer's name. Message constructors and the parsers in the application are inverse to each other for all field values. No byte string makes decoding crash.",
  ["inputs"],
  "all messages, keys and byte-level alterations",
  "Tests sign and recover one message.",
  [SM + "encode.go", SM + "messages.go", SM + "extend.go", AP + "messages.go"],
  [("SignMessage/GetSigner/GetMessage", SM + "encode.go")])

# ----------------------------------------------------------------- keyper
p("C22", "Keypers combine epoch key shares correctly whatever shares arrive",
  "A keyper obtains the epoch secret key of an epoch exactly when it has received verifying shares from threshold many distinct keypers of the eon, regardless of order, repetition and interleaving between epochs, and the key it obtains is the right one. Wrong shares are refused and neither prevent nor alter the result. All keypers obtain the same key.",
  ["histories", "schedules"],
  "all thresholds, all arrival orders with invalid, duplicate, late and cross-epoch shares",
  "The tests combine one fixed sequence of good shares.",
  [KP + "epochkg/epochkg.go"],
  [("HandleEpochSecretKeyShare", KP + "epochkg/epochkg.go")])
p("C23", "Keypers running against Shuttermint complete the DKG and release usable keys",
  "When at least threshold many keypers of a config are online and following the protocol, the eon's DKG ends with the same eon public key at all of them, and messages encrypted to it for a batch can be decrypted with the epoch secret key all of them obtain after the batch ended. Offline keypers, keypers that come back later, and keypers sending wrong evaluations, missing or false accusations or apologies do not prevent or alter this. If fewer than the threshold succeed, the honest keypers vote for a restart and a later attempt with enough keypers succeeds.",
  ["schedules", "fault_sequences", "configurations"],
  "all keyper counts, thresholds, offline sets, Byzantine messages and schedules of steps and block deliveries",
  "Unit tests never connect a keyper to the application; the only end-to-end test is a manual sandbox.",
  [KP + "decide.go", AP + "app.go", AP + "dkg.go", KP + "observe/shutter.go", KP + "epochkg/epochkg.go"],
  [("Decider DKG steps with phase lengths", KP + "decide.go handleDKG..."), ("relay", AP + "app.go")])
p("C24", "A keyper restarted from its saved state continues as if it had never stopped",
  "Saving a keyper's state at any point and restarting from the saved state yields the same sequence of Shuttermint messages and main chain transactions as an uninterrupted run, including DKG progress, polynomials, epoch keys, signatures, and execution and appeal bookkeeping. A crash between saving state and carrying out the decided actions neither loses nor duplicates an action. Randomly chosen secrets of a DKG are kept, so that a restart never deals two different polynomials for one eon.",
  ["crash_points", "histories"],
  "all crash points between and within steps, all histories",
  "Tests gob-encode single structs; none restarts a keyper.",
  [KP + "keyper.go", KP + "decide.go", KP + "fx/runenv.go", KP + "fx/pending.go"],
  [("State saved before actions run, action counter", KP + "keyper.go"), ("gob encodings", KP + "decide.go, shlib")])
p("C25", "Keypers release an epoch's key share only after its batch is over, exactly once",
  "A keyper publishes its epoch secret key share for a batch only once the main chain it observes has reached the batch's end block, never earlier; and for every batch of an active config with a finished DKG that it handles before the batch times out, it publishes exactly one share made with the eon responsible for that batch. The batch boundary used is the one the config contract defines. Shares are not skipped or repeated however many blocks are processed at once.",
  ["histories", "schedules", "configurations"],
  "all block schedules, config lists with arbitrary spans and starts, eon switches and step granularities",
  "Tests cover the batch index arithmetic on a handful of values only.",
  [KP + "decide.go", "shuttermint/contract/config.go", KP + "observe/mainchain.go", KP + "observe/shutter.go"],
  [("sendEpochSecretKeyShares", KP + "decide.go"), ("BatchIndex/BatchEndBlock", "shuttermint/contract/config.go")])
p("C26", "Keypers decrypt and sign exactly the transactions of the batch on the main chain",
  "Once the batch is over on the main chain it observes and the epoch secret key is known, a keyper's decrypted batch contains exactly the decryptable cipher transactions added to the batch on the main chain, shuffled by the key, where undecryptable ones are dropped without affecting the others (plain transactions are executed separately, in order). If the batch is not empty, has not timed out and lacks signatures, the keyper sends a decryption signature: its own signature over the hash binding batcher contract, batch index, cipher batch hash and decrypted batch hash, once per batch. It counts signatures of others only if made by a keyper of the batch's config over the same hash and in the form the slasher contract accepts.",
  ["inputs", "histories"],
  "all mixes of good, garbage and foreign-epoch ciphertexts, all keyper sets and forged or replayed signatures",
  "No test decrypts a batch in the keyper.",
  [KP + "decide.go", "shuttermint/medley/txbatch/txbatch.go", KP + "observe/mainchain.go"],
  [("decryptTransactions, hash chain and signing preimage", KP + "decide.go")])
p("C27", "Keypers execute half steps in order, on schedule, once, and validly signed",
  "A keyper sends an execution transaction only for half steps the executor contract will accept: in order, with the decrypted transactions of the batch that a threshold of keypers signed, or a skip only after the execution timeout. The responsible keyper acts first and the others only after the staggered delay of their place, which never pushes them beyond the point where they could act in time. No half step is executed twice by the same keyper, and a finished half step always leads to the next.",
  ["schedules", "histories", "configurations"],
  "all keyper counts, indices, delays, timeouts, signature arrival orders, skipped and foreign executions",
  "Only the delay computation is unit-tested for few values, if at all.",
  [KP + "decide.go", KP + "observe/mainchain.go"],
  [("executionDelay/maybeExecute...", KP + "decide.go"), ("receipts and NumExecutionHalfSteps", KP + "observe/mainchain.go")])
p("C28", "Keypers accuse wrong executions and appeal so that the slasher accepts it",
  "A keyper of the batch's config accuses the executor of a cipher half step exactly when the executed batch differs from the one it decrypted itself (whichever happened first) and nobody has been accused for it yet, once, and never when they agree. When anyone is accused for an execution that agrees with its own decryption and it holds a threshold of signatures, it sends an appeal that the keyper slasher contract accepts: sorted signer indices and valid signatures for exactly that batch. Appeals and accusations whose transaction cannot be accepted are not repeated forever.",
  ["histories", "inputs", "fault_sequences"],
  "all combinations of receipts, accusations, available signatures (including malleated ones), signer sets and orders",
  "No test covers accusations or appeals.",
  [KP + "decide.go", KP + "fx/runenv.go", KP + "observe/mainchain.go"],
  [("maybeAppeal/maybeAccuse", KP + "decide.go"), ("KeyperSlasher.appeal", "contracts/contracts/KeyperSlasher.sol")])
p("C29", "A keyper's view of Shuttermint depends only on the chain, not on how it syncs",
  "After syncing to a height the keyper's picture of Shuttermint (configs, check-ins, eons with the messages sent after their start, batches with signatures) contains exactly the events up to that height, each once and in chain order, whether it was synced block by block, in jumps, or after restarts, failing requests and while connected to a node that lags behind. Previously obtained snapshots do not change when syncing continues. Discarding of old data never removes an event the keyper has not processed.",
  ["schedules", "histories", "fault_sequences"],
  "all event histories, all sync step patterns, request failures and filter settings",
  "Tests apply a filter to two hand-made states.",
  [KP + "observe/shutter.go"],
  [("SyncToHead/fetchAndApplyEvents", KP + "observe/shutter.go"), ("ApplyFilter", KP + "observe/shutter.go")])
p("C30", "A keyper's view of the main chain equals the contracts' state, however it syncs",
  "After syncing, the keyper's picture of the main chain agrees with the contracts at the followed block: all batch configs, all transactions of every batch in contract order, executions with their receipts, accusations, deposits, the keyper slasher's state and the number of executed half steps. Blocks at the follow distance are taken to be final. It never looks beyond the follow distance, is independent of sync step sizes and of failing requests, and never moves backwards or double counts an event when a node reports an older head. Snapshots handed out earlier stay unchanged.",
  ["histories", "schedules", "fault_sequences"],
  "all contract call histories, sync step patterns, request failures and head regressions",
  "No test syncs against contracts.",
  [KP + "observe/mainchain.go"],
  [("SyncToHead with FollowDistance", KP + "observe/mainchain.go")])
p("C31", "Batch arithmetic agrees with the config contract for every block and batch",
  "For every valid list of batch configs (as the config contract admits them: start blocks ascending, keypers distinct), the batch a block belongs to, the start and end block of a batch, the config responsible for a batch or block and whether it is active are, as the keyper computes them, those the contracts compute, wherever the contracts give an answer; end of submission and execution timeout are the same block for keypers and contracts. Batches of consecutive indices are adjacent, and every block from the first active config's start on belongs to exactly one batch. Blocks outside any active config are reported as such.",
  ["configurations", "inputs"],
  "all config lists (spans, starts, thresholds near 0 and 2^64), all blocks and batch indices",
  "Tests check one list of three configs.",
  ["shuttermint/contract/config.go", "shuttermint/contract/caller.go"],
  [("BatchConfig methods", "shuttermint/contract/config.go")])
p("C32", "Configuration files round-trip without loss and invalid ones are refused",
  "A keyper configuration written to file and read back is equal in every setting, including keys, addresses, numbers and texts with special characters, and a keyper started from file and environment uses exactly these values (environment first). A valid batch config or list of contract addresses exported as JSON and read again is the same. Settings of the wrong type, malformed keys or addresses, negative, fractional or too large numbers, missing keys or contract addresses, an Ethereum URL that isn't a websocket URL, and impossible thresholds are refused with an error before anything is started, instead of being silently replaced or crashing the program.",
  ["inputs", "configurations"],
  "all configuration values (numbers below 2^63 in TOML); all single-setting corruptions of the listed kinds",
  "Tests read one sample configuration.",
  [KP + "config.go", KP + "gaspricer/gaspricer.go", "shuttermint/contract/config.go", "shuttermint/cmd/keyper.go", "shuttermint/cmd/prepare/configs.go", "shuttermint/cmd/deploy/contracts.go"],
  [("TOML template and viper hooks", KP + "config.go"), ("MarshalJSON/UnmarshalJSON", "shuttermint/contract/config.go"), ("readKeyperConfig", "shuttermint/cmd/keyper.go")])
p("C33", "Decided actions are carried out in order, at least once, and survive restarts",
  "Every action handed to the keyper's action queue is carried out: Shuttermint messages are sent one after another in the order decided and again after failures until Shuttermint accepted or refused them, main chain transactions are retried after failures and given up only when they have become pointless or were mined. Handing over the same actions again after a crash does not duplicate them. After a restart from disk every unfinished action, and no finished one, is resumed.",
  ["fault_sequences", "crash_points", "schedules"],
  "all sequences of actions, transient and permanent failures, expiry, crashes and restarts",
  "Tests encode an action and add two actions to a list.",
  [KP + "fx/runenv.go", KP + "fx/pending.go", KP + "fx/actions.go", KP + "fx/messagesender.go"],
  [("PendingActions", KP + "fx/pending.go"), ("RunEnv workers", KP + "fx/runenv.go")])
p("C34", "Batch configs set and scheduled with the tool are exactly the given ones",
  "Setting the next batch config from a file leaves exactly that config in the config contract, whatever the next config was before and however often the attempt failed and was repeated; scheduled configs do not change. If the file leaves the start open, the tool chooses one that continues the last config at a batch boundary, not before its start, and that the contract accepts for scheduling. Scheduling schedules exactly the next config and reports success if and only if it was scheduled; queries show exactly what is in the contract. Transactions of somebody else than the owner are reported as failures.",
  ["inputs", "operation_sequences", "fault_sequences"],
  "all previous next configs, scheduled configs and given configs (distinct keypers), failures of single requests",
  "Tests do not touch a chain.",
  ["shuttermint/contract/config.go", "shuttermint/cmd/config/setnext.go", "shuttermint/cmd/config/schedule.go", "shuttermint/cmd/config/query.go", "shuttermint/medley/txbatch/txbatch.go"],
  [("SetNextBatchConfig", "shuttermint/contract/config.go"), ("chooseStartBlockAndBatch", "shuttermint/cmd/config/setnext.go"), ("TXBatch", "shuttermint/medley/txbatch/txbatch.go")])

p("C35", "Batch configs scheduled on the main chain reach Shuttermint, unchanged, in order",
  "Keypers vote for each config that is scheduled on the main chain (and not unscheduled again) exactly as it stands there: start batch, keypers in order, threshold, config contract and index. Each keyper of the config before votes once, in the order of the indexes, and for nothing else, in particular not for configs that Shuttermint can't accept (without keypers, or with a threshold of zero or above their number), which don't hold up later ones either. Every config after the first that Shuttermint accepts equals the one on the main chain, and if threshold many keypers of the last accepted config are online for long enough, the next one is accepted, whenever it was scheduled and however far the keypers lag behind.",
  ["histories", "schedules", "configurations"],
  "all lists of configs the contract accepts, all schedules and views of the keypers",
  "Tests feed single votes to the application; no test lets keypers follow a config contract.",
  [KP + "decide.go", KP + "observe/mainchain.go", AP + "app.go", AP + "voting.go", "shuttermint/shmsg/messages.go"],
  [("maybeSendBatchConfig", KP + "decide.go"), ("ConfigVoting", AP + "voting.go"), ("syncConfigs", KP + "observe/mainchain.go")])

p("C36", "The JavaScript library encrypts, decrypts and verifies keys like the keypers",
  "For every message, eon public key, epoch and sigma, the WebAssembly library used by browsers and node programs returns the same ciphertext as the Go code, which keypers and the library decrypt to exactly that message with the epoch's secret key. It accepts an epoch secret key if and only if it is the one of that eon and epoch. Byte arguments may be any Uint8Array, Uint8ClampedArray or view. Missing, superfluous or malformed arguments (wrong type or length, not a point of the group) are answered with an error text; the library never stops working, never changes its arguments, and later calls are not disturbed.",
  ["inputs", "operation_sequences"],
  "all messages, keys, epochs and sigmas; all sequences of calls with altered, missing, exchanged or additional arguments of any JavaScript type",
  "No test builds or calls the library.",
  ["shuttermint/shcryptowasm/both_wasm.go", "shuttermint/shcryptowasm/encrypt_wasm.go", "shuttermint/shcryptowasm/decrypt_wasm.go"],
  [("encrypt, decrypt, verify and the decoding of their arguments", "shuttermint/shcryptowasm/both_wasm.go")])

p("C37", "Nodes set up by init run the chain and survive crashes without losing anything",
  "The files init writes are those of a working node: keys, a genesis with exactly the given keypers, the threshold 2/3 of them rounded up and the node itself as validator, ports and time-outs for the given index and block time, the given mode; a malformed address is refused before a genesis is written, and running init again keeps keys, genesis and what the validator has signed. A node started from them executes the transactions it takes as the application specifies: every transaction it took is in the chain unless it became unacceptable, with the results and events of the application, and its validators are those the application asks for. Stopping, killing or setting up the node again at any moment changes no block that was seen: after a restart it continues the same chain with the same application state, whatever has been stored, and keypers syncing from it see exactly the accepted messages. Several nodes with the genesis of one form one chain: they agree on every block, its results and the validators, and the chain goes on exactly as long as nodes with more than two thirds of the validators' power run, whoever is killed and started again.",
  ["operation_sequences", "crash_points", "configurations"],
  "all sequences of transactions, kills, stops, renewed inits and restarts at any time, of one or several nodes, all storing intervals, all settings of init",
  "The application's tests call its methods directly; no test runs init, or the chain program under Tendermint, or kills it.",
  ["shuttermint/cmd/init.go", "shuttermint/cmd/chain.go", AP + "app.go", AP + "types.go", KP + "observe/shutter.go"],
  [("initFiles", "shuttermint/cmd/init.go"), ("newTendermint", "shuttermint/cmd/chain.go"), ("PersistToDisk, Info, Commit", AP + "app.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
