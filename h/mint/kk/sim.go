package kk

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ek"
	"verif/mint/tk"
	"verif/vh"
)

const pool = 5

// Mix says what a run is about.
type Mix struct {
	Focus string // the property: C25, C26, C27 or C28
	// weights out of 100
	Steps, Turns       int
	Lag                int
	Txs, Garbage       int
	ByzSign, ByzShare  int
	ByzExec, ByzAccuse int
	Jump, Fork         int
	BigSteps           int
	Configs            int
	Rounds             int  // without trouble at the end
	Finish             bool // maybe go on until everything is executed
	Restart            int  // keypers that are restarted have twins that aren't
}

// Eon is an eon as started on Shuttermint.
type Eon struct {
	Eon, Start uint64
	Height     int64 // of the start event
	Done       int64 // height at which the DKG ends
	Keypers    []common.Address
	Threshold  uint64
	Res        []puredkg.Result
	Failed     map[int]bool // keypers without a result
}

func (e *Eon) index(a common.Address) int {
	for i, k := range e.Keypers {
		if k == a {
			return i
		}
	}
	return -1
}

type shConfig struct {
	height    int64
	index     uint64
	start     uint64
	keypers   []common.Address
	threshold uint64
}

type sigEv struct {
	height int64
	batch  uint64
	sender common.Address
	sig    []byte
}

type shareEv struct {
	height     int64
	eon, epoch uint64
	sender     common.Address
	valid      bool
}

type accusation struct {
	block, half uint64
	appealed    uint64 // block or 0
}

type execution struct {
	block uint64
	hash  common.Hash
}

// mbatch is what the model knows about a batch a keyper could decrypt.
type mbatch struct {
	txs    [][]byte
	hash   common.Hash
	sign   []byte
	empty  bool
	sigs   map[common.Address][]byte
	signed bool
}

// Kp is a keyper.
type Kp struct {
	s      *Sim
	id     int
	key    *ecdsa.PrivateKey
	addr   common.Address
	cfg    keyper.Config
	st     *keyper.State
	main   *observe.MainChain
	sh     *observe.Shutter
	caller *contract.Caller
	outbox []*shmsg.Message
	txs    []fx.MainChainTX
	twin   *twin

	// model
	decided int64 // height of the last decision
	next    uint64
	shared  map[uint64]bool
	got     map[string]map[common.Address]bool // eon/epoch -> senders of valid shares
	batches map[uint64]*mbatch
	pending *uint64
	sent    map[string]bool
	accused map[uint64]bool
	judged  map[uint64]bool
	appeals map[uint64]bool
}

// Sim is a run.
type Sim struct {
	t       *rapid.T
	c       *vh.C
	mix     Mix
	O       *ek.Ops
	tc      *tk.Chain
	keys    []*ecdsa.PrivateKey
	byz     map[int]bool
	Kps     []*Kp
	eons    []*Eon
	cfgs    []shConfig
	sigs    []sigEv
	shs     []shareEv
	acc     map[uint64]*accusation // by half step
	exec    map[uint64]*execution  // cipher half step -> last receipt
	evs     []abcitypes.Event      // of the next Shuttermint block
	post    []func(h int64)
	keyC    map[string]*shcrypto.EpochSecretKey
	hist    []string
	stop    bool
	touched map[uint64]bool // half steps with accusations in the block under construction
	N       map[string]int
	dir     string
}

func (s *Sim) logf(f string, a ...interface{}) {
	s.hist = append(s.hist, fmt.Sprintf("[%d/%d] ", s.O.Head(), s.tc.Height())+fmt.Sprintf(f, a...))
}

func (s *Sim) count(what string) { s.N[what]++ }

// fail reports a violation if it is about the property in focus and ends the run otherwise.
func (s *Sim) fail(prop, f string, a ...interface{}) {
	if prop == s.mix.Focus {
		h := s.hist
		if len(h) > 400 {
			h = h[len(h)-400:]
		}
		s.t.Fatalf("%s\n%s\n%s", fmt.Sprintf(f, a...), s.describe(), strings.Join(h, "\n"))
	}
	s.stop = true
	s.count("stopped at a violation of " + prop)
}

func (s *Sim) describe() string {
	var b strings.Builder
	for i, c := range s.O.Configs {
		fmt.Fprintf(&b, "config %d: batch %d block %d span %d timeout %d threshold %d keypers %s\n", i, c.StartBatchIndex, c.StartBlockNumber, c.BatchSpan, c.ExecutionTimeout, c.Threshold, s.names(c.Keypers))
	}
	for _, e := range s.eons {
		fmt.Fprintf(&b, "eon %d: batch %d height %d done %d\n", e.Eon, e.Start, e.Height, e.Done)
	}
	for _, k := range s.Kps {
		fmt.Fprintf(&b, "k%d: staggering %d follow distance %d\n", k.id, k.cfg.ExecutionStaggering, k.cfg.MainChainFollowDistance)
	}
	return b.String()
}

func (s *Sim) name(a common.Address) string {
	for i, k := range s.keys {
		if ek.Addr(k) == a {
			if s.byz[i] {
				return fmt.Sprintf("b%d", i)
			}
			return fmt.Sprintf("k%d", i)
		}
	}
	return a.Hex()
}

func (s *Sim) names(as []common.Address) string {
	var r []string
	for _, a := range as {
		r = append(r, s.name(a))
	}
	return strings.Join(r, ",")
}

func (s *Sim) pct(n int, what string) bool {
	return n > 0 && vh.Pct(n).Draw(s.t, what)
}

// New sets up keypers, chains and a first config.
func New(t *rapid.T, c *vh.C, mix Mix) *Sim {
	s := &Sim{
		t: t, c: c, mix: mix, keys: ek.Keys(pool), tc: tk.New("kk"), byz: map[int]bool{}, acc: map[uint64]*accusation{},
		exec: map[uint64]*execution{}, keyC: map[string]*shcrypto.EpochSecretKey{}, N: map[string]int{},
		touched: map[uint64]bool{},
	}
	s.O = ek.NewOps(s.keys)
	lo := 0
	if mix.ByzExec+mix.ByzAccuse > 20 {
		lo = 1
	}
	for i := rapid.IntRange(lo, 2).Draw(t, "Byzantine keypers"); i > 0; i-- {
		s.byz[rapid.IntRange(0, pool-1).Draw(t, "Byzantine")] = true
	}
	s.logf("Byzantine: %v", s.byz)
	for i, k := range s.keys {
		s.O.Fund(ek.Addr(k), new(big.Int).Lsh(big.NewInt(1), 100))
		if s.byz[i] {
			continue
		}
		follow := uint64(0)
		if s.pct(mix.Lag, "follows at a distance") {
			follow = rapid.Uint64Range(1, 3).Draw(t, "follow distance")
		}
		s.Kps = append(s.Kps, &Kp{
			s: s, id: i, key: k, addr: ek.Addr(k), st: keyper.NewState(), main: observe.NewMainChain(follow), sh: observe.NewShutter(), caller: s.O.Caller(k),
			cfg: keyper.Config{
				SigningKey: k, ConfigContractAddress: s.O.Config, BatcherContractAddress: s.O.Batcher, KeyBroadcastContractAddress: s.O.KeyBroadcast,
				ExecutorContractAddress: s.O.Executor, DepositContractAddress: s.O.Deposit, KeyperSlasherAddress: s.O.Slasher,
				MainChainFollowDistance: follow, ExecutionStaggering: rapid.Uint64Range(0, 6).Draw(t, "staggering"), DKGPhaseLength: 10,
			},
			shared: map[uint64]bool{}, got: map[string]map[common.Address]bool{}, batches: map[uint64]*mbatch{}, sent: map[string]bool{},
			accused: map[uint64]bool{}, judged: map[uint64]bool{}, appeals: map[uint64]bool{},
		})
		k := s.Kps[len(s.Kps)-1]
		if mix.Restart > 0 {
			k.twin = &twin{st: keyper.NewState(), main: observe.NewMainChain(follow), sh: observe.NewShutter()}
		}
		for _, st := range k.states() {
			st.CheckInMessageSent, st.LastEonStarted = true, ^uint64(0)
		}
	}
	// the guard element
	s.cfgs = append(s.cfgs, shConfig{height: 1, keypers: s.addrs(), threshold: pool})
	s.event(&shutterevents.BatchConfig{Keypers: s.addrs(), Threshold: pool})
	s.shBlock(0)
	s.schedule()
	return s
}

func (s *Sim) addrs() []common.Address {
	var r []common.Address
	for _, k := range s.keys {
		r = append(r, ek.Addr(k))
	}
	return r
}

func (s *Sim) event(e interface{ MakeABCIEvent() abcitypes.Event }) {
	s.evs = append(s.evs, e.MakeABCIEvent())
}

// later registers what the model has to know about the event added before.
func (s *Sim) later(f func(h int64)) { s.post = append(s.post, f) }

// shBlock makes a Shuttermint block of the events collected and more empty ones.
func (s *Sim) shBlock(empty int) {
	var raws [][]byte
	var res []abcitypes.ResponseDeliverTx
	h := s.tc.Height() + 1
	for i, e := range s.evs {
		raws = append(raws, []byte(fmt.Sprint("transaction ", h, " ", i)))
		res = append(res, abcitypes.ResponseDeliverTx{Events: []abcitypes.Event{e}})
	}
	s.tc.Add(raws, res)
	for _, f := range s.post {
		f(h)
	}
	s.evs, s.post = nil, nil
	for ; empty > 0; empty-- {
		s.tc.Add(nil, nil)
	}
}

// schedule adds a config on the main chain.
func (s *Sim) schedule() {
	last := s.O.Configs[len(s.O.Configs)-1]
	next := s.O.Head() + 1
	earliest := next + ek.HeadsUp + 1
	if last.BatchSpan > ek.HeadsUp {
		earliest = next + last.BatchSpan + 1
	}
	if earliest <= last.StartBlockNumber {
		earliest = last.StartBlockNumber + 1
	}
	timeout := rapid.Uint64Range(8, 50).Draw(s.t, "timeout")
	if s.pct(20, "short timeout") {
		timeout = rapid.Uint64Range(1, 8).Draw(s.t, "timeout")
	}
	bc := contract.BatchConfig{
		BatchSpan: rapid.Uint64Range(1, 8).Draw(s.t, "span"), ExecutionTimeout: timeout,
		BatchSizeLimit: 5000, TransactionSizeLimit: 1000, TransactionGasLimit: 50_000,
		FeeReceiver: common.BytesToAddress([]byte{9, 9}), TargetAddress: s.O.Target, TargetFunctionSelector: [4]byte{1, 2, 3, byte(next)},
	}
	if last.BatchSpan > 0 && s.pct(15, "inactive") {
		bc.BatchSpan = 0
	}
	n := 1 + vh.Pick(4).Draw(s.t, "keypers")
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(s.t, "who")
	for _, i := range perm[:n] {
		bc.Keypers = append(bc.Keypers, ek.Addr(s.keys[i]))
	}
	bc.Threshold = rapid.Uint64Range(1, uint64(n)).Draw(s.t, "threshold")
	if bc.BatchSpan > 0 && s.pct(3, "nobody") {
		bc.Keypers, bc.Threshold = nil, 0
	}
	if last.BatchSpan == 0 {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex, earliest+rapid.Uint64Range(0, 4).Draw(s.t, "later")
	} else {
		d := (earliest - last.StartBlockNumber + last.BatchSpan - 1) / last.BatchSpan
		d += rapid.Uint64Range(0, 3).Draw(s.t, "batches later")
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+d, last.StartBlockNumber+d*last.BatchSpan
	}
	if err := s.O.Schedule(bc); err != nil {
		vh.Harness(err, "schedule")
	}
	s.O.Configs = append(s.O.Configs, bc)
	s.logf("scheduled config %d: batch %d block %d span %d timeout %d threshold %d keypers %s", len(s.O.Configs)-1, bc.StartBatchIndex, bc.StartBlockNumber, bc.BatchSpan, bc.ExecutionTimeout, bc.Threshold, s.names(bc.Keypers))
	s.count("configs")
}

// adopt lets Shuttermint learn the next config and start its eon.
func (s *Sim) adopt() bool {
	i := 1
	if len(s.cfgs) > 0 {
		i = int(s.cfgs[len(s.cfgs)-1].index) + 1
	}
	for i < len(s.O.Configs) && len(s.O.Configs[i].Keypers) == 0 {
		i++ // Shuttermint doesn't accept it
	}
	if i >= len(s.O.Configs) {
		return false
	}
	bc := s.O.Configs[i]
	s.event(&shutterevents.BatchConfig{
		StartBatchIndex: bc.StartBatchIndex, Keypers: bc.Keypers, Threshold: bc.Threshold, ConfigIndex: uint64(i), ConfigContractAddress: s.O.Config,
	})
	s.later(func(h int64) {
		s.cfgs = append(s.cfgs, shConfig{height: h, index: uint64(i), start: bc.StartBatchIndex, keypers: bc.Keypers, threshold: bc.Threshold})
		s.logf("Shuttermint accepted config %d", i)
	})
	s.startEon(bc.StartBatchIndex, bc.Keypers, bc.Threshold)
	s.shBlock(0)
	return true
}

func (s *Sim) startEon(start uint64, keypers []common.Address, threshold uint64) {
	n := uint64(len(s.eons) + 1)
	e := &Eon{Eon: n, Start: start, Keypers: keypers, Threshold: threshold, Failed: map[int]bool{}}
	for _, r := range DKG(len(keypers), int(threshold), int(n)%3) {
		r.Eon = n
		e.Res = append(e.Res, r)
	}
	takes := rapid.Int64Range(1, 8).Draw(s.t, "DKG takes")
	for i := range s.keys {
		if s.pct(10, "DKG failure") {
			e.Failed[i] = true
		}
	}
	s.event(&shutterevents.EonStarted{Eon: n, BatchIndex: start})
	s.later(func(h int64) {
		e.Height, e.Done = h, h+takes
		s.eons = append(s.eons, e)
		s.logf("eon %d starts for batches from %d on, DKG ends at %d", n, start, e.Done)
	})
	s.count("eons")
}

func (s *Sim) eon(n uint64) *Eon {
	if n >= 1 && n <= uint64(len(s.eons)) {
		return s.eons[n-1]
	}
	return nil
}

// eonFor is the eon responsible for a batch at a height.
func (s *Sim) eonFor(batch uint64, h int64) *Eon {
	for i := len(s.eons) - 1; i >= 0; i-- {
		if e := s.eons[i]; e.Height <= h && e.Start <= batch {
			return e
		}
	}
	return nil
}

func (s *Sim) shConfigFor(batch uint64, h int64) *shConfig {
	for i := len(s.cfgs) - 1; i >= 0; i-- {
		if c := &s.cfgs[i]; c.height <= h && c.start <= batch {
			return c
		}
	}
	return nil
}

func (s *Sim) keyFor(e *Eon, batch uint64) *shcrypto.EpochSecretKey {
	id := fmt.Sprint(e.Eon, " ", batch)
	if k, ok := s.keyC[id]; ok {
		return k
	}
	k := EpochKey(e.Res, batch)
	s.keyC[id] = k
	return k
}

// shareOf is the one valid share of a keyper.
func (s *Sim) shareOf(e *Eon, i int, epoch uint64) *shcrypto.EpochSecretKeyShare {
	id := fmt.Sprint(len(e.Keypers), " ", e.Threshold, " ", e.Eon%3, " ", i, " ", epoch)
	shareMu.Lock()
	defer shareMu.Unlock()
	if len(shareC) > 20000 {
		shareC = map[string]*shcrypto.EpochSecretKeyShare{}
	}
	if shareC[id] == nil {
		shareC[id] = shcrypto.ComputeEpochSecretKeyShare(e.Res[i].SecretKeyShare, shcrypto.ComputeEpochID(EpochBytes(epoch)))
	}
	return shareC[id]
}

var (
	shareMu sync.Mutex
	shareC  = map[string]*shcrypto.EpochSecretKeyShare{}
)

// configAt is the config in force at a block.
func (s *Sim) configAt(b uint64) int {
	for i := len(s.O.Configs) - 1; i >= 0; i-- {
		if s.O.Configs[i].StartBlockNumber <= b {
			return i
		}
	}
	return 0
}

// closed is the number of the first batch that isn't over at a block.
func (s *Sim) closed(b uint64) uint64 {
	c := s.O.Configs[s.configAt(b)]
	if c.BatchSpan == 0 {
		return c.StartBatchIndex
	}
	return c.StartBatchIndex + (b-c.StartBlockNumber)/c.BatchSpan
}

func end(c *contract.BatchConfig, batch uint64) uint64 {
	return c.StartBlockNumber + (batch-c.StartBatchIndex+1)*c.BatchSpan
}

// batchConfig is the config of a batch, if it is one of an active config.
func (s *Sim) batchConfig(batch uint64) (*contract.BatchConfig, bool) {
	for i := len(s.O.Configs) - 1; i >= 0; i-- {
		if s.O.Configs[i].StartBatchIndex <= batch {
			return &s.O.Configs[i], s.O.Configs[i].BatchSpan > 0
		}
	}
	return nil, false
}

func indexOf(as []common.Address, a common.Address) int {
	for i, x := range as {
		if x == a {
			return i
		}
	}
	return -1
}

// mine makes main chain blocks, the first with the transactions sent so far.
func (s *Sim) mine(n int) {
	for ; n > 0; n-- {
		from := s.O.Head()
		s.O.Mine(1)
		s.touched = map[uint64]bool{}
		for _, l := range s.O.Logs(from + 1) {
			s.seen(from+1, l)
		}
	}
}

// seen keeps track of what happened in a block.
func (s *Sim) seen(block uint64, l *types.Log) {
	switch {
	case l.Address == s.O.Slasher && l.Topics[0] == ek.SlasherABI.Events["Accused"].ID:
		h := new(big.Int).SetBytes(l.Topics[1][:]).Uint64()
		s.acc[h] = &accusation{block: block, half: h}
		s.logf("accused for half step %d in block %d", h, block)
	case l.Address == s.O.Slasher && l.Topics[0] == ek.SlasherABI.Events["Appealed"].ID:
		h := new(big.Int).SetBytes(l.Topics[1][:]).Uint64()
		s.acc[h].appealed = block
		s.logf("appeal for half step %d in block %d", h, block)
	case l.Address == s.O.Executor && l.Topics[0] == ek.ExecutorABI.Events["BatchExecuted"].ID:
		n := new(big.Int).SetBytes(l.Data[:32]).Uint64() - 1
		s.logf("half step %d executed in block %d", n, block)
		if n%2 == 0 {
			s.exec[n] = &execution{block: block, hash: common.BytesToHash(l.Data[32:])}
		}
		s.count("half steps executed")
	case l.Address == s.O.Executor && l.Topics[0] == ek.ExecutorABI.Events["CipherExecutionSkipped"].ID:
		s.logf("half step %d skipped in block %d", new(big.Int).SetBytes(l.Data[:32]).Uint64()-1, block)
		s.count("half steps skipped")
	}
}

// addTx lets a user add a transaction to the open batch.
func (s *Sim) addTx() {
	b, ok := s.O.OpenBatch()
	if !ok {
		return
	}
	user := ek.Owner
	if s.pct(25, "plain") {
		tx := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(s.t, "plain tx")
		if s.O.Add(user, b, 1, tx) == nil {
			s.logf("plain transaction %x for batch %d", tx, b)
		}
		return
	}
	var raw []byte
	what := "garbage"
	e := s.eonFor(b, s.tc.Height())
	if e == nil || s.pct(s.mix.Garbage, "garbage") {
		switch k := vh.Pick(5).Draw(s.t, "what"); {
		case k == 0:
			raw = rapid.SliceOfN(rapid.Byte(), 1, 200).Draw(s.t, "bytes")
		case k == 1 && len(s.eons) > 0: // another epoch
			x := s.eons[rapid.IntRange(0, len(s.eons)-1).Draw(s.t, "eon")]
			raw = s.encrypt(x, b+1, []byte("another epoch"))
			what = "of another epoch"
		case k == 2 && len(s.eons) > 0: // another eon
			x := s.eons[rapid.IntRange(0, len(s.eons)-1).Draw(s.t, "eon")]
			raw = s.encrypt(x, b, []byte("maybe another eon"))
			what = fmt.Sprintf("of eon %d", x.Eon)
		case k == 3 && e != nil: // bits flipped
			raw = s.encrypt(e, b, rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(s.t, "message"))
			i := rapid.IntRange(0, len(raw)-1).Draw(s.t, "flip")
			raw[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(s.t, "bit"))
			what = "changed"
		case k == 4 && len(s.O.Added) > 0: // repeated
			raw = s.O.Added[rapid.IntRange(0, len(s.O.Added)-1).Draw(s.t, "repeat")].Tx
			what = "repeated"
		default:
			raw = []byte{1, 2, 3}
		}
	} else {
		raw = s.encrypt(e, b, rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(s.t, "message"))
		what = fmt.Sprintf("of eon %d", e.Eon)
	}
	if s.O.Add(user, b, 0, raw) == nil {
		s.logf("cipher transaction for batch %d, %s", b, what)
		s.count("cipher transactions")
		if what[0] != 'o' || what == "of another epoch" {
			s.count("odd cipher transactions")
		}
	}
}

func (s *Sim) encrypt(e *Eon, epoch uint64, m []byte) []byte {
	var sigma shcrypto.Block
	copy(sigma[:], crypto.Keccak256([]byte(fmt.Sprint(len(s.O.Added), " ", epoch)), m))
	return shcrypto.Encrypt(append(make([]byte, 0, len(m)), m...), e.Res[0].PublicKey, shcrypto.ComputeEpochID(EpochBytes(epoch)), sigma).Marshal()
}

// plain is what the ciphertexts of a batch decrypt to.
func (s *Sim) plain(e *Eon, batch uint64) [][]byte {
	key := s.keyFor(e, batch)
	var r [][]byte
	for _, raw := range s.O.BatchTxs(batch, 0, s.O.Head()) {
		var m shcrypto.EncryptedMessage
		if m.Unmarshal(raw) != nil {
			continue
		}
		p, err := m.Decrypt(key)
		if err != nil {
			continue
		}
		r = append(r, p)
	}
	return shcrypto.Shuffle(r, key)
}

// validSig says if a signature is one of sender that the slasher would accept.
func validSig(hash []byte, sender common.Address, sig []byte) bool {
	if len(sig) != 65 || sig[64] > 1 {
		return false
	}
	half := new(big.Int).Rsh(crypto.S256().Params().N, 1)
	if new(big.Int).SetBytes(sig[32:64]).Cmp(half) > 0 {
		return false
	}
	pub, err := crypto.SigToPub(hash, sig)
	return err == nil && crypto.PubkeyToAddress(*pub) == sender
}

// deliver posts what keypers want to say to Shuttermint.
func (s *Sim) deliver(k *Kp, n int) {
	for ; n > 0 && len(k.outbox) > 0; n-- {
		m := k.outbox[0]
		k.outbox = k.outbox[1:]
		switch {
		case m.GetEpochSecretKeyShare() != nil:
			x := m.GetEpochSecretKeyShare()
			sh := new(shcrypto.EpochSecretKeyShare)
			if err := sh.Unmarshal(x.Share); err != nil {
				continue
			}
			s.postShare(k.addr, x.Eon, x.Epoch, sh)
		case m.GetDecryptionSignature() != nil:
			x := m.GetDecryptionSignature()
			s.postSig(k.addr, x.BatchIndex, x.Signature)
		}
	}
}

func (s *Sim) postShare(sender common.Address, eon, epoch uint64, sh *shcrypto.EpochSecretKeyShare) {
	valid := false
	if e := s.eon(eon); e != nil {
		if i := e.index(sender); i >= 0 {
			valid = bytes.Equal(sh.Marshal(), s.shareOf(e, i, epoch).Marshal())
		}
	}
	s.event(&shutterevents.EpochSecretKeyShare{Sender: sender, Eon: eon, Epoch: epoch, Share: sh})
	s.later(func(h int64) {
		s.shs = append(s.shs, shareEv{height: h, eon: eon, epoch: epoch, sender: sender, valid: valid})
		s.logf("share of %s for %d in eon %d at %d, valid %v", s.name(sender), epoch, eon, h, valid)
	})
}

func (s *Sim) postSig(sender common.Address, batch uint64, sig []byte) {
	s.event(&shutterevents.DecryptionSignature{Sender: sender, BatchIndex: batch, Signature: sig})
	s.later(func(h int64) {
		s.sigs = append(s.sigs, sigEv{height: h, batch: batch, sender: sender, sig: sig})
		s.logf("signature of %s for %d at %d", s.name(sender), batch, h)
	})
}

// byzKey draws a Byzantine keyper.
func (s *Sim) byzKey() (int, bool) {
	var l []int
	for i := range s.keys {
		if s.byz[i] {
			l = append(l, i)
		}
	}
	if len(l) == 0 {
		return 0, false
	}
	return rapid.SampledFrom(l).Draw(s.t, "Byzantine"), true
}

// near draws a batch around the ones in progress.
func (s *Sim) near() uint64 {
	c := s.closed(s.O.Head())
	lo := uint64(0)
	if c > 6 {
		lo = c - 6
	}
	if n := len(s.O.Added); n > 0 && s.pct(67, "with transactions") {
		return s.O.Added[n-1-rapid.IntRange(0, min(n, 8)-1).Draw(s.t, "transaction")].Batch
	}
	return rapid.Uint64Range(lo, c+1).Draw(s.t, "batch")
}

func (s *Sim) byzShare() {
	i, ok := s.byzKey()
	if !ok || len(s.eons) == 0 {
		return
	}
	e := s.eons[rapid.IntRange(0, len(s.eons)-1).Draw(s.t, "eon")]
	x := s.near()
	if s.pct(67, "right eon") {
		if r := s.eonFor(x, s.tc.Height()); r != nil {
			e = r
		}
	}
	a := ek.Addr(s.keys[i])
	idx := e.index(a)
	if idx < 0 || s.tc.Height() < e.Done {
		return
	}
	n := x
	switch vh.Pick(5).Draw(s.t, "how") {
	case 0:
		n = x + 1
	case 1:
		idx = (idx + 1) % len(e.Res)
	}
	s.postShare(a, e.Eon, x, shcrypto.ComputeEpochSecretKeyShare(e.Res[idx].SecretKeyShare, shcrypto.ComputeEpochID(EpochBytes(n))))
	s.count("Byzantine shares")
}

func (s *Sim) byzSign() {
	i, ok := s.byzKey()
	if !ok {
		return
	}
	x := s.near()
	a := ek.Addr(s.keys[i])
	if s.pct(10, "other sender") {
		a = ek.Addr(s.keys[rapid.IntRange(0, pool-1).Draw(s.t, "sender")])
		for _, k := range s.Kps {
			if k.addr == a {
				a = ek.Owner
			}
		}
	}
	e := s.eonFor(x, s.tc.Height())
	if e == nil {
		return
	}
	hash := s.O.SigHash(x, ek.ChainHash(s.O.BatchTxs(x, 0, s.O.Head())), ek.ChainHash(s.plain(e, x)))
	how := vh.Pick(7).Draw(s.t, "how")
	if how == 1 {
		hash = crypto.Keccak256(hash)
	}
	sig, err := crypto.Sign(hash, s.keys[i])
	vh.Harness(err, "sign")
	what := "its own"
	switch how {
	case 1:
		what = "over another hash"
	case 2, 3:
		sig = Malleate(sig)
		what = "with the other s"
	case 4:
		sig = sig[:rapid.IntRange(0, 64).Draw(s.t, "length")]
		what = "cut"
	case 5:
		var l []sigEv
		for _, y := range s.sigs {
			if y.batch == x {
				l = append(l, y)
			}
		}
		if len(l) > 0 {
			sig = rapid.SampledFrom(l).Draw(s.t, "copied").sig
			what = "copied"
		}
	}
	s.logf("Byzantine signature of %s for %d, %s", s.name(a), x, what)
	s.postSig(a, x, sig)
	s.count("Byzantine signatures")
}

// Malleate makes the other signature of the same hash.
func Malleate(sig []byte) []byte {
	r := append([]byte{}, sig...)
	v := new(big.Int).Sub(crypto.S256().Params().N, new(big.Int).SetBytes(sig[32:64]))
	copy(r[32:64], common.LeftPadBytes(v.Bytes(), 32))
	r[64] ^= 1
	return r
}

// byzExec lets a Byzantine keyper execute the next half step, in its own way.
func (s *Sim) byzExec() {
	hs := s.O.HalfStepsNow()
	x := hs / 2
	c, ok := s.batchConfig(x)
	if !ok {
		return
	}
	i, ok := s.byzKey()
	if !ok {
		return
	}
	a := ek.Addr(s.keys[i])
	idx := indexOf(c.Keypers, a)
	if hs%2 == 1 {
		txs := s.O.BatchTxs(x, 1, s.O.Head()+1)
		if s.O.Exec(a, s.O.Executor, ek.ExecutorABI, "executePlainBatch", x, nonNil(txs)) == nil {
			s.count("foreign executions")
		}
		return
	}
	if idx < 0 {
		return
	}
	cipher := ek.ChainHash(s.O.BatchTxs(x, 0, s.O.Head()+1))
	if cipher == (common.Hash{}) && s.pct(80, "leave to others") {
		return
	}
	var txs [][]byte
	e := s.eonFor(x, s.tc.Height())
	if cipher != (common.Hash{}) {
		if e != nil {
			txs = s.plain(e, x)
		}
		switch vh.Pick(5).Draw(s.t, "how") {
		case 0:
			txs = nil
		case 1:
			txs = append(append([][]byte{}, txs...), []byte("one more"))
		case 2:
			if len(txs) > 1 {
				txs = append(append([][]byte{}, txs[1:]...), txs[0])
			}
		}
	}
	if s.O.Exec(a, s.O.Executor, ek.ExecutorABI, "executeCipherBatch", x, cipher, nonNil(txs), uint64(idx)) == nil {
		s.logf("%s executes half step %d with %d transactions", s.name(a), hs, len(txs))
		s.count("foreign executions")
	}
}

func nonNil(b [][]byte) [][]byte {
	if b == nil {
		return [][]byte{}
	}
	return b
}

// byzAccuse lets a Byzantine keyper accuse somebody.
func (s *Sim) byzAccuse() {
	hs := s.O.HalfStepsNow()
	if hs == 0 {
		return
	}
	var l []uint64
	for h := range s.exec {
		l = append(l, h)
	}
	if len(l) == 0 {
		return
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	if len(l) > 4 {
		l = l[len(l)-4:]
	}
	h := rapid.SampledFrom(l).Draw(s.t, "half step")
	c, ok := s.batchConfig(h / 2)
	i, ok2 := s.byzKey()
	if !ok || !ok2 {
		return
	}
	a := ek.Addr(s.keys[i])
	if idx := indexOf(c.Keypers, a); idx >= 0 && s.O.Accuse(a, h, uint64(idx)) == nil {
		s.touched[h] = true
		s.logf("%s accuses for half step %d", s.name(a), h)
		s.count("Byzantine accusations")
	}
}

// sync lets a keyper look at the chains.
func (k *Kp) sync(block uint64, height int64) {
	s := k.s
	if block > 0 {
		s.O.Visible = &block
		m, err := k.main.SyncToHead(context.Background(), k.caller)
		s.O.Visible = nil
		vh.Harness(err, "main chain sync")
		k.main = m
		if k.twin != nil {
			s.O.Visible = &block
			k.twin.main, err = k.twin.main.SyncToHead(context.Background(), k.caller)
			s.O.Visible = nil
			vh.Harness(err, "main chain sync")
		}
	}
	if height > 0 {
		s.tc.SetVisible(&height)
		sh, err := k.sh.SyncToHead(context.Background(), s.tc.Client())
		s.tc.SetVisible(nil)
		vh.Harness(err, "Shuttermint sync")
		k.sh = sh
		if k.twin != nil {
			s.tc.SetVisible(&height)
			k.twin.sh, err = k.twin.sh.SyncToHead(context.Background(), s.tc.Client())
			s.tc.SetVisible(nil)
			vh.Harness(err, "Shuttermint sync")
		}
	}
}

// step is one step of a keyper.
func (k *Kp) step() {
	s := k.s
	if k.main.CurrentBlock == 0 || k.sh.CurrentBlock < 1 {
		return
	}
	// the DKG's results are there as soon as it ends
	for _, e := range s.eons {
		i := e.index(k.addr)
		if i < 0 || e.Height > k.sh.CurrentBlock || k.sh.CurrentBlock+1 < e.Done || e.Failed[k.id] {
			continue
		}
		for _, st := range k.states() {
			if _, err := st.FindEKGByEon(e.Eon); err != nil {
				r := e.Res[i]
				st.EKGs = append(st.EKGs, &keyper.EKG{Eon: e.Eon, Keypers: e.Keypers, EpochKG: epochkg.NewEpochKG(&r)})
			}
		}
	}
	actions := k.decideBoth()
	if s.stop {
		return
	}
	s.count("decisions")
	k.judge(actions)
	if s.stop {
		return
	}
	for _, a := range actions {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			k.outbox = append(k.outbox, x.Msg)
		case fx.MainChainTX:
			k.txs = append(k.txs, x)
		}
	}
	if !s.pct(25, "filter late") {
		k.sh = k.sh.ApplyFilter(k.st.GetShutterFilter(k.main))
		if k.twin != nil {
			k.twin.sh = k.twin.sh.ApplyFilter(k.twin.st.GetShutterFilter(k.twin.main))
		}
	}
}

// send lets a keyper send main chain transactions.
func (k *Kp) send(n int) {
	for ; n > 0 && len(k.txs) > 0; n-- {
		a := k.txs[0]
		if a.IsExpired(observe.World{Shutter: k.sh, MainChain: k.main}) {
			k.txs = k.txs[1:]
			k.s.logf("k%d: expired %v", k.id, a)
			continue
		}
		auth, err := k.caller.Auth()
		vh.Harness(err, "auth")
		_, err = a.SendTX(k.caller, auth)
		if err != nil {
			var r fx.IRetriable
			if errors.As(err, &r) && !r.IsRetriable() {
				k.txs = k.txs[1:]
				continue
			}
			k.s.logf("k%d: cannot send %v: %v", k.id, a, err)
			k.s.count("refused transactions")
			return
		}
		k.s.logf("k%d: sent %v", k.id, a)
		k.txs = k.txs[1:]
	}
}
