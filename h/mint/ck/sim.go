// Package ck runs real keyper deciders against the real Shuttermint application and a stand-in for the main chain, from the scheduling of
// configs over the DKG to the execution of decrypted batches, with keypers that are offline, late or Byzantine, and compares what they do
// and what comes out with a model written from the statements of the properties C23, C24 and C35.
package ck

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/ed25519"
	"errors"
	"fmt"
	"math/big"
	"runtime"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/mint/ek"
	"verif/mint/tk"
	"verif/vh"
)

const pool = 5

// Mix says what a run is about.
type Mix struct {
	Focus   string
	Turns   int // at most
	Configs int // on the main chain
	Byz     int // percentages
	Late    int
	Odd     int // inactive configs, configs without keypers
	Restart int // restarts from the stored state
	Finish  bool
}

type msgIn struct {
	msg *shmsg.Message
	due int64
}

// Node is a keyper.
type Node struct {
	s      *Sim
	id     int
	key    *ecdsa.PrivateKey
	addr   common.Address
	byz    bool
	early  int64 // online from this height on, but not doing anything, as its main chain node is syncing
	from   int64 // online from this height on
	cfg    keyper.Config
	st     *keyper.State
	main   *observe.MainChain
	sh     *observe.Shutter
	caller *contract.Caller
	outbox []msgIn
	txs    []fx.MainChainTX
	m      *nodeModel
	twin   *twin
	plans  map[uint64]*plan // Byzantine
}

// Sim is a run.
type Sim struct {
	t       *rapid.T
	c       *vh.C
	mix     Mix
	O       *ek.Ops
	tc      *tk.Chain
	app     *app.ShutterApp
	keys    []*ecdsa.PrivateKey
	Nodes   []*Node
	L       int64
	lag     int64
	delay   int64
	nonce   uint64
	boot    *ecdsa.PrivateKey
	genesis []common.Address
	m       *model
	hist    []string
	stop    bool
	N       map[string]int
	dir     string
	seed    int64
	schedAt []uint64 // blocks of the configs, the guard's first
}

func (s *Sim) logf(f string, a ...interface{}) {
	s.hist = append(s.hist, fmt.Sprintf("[%d/%d] ", s.O.Head(), s.tc.Height())+fmt.Sprintf(f, a...))
}

func (s *Sim) count(what string) { s.N[what]++ }

func (s *Sim) fail(prop, f string, a ...interface{}) {
	if prop == s.mix.Focus || s.mix.Focus == "" {
		h := s.hist
		if len(h) > 500 {
			h = h[len(h)-500:]
		}
		s.t.Fatalf("%s\n%s\n%s", fmt.Sprintf(f, a...), s.describe(), strings.Join(h, "\n"))
	}
	s.stop = true
	s.count("stopped at a violation of " + prop)
}

func (s *Sim) describe() string {
	var b strings.Builder
	fmt.Fprintf(&b, "phase length %d, lag up to %d, delay up to %d\n", s.L, s.lag, s.delay)
	for i, c := range s.O.Configs {
		fmt.Fprintf(&b, "config %d: batch %d block %d span %d threshold %d keypers %s\n", i, c.StartBatchIndex, c.StartBlockNumber, c.BatchSpan, c.Threshold, s.names(c.Keypers))
	}
	for _, c := range s.m.cfgs {
		fmt.Fprintf(&b, "Shuttermint config %d at %d: batch %d threshold %d keypers %s\n", c.ConfigIndex, c.Height, c.StartBatchIndex, c.Threshold, s.names(c.Keypers))
	}
	for _, e := range s.m.eons {
		fmt.Fprintf(&b, "eon %d: batch %d height %d threshold %d keypers %s\n", e.n, e.start, e.S, e.cfg.Threshold, s.names(e.cfg.Keypers))
	}
	for _, k := range s.Nodes {
		fmt.Fprintf(&b, "%s: from %d\n", s.name(k.addr), k.from)
	}
	return b.String()
}

func (s *Sim) name(a common.Address) string {
	for i, k := range s.keys {
		if ek.Addr(k) == a {
			if s.Nodes[i].byz {
				return fmt.Sprintf("b%d", i)
			}
			return fmt.Sprintf("k%d", i)
		}
	}
	return a.Hex()[:8]
}

func (s *Sim) names(as []common.Address) string {
	var r []string
	for _, a := range as {
		r = append(r, s.name(a))
	}
	return strings.Join(r, ",")
}

func (s *Sim) pct(n int, what string) bool { return n > 0 && vh.Pct(n).Draw(s.t, what) }

const never = int64(1) << 60

func newSim(t *rapid.T, c *vh.C, mix Mix) *Sim {
	s := &Sim{t: t, c: c, mix: mix, keys: ek.Keys(pool), tc: tk.New(ak.Chain), N: map[string]int{}, boot: ak.Key(90), schedAt: []uint64{0}}
	s.O = ek.NewOps(s.keys)
	s.m = &model{s: s}
	s.L = rapid.Int64Range(6, 12).Draw(t, "phase length")
	room := (s.L - 3) / 2
	s.lag = rapid.Int64Range(0, room).Draw(t, "lag")
	s.delay = rapid.Int64Range(0, room-s.lag).Draw(t, "delay")
	nbyz, nlate, noff := 0, 0, 0
	if s.pct(mix.Byz, "with Byzantine keypers") {
		nbyz = rapid.IntRange(1, 2).Draw(t, "Byzantine keypers")
	}
	if s.pct(mix.Late, "with late keypers") {
		nlate = rapid.IntRange(1, 2).Draw(t, "late keypers")
	}
	if s.pct(20, "with offline keypers") {
		noff = 1
	}
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "roles")
	for i, key := range s.keys {
		s.O.Fund(ek.Addr(key), new(big.Int).Lsh(big.NewInt(1), 100))
		seed := crypto.Keccak256([]byte(fmt.Sprint("validator ", i)))
		enc, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprint("encryption ", i))))
		vh.Harness(err, "encryption key")
		k := &Node{
			s: s, id: i, key: key, addr: ek.Addr(key), st: keyper.NewState(), main: observe.NewMainChain(0), sh: observe.NewShutter(), caller: s.O.Caller(key),
			cfg: keyper.Config{
				SigningKey: key, ConfigContractAddress: s.O.Config, BatcherContractAddress: s.O.Batcher, KeyBroadcastContractAddress: s.O.KeyBroadcast,
				ExecutorContractAddress: s.O.Executor, DepositContractAddress: s.O.Deposit, KeyperSlasherAddress: s.O.Slasher,
				ExecutionStaggering: 2, DKGPhaseLength: uint64(s.L), ValidatorKey: ed25519.NewKeyFromSeed(seed), EncryptionKey: ecies.ImportECDSA(enc),
			},
			plans: map[uint64]*plan{},
		}
		k.m = newNodeModel()
		if mix.Restart > 0 {
			k.twin = &twin{st: keyper.NewState(), main: observe.NewMainChain(0), sh: observe.NewShutter()}
		}
		s.Nodes = append(s.Nodes, k)
	}
	for i, p := range perm {
		k := s.Nodes[p]
		switch {
		case i < nbyz:
			k.byz = true
		case i < nbyz+nlate:
			k.from = rapid.Int64Range(1, 8*s.L).Draw(t, "online from")
			if s.pct(50, "in the first DKG") {
				k.from = rapid.Int64Range(1, 4*s.L).Draw(t, "online from")
			}
			k.early = k.from
			if s.pct(50, "watches before") {
				k.early = rapid.Int64Range(0, k.from).Draw(t, "watches from")
			}
		case i < nbyz+nlate+noff:
			k.from, k.early = never, never
		}
	}
	s.genesis = []common.Address{crypto.PubkeyToAddress(s.boot.PublicKey)}
	s.app = app.NewShutterApp()
	s.app.InitChain(ak.Genesis{Keypers: s.genesis, Threshold: 1, Validators: map[string]int64{string(ak.Val(0)): 10}}.InitChain())
	s.m.cfgs = append(s.m.cfgs, shutterevents.BatchConfig{Keypers: s.genesis, Threshold: 1})
	s.schedule()
	return s
}

// schedule adds a config on the main chain.
func (s *Sim) schedule() {
	last := s.O.Configs[len(s.O.Configs)-1]
	next := s.O.Head() + 1
	earliest := next + ek.HeadsUp + 1
	if last.BatchSpan > ek.HeadsUp {
		earliest = next + last.BatchSpan + 1
	}
	if earliest <= last.StartBlockNumber {
		earliest = last.StartBlockNumber + 1
	}
	first := len(s.O.Configs) == 1
	bc := contract.BatchConfig{
		BatchSpan: rapid.Uint64Range(4, 12).Draw(s.t, "span"), ExecutionTimeout: rapid.Uint64Range(30, 60).Draw(s.t, "timeout"),
		BatchSizeLimit: 5000, TransactionSizeLimit: 1000, TransactionGasLimit: 50_000,
		FeeReceiver: common.BytesToAddress([]byte{9, 9}), TargetAddress: s.O.Target, TargetFunctionSelector: [4]byte{1, 2, 3, byte(next)},
	}
	if !first && last.BatchSpan > 0 && s.pct(s.mix.Odd, "inactive") {
		bc.BatchSpan = 0
	}
	n := []int{1, 2, 3, 3, 4, 4, 5, 5}[vh.Pick(8).Draw(s.t, "keypers")]
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(s.t, "who")
	for _, i := range perm[:n] {
		bc.Keypers = append(bc.Keypers, ek.Addr(s.keys[i]))
	}
	bc.Threshold = rapid.Uint64Range(1, uint64(n)).Draw(s.t, "threshold")
	if s.pct(15, "same keypers") && len(last.Keypers) > 0 {
		bc.Keypers, bc.Threshold = last.Keypers, last.Threshold
	}
	if !first && s.pct(s.mix.Odd, "nobody") {
		bc.Keypers, bc.Threshold = nil, 0
	} else if !first && s.pct(s.mix.Odd/3, "odd threshold") {
		bc.Threshold = rapid.SampledFrom([]uint64{0, uint64(len(bc.Keypers)) + 1}).Draw(s.t, "odd")
	}
	if last.BatchSpan == 0 {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex, earliest+rapid.Uint64Range(0, 4).Draw(s.t, "later")
	} else {
		d := (earliest - last.StartBlockNumber + last.BatchSpan - 1) / last.BatchSpan
		d += rapid.Uint64Range(0, 2).Draw(s.t, "batches later")
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+d, last.StartBlockNumber+d*last.BatchSpan
	}
	if s.O.Schedule(bc) != nil {
		s.count("refused configs")
		return
	}
	s.O.Configs = append(s.O.Configs, bc)
	s.O.Mine(1)
	s.schedAt = append(s.schedAt, s.O.Head())
	s.logf("scheduled config %d: batch %d block %d span %d threshold %d keypers %s", len(s.O.Configs)-1, bc.StartBatchIndex, bc.StartBlockNumber, bc.BatchSpan, bc.Threshold, s.names(bc.Keypers))
	s.count("configs")
}

// usable says if Shuttermint can take a config.
func usable(c *contract.BatchConfig) bool {
	return len(c.Keypers) > 0 && c.Threshold >= 1 && c.Threshold <= uint64(len(c.Keypers))
}

type draft struct {
	key *ecdsa.PrivateKey
	msg *shmsg.Message
	k   *Node
}

// block makes a Shuttermint block of what is due and what may be taken early.
func (s *Sim) block(extra []draft) {
	h := s.tc.Height() + 1
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(s.t, "order")
	var txs [][]byte
	var res []abcitypes.ResponseDeliverTx
	deliver := func(d draft) bool {
		s.nonce++
		raw := ak.Sign(d.key, ak.Chain, s.nonce, d.msg)
		if !ak.CheckTx(s.app, raw) {
			s.count("refused by CheckTx")
			return false
		}
		r := ak.Deliver(s.app, raw)
		txs, res = append(txs, raw), append(res, r)
		if r.Code == 0 {
			for _, ev := range r.Events {
				x, err := shutterevents.MakeEvent(ev, h)
				if err != nil {
					s.fail("C23", "event the keypers cannot read: %+v", err)
				} else {
					s.m.apply(h, x)
				}
			}
		}
		return true
	}
	for _, i := range perm {
		k := s.Nodes[i]
		limit := len(k.outbox)
		for n := 0; n < limit && len(k.outbox) > 0; n++ {
			if k.outbox[0].due > h && s.delay > 0 && !s.pct(50, "early") {
				break
			}
			m := k.outbox[0]
			if !deliver(draft{key: k.key, msg: m.msg, k: k}) {
				break
			}
			k.outbox = k.outbox[1:]
		}
		for _, d := range extra {
			if d.k == k {
				deliver(d)
			}
		}
	}
	for _, d := range extra {
		if d.k == nil {
			deliver(d)
		}
	}
	ak.EndBlock(s.app, h)
	s.app.Commit()
	s.tc.Add(txs, res)
}

// sync lets a keyper look at the chains.
func (k *Node) sync(block uint64, height int64) {
	s := k.s
	if block > 0 {
		s.O.Visible = &block
		if k.blind() {
			s.O.Syncing = func() interface{} {
				return map[string]interface{}{"startingBlock": "0x0", "currentBlock": "0x1", "highestBlock": "0x500", "pulledStates": "0x0", "knownStates": "0x0"}
			}
			defer func() { s.O.Syncing = nil }()
		} else if !k.main.IsSynced() && k.main.CurrentBlock == block {
			s.O.Mine(1)
			block++
		}
		m, err := k.main.SyncToHead(context.Background(), k.caller)
		vh.Harness(err, "main chain sync")
		k.main = m
		if k.twin != nil {
			m, err = k.twin.main.SyncToHead(context.Background(), k.caller)
			vh.Harness(err, "main chain sync")
			k.twin.main = m
		}
		s.O.Visible = nil
	}
	if height > 0 {
		s.tc.SetVisible(&height)
		sh, err := k.sh.SyncToHead(context.Background(), s.tc.Client())
		vh.Harness(err, "Shuttermint sync")
		k.sh = sh
		if k.twin != nil {
			sh, err = k.twin.sh.SyncToHead(context.Background(), s.tc.Client())
			vh.Harness(err, "Shuttermint sync")
			k.twin.sh = sh
		}
		s.tc.SetVisible(nil)
	}
}

func (k *Node) online() bool { return !k.byz && k.s.tc.Height() >= k.early }

// blind says if a keyper's main chain node is syncing.
func (k *Node) blind() bool { return k.s.tc.Height() < k.from }

func (k *Node) decide(st *keyper.State, sh *observe.Shutter, main *observe.MainChain) []fx.IAction {
	d := keyper.Decider{
		Config: k.cfg, State: st, Shutter: sh, MainChain: main, Actions: []fx.IAction{}, PhaseLength: keyper.NewConstantPhaseLength(k.s.L),
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 8000)
				k.s.fail(k.s.mix.Focus, "k%d panicked: %v\n%s", k.id, r, buf[:runtime.Stack(buf, false)])
			}
		}()
		d.Decide()
	}()
	return d.Actions
}

// step is one step of a keyper.
func (k *Node) step() {
	s := k.s
	if k.main.CurrentBlock == 0 || k.sh.CurrentBlock < 1 {
		return
	}
	actions := k.decideBoth()
	if s.stop {
		return
	}
	s.count("decisions")
	if !k.main.IsSynced() {
		if len(actions) > 0 {
			s.fail(s.mix.Focus, "k%d, whose main chain node is syncing, decides on %v", k.id, actions)
		}
		s.count("decisions while syncing")
		return
	}
	k.judge(actions)
	if s.stop {
		return
	}
	for _, a := range actions {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			d := int64(0)
			if s.delay > 0 {
				d = rapid.Int64Range(0, s.delay).Draw(s.t, "delay")
			}
			k.outbox = append(k.outbox, msgIn{x.Msg, s.tc.Height() + 1 + d})
		case fx.MainChainTX:
			k.txs = append(k.txs, x)
		}
	}
	if s.pct(60, "filter") {
		k.sh = k.sh.ApplyFilter(k.st.GetShutterFilter(k.main))
		if k.twin != nil {
			k.twin.sh = k.twin.sh.ApplyFilter(k.twin.st.GetShutterFilter(k.twin.main))
		}
	}
}

// send lets a keyper send main chain transactions.
func (k *Node) send(n int) {
	for ; n > 0 && len(k.txs) > 0; n-- {
		a := k.txs[0]
		if a.IsExpired(observe.World{Shutter: k.sh, MainChain: k.main}) {
			k.txs = k.txs[1:]
			continue
		}
		auth, err := k.caller.Auth()
		vh.Harness(err, "auth")
		if _, err = a.SendTX(k.caller, auth); err != nil {
			var r fx.IRetriable
			if errors.As(err, &r) && !r.IsRetriable() {
				k.txs = k.txs[1:]
				continue
			}
			return
		}
		k.s.logf("k%d: sent %v", k.id, a)
		k.txs = k.txs[1:]
	}
}

// look lets a keyper follow the chains as far as it has to, and decide.
func (k *Node) look(must bool) {
	s := k.s
	h := s.tc.Height()
	v := h
	if s.lag > 0 {
		v = rapid.Int64Range(max(k.sh.CurrentBlock, h-s.lag), h).Draw(s.t, "sees")
	}
	if v < 1 {
		return
	}
	if !must && k.sh.CurrentBlock >= h-s.lag && !s.pct(70, "looks") {
		return
	}
	block := uint64(0)
	if k.main.CurrentBlock == 0 || !k.main.IsSynced() || must || s.pct(50, "main chain") {
		block = s.O.Head()
	}
	k.sync(block, v)
	k.step()
}

func max(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (s *Sim) turn(must bool) {
	for _, k := range s.Nodes {
		if k.online() && !s.stop {
			k.look(must)
			k.send(4)
		}
	}
	if s.stop {
		return
	}
	s.block(s.byzantine())
	if s.stop {
		return
	}
}

// addrs lists the pool.
func (s *Sim) addrs() []common.Address {
	var r []common.Address
	for _, k := range s.Nodes {
		r = append(r, k.addr)
	}
	return r
}

func indexOf(as []common.Address, a common.Address) int {
	for i, x := range as {
		if bytes.Equal(x[:], a[:]) {
			return i
		}
	}
	return -1
}
