package pk

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmtypes "github.com/tendermint/tendermint/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/mint/ek"
	"verif/mint/tk"
	"verif/vh"
)

var checkRefused = abcitypes.ResponseCheckTx{Code: 1, Log: "refused"}

type delivered struct {
	res    abcitypes.ResponseDeliverTx
	height int64 // atomic
}

type pooled struct {
	tx   tmtypes.Tx
	wait chan delivered
}

// Sim is a run of several keyper programs.
type Sim struct {
	t          *rapid.T
	c          *vh.C
	O          *ek.Ops
	tc         *tk.Chain
	L          int64
	staggering uint64
	dir        string
	keys       []*ecdsa.PrivateKey
	Kps        []*Kp
	boot       *ecdsa.PrivateKey
	batches    map[uint64][][]byte // plaintexts
	keysFor    map[uint64][]string // what they were encrypted with
	required   map[uint64]bool     // batches with a key while they are open, and no eon to come
	eonStarts  []shutterevents.EonStarted
	over       uint64 // batches
	away       int    // ticks that a keyper was away at most

	amu  sync.Mutex // app and pool
	app  *app.ShutterApp
	pool []pooled

	mu     sync.Mutex
	wrong  string
	hist   []string
	N      map[string]int
	begin  time.Time
	height int64 // atomic
}

func (s *Sim) logf(f string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.hist = append(s.hist, fmt.Sprintf("[%d] %.3f ", atomic.LoadInt64(&s.height), time.Since(s.begin).Seconds())+fmt.Sprintf(f, a...))
}

func (s *Sim) count(what string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.N[what]++
}

// violation remembers the first one.
func (s *Sim) violation(f string, a ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.wrong == "" {
		s.wrong = fmt.Sprintf(f, a...)
	}
}

func (s *Sim) bad() string {
	for _, k := range s.Kps {
		k.mu.Lock()
		e := k.ended
		k.mu.Unlock()
		if e != "" {
			s.violation("%s\n%s", e, k.tail())
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.wrong
}

func (s *Sim) pct(n int, what string) bool { return vh.Pct(n).Draw(s.t, what) }

func (s *Sim) decrypt(a common.Address, b []byte) ([]byte, error) {
	for _, k := range s.Kps {
		if k.addr == a {
			return k.cfg.EncryptionKey.Decrypt(b, nil, nil)
		}
	}
	return nil, nil
}

// submit puts a transaction into the pool.
func (s *Sim) submit(tx tmtypes.Tx) (chan delivered, bool) {
	s.amu.Lock()
	defer s.amu.Unlock()
	if !ak.CheckTx(s.app, tx) {
		return nil, false
	}
	p := pooled{tx: tx, wait: make(chan delivered, 1)}
	s.pool = append(s.pool, p)
	return p.wait, true
}

// block makes a Shuttermint block.
func (s *Sim) block(extra ...[]byte) {
	s.amu.Lock()
	pool := s.pool
	s.pool = nil
	h := s.tc.Height() + 1
	atomic.StoreInt64(&s.height, h)
	var txs [][]byte
	var res []abcitypes.ResponseDeliverTx
	for _, x := range extra {
		r := ak.Deliver(s.app, x)
		if r.Code != 0 {
			vh.Harness(fmt.Errorf("%s", r.Log), "bootstrap")
		}
		txs, res = append(txs, x), append(res, r)
	}
	for _, p := range pool {
		r := ak.Deliver(s.app, p.tx)
		if r.Code != 0 {
			s.count("refused messages")
			_, m, _ := ak.Decode(p.tx)
			s.logf("refused: %s %.100s", r.Log, m)
		}
		txs, res = append(txs, p.tx), append(res, r)
	}
	ak.EndBlock(s.app, h)
	s.app.Commit()
	for _, r := range res {
		for _, ev := range r.Events {
			if x, err := shutterevents.MakeEvent(ev, h); err == nil {
				if e, ok := x.(*shutterevents.EonStarted); ok {
					s.eonStarts = append(s.eonStarts, *e)
				}
			}
		}
	}
	s.tc.Add(txs, res)
	s.amu.Unlock()
	for i, p := range pool {
		p.wait <- delivered{res[len(extra)+i], h}
	}
	s.tc.Announce()
}

// Run runs keypers with crashes.
func Run(t *rapid.T, c *vh.C, ticks int) {
	s := &Sim{
		t: t, c: c, tc: tk.New(ak.Chain), app: app.NewShutterApp(), boot: ak.Key(90), N: map[string]int{}, begin: time.Now(),
		batches: map[uint64][][]byte{}, keysFor: map[uint64][]string{}, required: map[uint64]bool{},
	}
	n := 1 + vh.Pick(3).Draw(t, "keypers")
	s.keys = ek.Keys(n)
	s.O = ek.NewOps(s.keys)
	s.L = rapid.Int64Range(9, 14).Draw(t, "phase length")
	s.staggering = rapid.Uint64Range(0, 3).Draw(t, "staggering")
	var err error
	s.dir, err = os.MkdirTemp("", "verif")
	vh.Harness(err, "scratch directory")
	defer os.RemoveAll(s.dir)
	for i, key := range s.keys {
		s.O.Fund(ek.Addr(key), new(big.Int).Lsh(big.NewInt(1), 100))
		s.Kps = append(s.Kps, newKp(s, i, key))
	}
	s.O.Mine(1)
	defer func() {
		for _, k := range s.Kps {
			k.mu.Lock()
			k.expected = true
			up := k.up
			k.mu.Unlock()
			if up {
				_ = k.cmd.Process.Kill()
				<-k.done
			}
			k.release()
		}
		s.amu.Lock()
		for _, p := range s.pool {
			close(p.wait)
		}
		s.amu.Unlock()
	}()
	s.app.InitChain(ak.Genesis{Keypers: []common.Address{crypto.PubkeyToAddress(s.boot.PublicKey)}, Threshold: 1, Validators: map[string]int64{string(ak.Val(0)): 10}}.InitChain())
	s.schedule(1)
	s.block()
	bc := s.O.Configs[1]
	s.block(
		ak.Sign(s.boot, ak.Chain, 1, shmsg.NewBatchConfig(bc.StartBatchIndex, bc.Keypers, bc.Threshold, s.O.Config, 1, false, false)),
		ak.Sign(s.boot, ak.Chain, 2, shmsg.NewBatchConfigStarted(1)),
	)
	for _, k := range s.Kps {
		k.start()
	}
	second := s.pct(35, "second config")
	for i := 0; i < ticks && s.bad() == ""; i++ {
		if second && i > ticks/3 && len(s.O.Configs) == 2 {
			s.schedule(rapid.Uint64Range(2, 5).Draw(t, "batches later"))
		}
		s.trouble()
		s.tick(!s.pct(15, "no main chain block"), !s.pct(5, "no Shuttermint block"))
	}
	s.finish()
	s.judge()
	if w := s.bad(); w != "" {
		s.mu.Lock()
		h := append([]string{}, s.hist...)
		s.mu.Unlock()
		if n := len(h); n > 500 {
			h = append(append(h[:300:300], "..."), h[n-200:]...)
		}
		logs := ""
		for _, k := range s.Kps {
			logs += fmt.Sprintf("\nlog of k%d:\n%s", k.id, k.tail())
		}
		t.Fatalf("%s\n%s%s", w, strings.Join(h, "\n"), logs)
	}
	var ks []string
	s.mu.Lock()
	for k, n := range s.N {
		c.ClassN(k, n)
		ks = append(ks, fmt.Sprint(k, " ", n))
	}
	h := strings.Join(s.hist, "\n")
	s.mu.Unlock()
	sort.Strings(ks)
	c.Case(s.N["restarts"] > 0 && s.N["batches judged"] > 0, "%s\n%s", strings.Join(ks, ", "), h)
}

// schedule adds a config on the main chain.
func (s *Sim) schedule(later uint64) {
	t, last := s.t, s.O.Configs[len(s.O.Configs)-1]
	bc := contract.BatchConfig{
		BatchSpan: rapid.Uint64Range(4, 9).Draw(t, "span"), ExecutionTimeout: 100_000, BatchSizeLimit: 5000, TransactionSizeLimit: 1000, TransactionGasLimit: 50_000,
		FeeReceiver: common.BytesToAddress([]byte{9, 9}), TargetAddress: s.O.Target, TargetFunctionSelector: [4]byte{1, 2, 3, 4},
	}
	for _, k := range s.Kps {
		bc.Keypers = append(bc.Keypers, k.addr)
	}
	if n := len(bc.Keypers); n > 1 && last.BatchSpan > 0 && s.pct(50, "other keypers") {
		i := rapid.IntRange(0, n-1).Draw(t, "leaves")
		bc.Keypers = append(append([]common.Address{}, bc.Keypers[:i]...), bc.Keypers[i+1:]...)
	}
	bc.Threshold = uint64(len(bc.Keypers))
	if s.pct(30, "lower threshold") {
		// with half of the keypers, some could ask for another key while others have published one
		bc.Threshold = rapid.Uint64Range(bc.Threshold/2+1, bc.Threshold).Draw(t, "threshold")
	}
	if last.BatchSpan == 0 {
		bc.StartBlockNumber = s.O.Head() + 60
	} else {
		d := (s.O.Head()+60-last.StartBlockNumber)/last.BatchSpan + later
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+d, last.StartBlockNumber+d*last.BatchSpan
	}
	vh.Harness(s.O.Schedule(bc), "schedule")
	s.O.Configs = append(s.O.Configs, bc)
	s.O.Mine(1)
	s.logf("config %d: batch %d block %d span %d threshold %d, %d keypers", len(s.O.Configs)-1, bc.StartBatchIndex, bc.StartBlockNumber, bc.BatchSpan, bc.Threshold, len(bc.Keypers))
}

// key returns the eon key that the keypers have published for a config.
func (s *Sim) key(bc contract.BatchConfig) *shcrypto.EonPublicKey {
	// no DKG for the same keypers
	for i := len(s.O.Configs) - 1; i > 1 && bc.StartBatchIndex == s.O.Configs[i].StartBatchIndex; i-- {
		if p := s.O.Configs[i-1]; p.Threshold == bc.Threshold && fmt.Sprint(p.Keypers) == fmt.Sprint(bc.Keypers) {
			bc = p
		}
	}
	view := func(m string) interface{} {
		out, err := s.O.View(s.O.Head(), s.O.KeyBroadcast, ek.KeyBroadcastABI, m, bc.StartBatchIndex)
		vh.Harness(err, m)
		return out[0]
	}
	if view("getBestKeyNumVotes").(*big.Int).Uint64() < bc.Threshold {
		return nil
	}
	k := new(shcrypto.EonPublicKey)
	if err := k.Unmarshal(view("getBestKey").([]byte)); err != nil {
		s.violation("the keypers have published an invalid key: %v", err)
		return nil
	}
	return k
}

// waiting says that the next config comes soon but there is no key for it.
func (s *Sim) waiting() bool {
	for _, bc := range s.O.Configs[1:] {
		if s.O.Head()+12 >= bc.StartBlockNumber && s.O.Head() < bc.StartBlockNumber && s.key(bc) == nil {
			return true
		}
	}
	return false
}

// tick makes blocks and lets the keypers work.
func (s *Sim) tick(main, shuttermint bool) {
	for _, k := range s.Kps {
		k.mu.Lock()
		up := k.up
		k.mu.Unlock()
		if !up && k.cmd != nil {
			if k.downFor > 0 {
				k.downFor--
				continue
			}
			if s.bad() != "" {
				return
			}
			k.release()
			k.start()
			s.count("restarts")
		}
	}
	if b, ok := s.O.OpenBatch(); ok {
		has := s.key(s.O.ConfigFor(b)) != nil
		if has {
			s.required[b] = true
		}
		for o := range s.required {
			if o+6 > b && !s.settled(o) {
				delete(s.required, o)
			}
		}
		if has && s.pct(25, "transaction") {
			s.addTx(b)
		}
	}
	before := make([]int, len(s.Kps))
	for i, k := range s.Kps {
		before[i] = k.requests()
	}
	if main && (!s.waiting() || len(s.O.Pending()) > 0) {
		s.O.Mine(1)
	} else {
		s.O.Announce()
	}
	if shuttermint {
		s.block()
	}
	s.settle()
	for i, k := range s.Kps {
		if !shuttermint || k.requests() != before[i] {
			k.away = 0
			continue
		}
		if k.away++; k.away > s.away {
			s.away = k.away
		}
	}
}

// settled says that no DKG is going on whose eon is to take over the batch.
func (s *Sim) settled(b uint64) bool {
	s.amu.Lock()
	defer s.amu.Unlock()
	for _, e := range s.eonStarts {
		if e.BatchIndex <= b && e.Height+3*s.L+8 > s.tc.Height() {
			return false
		}
	}
	return true
}

// settle waits until the keypers have nothing to do.
func (s *Sim) settle() {
	limit := time.Now().Add(3 * time.Second)
	for n := 0; n < 2 && time.Now().Before(limit); time.Sleep(2 * time.Millisecond) {
		n++
		for _, k := range s.Kps {
			if !k.idle() {
				n = 0
			}
		}
	}
}

// addTx adds an encrypted or plain transaction.
func (s *Sim) addTx(b uint64) {
	bc := s.O.ConfigFor(b)
	key := s.key(bc)
	m := rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(s.t, "transaction")
	var sigma shcrypto.Block
	copy(sigma[:], crypto.Keccak256(m))
	epoch := make([]byte, 8)
	for i := range epoch {
		epoch[i] = byte(b >> (56 - 8*uint(i)))
	}
	raw := shcrypto.Encrypt(append([]byte{}, m...), key, shcrypto.ComputeEpochID(epoch), sigma).Marshal()
	if s.O.Add(ek.Owner, b, 0, raw) == nil {
		s.batches[b] = append(s.batches[b], m)
		s.keysFor[b] = append(s.keysFor[b], fmt.Sprintf("%x", key.Marshal()))
		s.logf("transaction %x for batch %d", m, b)
		s.count("transactions")
	}
}

var crashPoints = []string{
	"file state.gob", "file state.gob", "file actions.gob", "file actions.gob", "creation of state.gob.tmp", "creation of actions.gob.tmp",
	"eth sendRawTransaction", "eth sentRawTransaction", "eth sentRawTransaction", "eth getTransactionReceipt", "eth getLogs", "eth call", "eth newHeads",
	"tm broadcast", "tm in pool", "tm in pool", "tm committed", "tm committed", "tm block_results", "tm block", "tm subscribe",
}

// trouble makes a keyper crash or stop, or its requests fail.
func (s *Sim) trouble() {
	t := s.t
	if !s.pct(30, "trouble") {
		return
	}
	k := s.Kps[rapid.IntRange(0, len(s.Kps)-1).Draw(t, "keyper")]
	k.mu.Lock()
	up := k.up
	k.mu.Unlock()
	down := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 8}).Draw(t, "down")
	switch vh.Pick(10).Draw(t, "what") {
	case 0, 1, 2, 3, 4:
		p := &crash{at: rapid.SampledFrom(crashPoints).Draw(t, "crash"), count: rapid.IntRange(1, 4).Draw(t, "occurrence")}
		if s.pct(40, "later") {
			p.delay = time.Duration(rapid.IntRange(1, 3000).Draw(t, "microseconds")) * time.Microsecond
		}
		k.mu.Lock()
		k.plan = p
		k.mu.Unlock()
		k.downFor = down
	case 5, 6:
		if up {
			s.logf("k%d crashes", k.id)
			s.count("crashes at rest")
			k.kill(k.inst)
			k.downFor = down
		}
	case 7:
		if up {
			s.logf("k%d is stopped", k.id)
			s.count("stops")
			k.stop()
			k.downFor = down
		}
	default:
		m := rapid.SampledFrom([]string{
			"eth getTransactionCount", "eth gasPrice", "eth sendRawTransaction", "eth getTransactionReceipt", "eth getLogs", "eth call", "eth estimateGas",
			"eth getBlockByNumber", "tm broadcast", "tm block_results", "tm block", "tm status", "tm blockchain",
		}).Draw(t, "failing requests")
		n := rapid.IntRange(1, 3).Draw(t, "failures")
		k.mu.Lock()
		k.fail[m] = n
		k.mu.Unlock()
		s.logf("%d requests %s of k%d fail", n, m, k.id)
	}
}

// due says how many half steps are due.
func (s *Sim) due() uint64 {
	b, ok := s.O.OpenBatch()
	if !ok {
		return 0
	}
	return 2 * b
}

// finish goes on without trouble until everything is executed.
func (s *Sim) finish() {
	for _, k := range s.Kps {
		k.mu.Lock()
		k.plan, k.fail = nil, map[string]int{}
		k.mu.Unlock()
		k.downFor = 0
	}
	last := s.O.Configs[len(s.O.Configs)-1]
	goal := last.StartBlockNumber + 4*last.BatchSpan
	if h := s.O.Head() + last.BatchSpan; h > goal {
		goal = h
	}
	begin, quiet := time.Now(), s.tc.Height()
	for i := 0; s.bad() == ""; i++ {
		s.tick(true, true)
		if s.O.Head() >= goal && len(s.required) > 0 && s.key(last) != nil {
			break
		}
		if h := s.tc.Height() - quiet; h > 12*s.L && s.away > int(s.L)-5 {
			// somebody was away for too long in a DKG, the others may have the key
			s.count("given up without a key")
			return
		}
		if i > 400 && time.Since(begin) > 40*time.Second {
			s.violation("the keypers have no key, %d ticks after the last trouble", i)
			return
		}
	}
	// the batches that are over
	over := s.due()
	begin = time.Now()
	all := true
	for b := uint64(0); b < over/2; b++ {
		all = all && s.required[b]
	}
	if !all {
		s.count("runs with batches that the keypers may not get a key for")
	}
	for i := 0; s.bad() == "" && (all && s.O.HalfStepsNow() < over || s.missing(over/2) != ""); i++ {
		s.tick(true, true)
		if i > 150 && time.Since(begin) > 25*time.Second {
			s.violation("only %d of %d half steps are executed, %d ticks after the last trouble%s", s.O.HalfStepsNow(), over, i, s.missing(over/2))
		}
	}
	for i := 0; i < 3; i++ {
		s.tick(true, true)
	}
	for b := uint64(0); b < over/2; b++ {
		s.N["batches over"]++
		if s.required[b] {
			s.N["batches judged"]++
		}
	}
	s.over = over / 2
}

// missing says for which batch too few shares have been released. A keyper that already has the key doesn't have to.
func (s *Sim) missing(n uint64) string {
	for b := uint64(0); b < n; b++ {
		if !s.required[b] {
			continue
		}
		bc := s.O.ConfigFor(b)
		count, who := uint64(0), ""
		for _, k := range s.Kps {
			k.mu.Lock()
			if len(k.shares[b]) > 0 {
				count++
				who += fmt.Sprintf(" k%d", k.id)
			}
			k.mu.Unlock()
		}
		if count < bc.Threshold {
			return fmt.Sprintf("; shares for batch %d are only from%s", b, who)
		}
	}
	return ""
}

// judge checks what the keypers have sent.
func (s *Sim) judge() {
	for _, k := range s.Kps {
		k.mu.Lock()
		for e, x := range k.polys {
			if len(x) > 1 {
				s.violation("k%d dealt %d polynomials in eon %d", k.id, len(x), e)
			}
		}
		for id, x := range k.evals {
			if len(x) > 1 {
				s.violation("k%d sent %d evaluations in %s", k.id, len(x), id)
			}
		}
		for b, x := range k.shares {
			eons := map[string]bool{}
			for y := range x {
				e := strings.Split(y, " ")[1]
				if eons[e] {
					s.violation("k%d released different shares for batch %d: %v", k.id, b, x)
				}
				eons[e] = true
			}
		}
		s.repeated(k, "messages", k.msgs)
		s.repeated(k, "transactions", k.txs)
		s.N["messages"] += len(k.msgs)
		s.N["sent transactions"] += len(k.txs)
		k.mu.Unlock()
	}
	execs := map[uint64][][]byte{}
	for _, tx := range s.O.Taken() {
		m := ek.ExecutorABI.Methods["executeCipherBatch"]
		if r := s.O.Receipt(tx.Hash()); r == nil || r.Status != 1 || *tx.To() != s.O.Executor || !bytes.HasPrefix(tx.Data(), m.ID) {
			continue
		}
		args, err := m.Inputs.Unpack(tx.Data()[4:])
		vh.Harness(err, "executeCipherBatch")
		execs[args[0].(uint64)] = args[2].([][]byte)
	}
	for b, plain := range s.batches {
		if b >= s.over || 2*b >= s.O.HalfStepsNow() {
			continue
		}
		if s.replaced(b) {
			s.count("batches with a replaced key")
			continue
		}
		got, want := strs(execs[b]), strs(plain)
		if got != want {
			s.violation("batch %d is executed with the transactions %s instead of %s", b, got, want)
		}
		s.N["encrypted batches judged"]++
	}
}

// replaced says if the users' key isn't the one of the eon that the keypers use. An eon may be started once more when its
// key has been published already, by votes that keypers repeat after a crash.
func (s *Sim) replaced(b uint64) bool {
	for _, k := range s.Kps {
		cfg := k.cfg
		cfg.DBDir = filepath.Join(k.dir, "db")
		kpr := keyper.NewKeyper(cfg)
		if err := kpr.LoadState(); err != nil {
			s.violation("the state of k%d can't be loaded: %v", k.id, err)
			return true
		}
		for _, ekg := range kpr.State.EKGs {
			for share := range k.shares[b] {
				if !strings.HasPrefix(share, fmt.Sprint("eon ", ekg.Eon, " ")) {
					continue
				}
				for _, key := range s.keysFor[b] {
					if key != fmt.Sprintf("%x", ekg.EpochKG.PublicKey.Marshal()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func strs(l [][]byte) string {
	var r []string
	for _, x := range l {
		r = append(r, fmt.Sprintf("%x", x))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

// repeated looks for things sent twice. Only what an instance of the program sent last may be sent again by a later one,
// as it may not know whether it succeeded.
func (s *Sim) repeated(k *Kp, what string, l []*sent) {
	lastOf := map[int]int{}
	for i, x := range l {
		lastOf[x.inst] = i
	}
	before := map[string]int{}
	for i, x := range l {
		j, ok := before[x.what]
		before[x.what] = i
		if !ok || x.eonVote || l[j].refused {
			continue
		}
		if l[j].inst == x.inst || lastOf[l[j].inst] != j {
			s.violation("k%d repeats one of its %s (%d-th in %d, %d-th in %d): %.300s", k.id, what, j, l[j].inst, i, x.inst, x.what)
			return
		}
		s.N["repeated "+what]++
	}
}
