package c33

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"
	"golang.org/x/sync/errgroup"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ek"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

const patience = 90 * time.Second

// ---------------------------------------------------------------- the plan of a scenario

// action is an action of a plan.
type action struct {
	kind   string // msg, cipher, plain, skip, accuse, appeal, eonkey
	batch  uint64
	fails  int    // failed attempts before the final one
	final  string // msg: ok, refused; accuse, appeal: ok, hopeless, stuck; others: ok, stuck
	reason string
	size   int
}

// step is something that happens while actions are worked on.
type step struct {
	op     string // hand, mine, world, pause, check, stop, crash
	n      int
	settle bool
}

// fault lets the n-th request of a kind fail.
type fault struct {
	method string
	n      int
}

type plan struct {
	actions []action
	steps   []step
	faults  []fault
	order   bool // a plan with many transactions
}

func (p plan) String() string {
	var b strings.Builder
	for i, a := range p.actions {
		fmt.Fprintf(&b, "%d:%s", i, a.kind)
		switch a.kind {
		case "cipher", "plain", "skip":
			fmt.Fprintf(&b, "(batch %d)", a.batch)
		}
		if a.fails > 0 {
			fmt.Fprintf(&b, " fails %d times,", a.fails)
		}
		if a.final != "ok" {
			fmt.Fprintf(&b, " then %s %q", a.final, a.reason)
		}
		b.WriteString("; ")
	}
	b.WriteString("steps:")
	for _, s := range p.steps {
		fmt.Fprintf(&b, " %s", s.op)
		switch s.op {
		case "hand", "mine", "world", "pause":
			fmt.Fprintf(&b, " %d", s.n)
		case "stop", "crash":
			if s.settle {
				b.WriteString(" when settled")
			}
		}
	}
	if len(p.faults) > 0 {
		fmt.Fprintf(&b, "; failing requests: %v", p.faults)
	}
	return b.String()
}

var methods = []string{"chainId", "getTransactionCount", "gasPrice", "sendRawTransaction", "sentRawTransaction", "getTransactionReceipt", "getTransactionReceipt", "getTransactionByHash"}

func genPlan(t *rapid.T) plan {
	var p plan
	kinds := []string{"msg", "msg", "msg", "cipher", "plain", "skip", "accuse", "appeal", "eonkey", "eonkey"}
	n := 1 + vh.Pick(14).Draw(t, "actions")
	bulk := vh.Pct(4).Draw(t, "bulk")
	if bulk {
		kinds, n = []string{"eonkey", "eonkey", "cipher", "plain"}, 22+vh.Pick(20).Draw(t, "more")
	}
	fails := 5 // they cost a second each
	for i := 0; i < n; i++ {
		a := action{kind: kinds[vh.Pick(len(kinds)).Draw(t, "kind")], batch: uint64(vh.Pick(12).Draw(t, "batch")), final: "ok"}
		if a.kind == "skip" {
			a.batch = uint64(i)
		}
		if fails > 0 && !bulk && vh.Pct(25).Draw(t, "failing") {
			a.fails = 1 + vh.Pick(2).Draw(t, "failures")
			if a.fails > fails {
				a.fails = fails
			}
			fails -= a.fails
		}
		a.size = vh.Pick(4).Draw(t, "size")
		switch a.kind {
		case "msg":
			if vh.Pct(15).Draw(t, "refused") {
				a.final = "refused"
			}
		case "accuse", "appeal":
			switch k := vh.Pick(10).Draw(t, "end"); {
			case k < 3:
				a.final = "hopeless"
				if a.kind == "accuse" {
					a.reason = []string{"KeyperSlasher: already accused", "KeyperSlasher: cannot accuse empty batch"}[vh.Pick(2).Draw(t, "reason")]
				} else {
					a.reason = "KeyperSlasher: wrong signer"
				}
			case k < 4 && !bulk:
				a.final, a.reason = "stuck", "KeyperSlasher: half step not yet executed"
			}
		default:
			if !bulk && a.kind != "eonkey" && vh.Pct(5).Draw(t, "stuck") {
				a.final, a.reason = "stuck", "insufficient funds"
			}
		}
		p.actions = append(p.actions, a)
	}
	left := n
	for k, lives := 2+vh.Pick(9).Draw(t, "steps"), 3; k > 0; k-- {
		var s step
		switch x := vh.Pick(100).Draw(t, "step"); {
		case x < 35 && left > 0:
			s = step{op: "hand", n: 1 + vh.Pick(left).Draw(t, "hand")}
			left -= s.n
		case x < 50:
			s = step{op: "mine", n: 1}
		case x < 58:
			s = step{op: "world", n: 1 + vh.Pick(6).Draw(t, "half steps")}
		case x < 68:
			s = step{op: "pause", n: 20 * (1 + vh.Pick(30).Draw(t, "pause"))}
		case x < 76:
			s = step{op: "check"}
		case lives > 0:
			s = step{op: []string{"stop", "crash"}[vh.Pick(2).Draw(t, "how")], settle: vh.Pct(50).Draw(t, "settle")}
			lives--
		}
		if s.op != "" {
			p.steps = append(p.steps, s)
		}
	}
	for left > 0 {
		s := step{op: "hand", n: 1 + vh.Pick(left).Draw(t, "hand")}
		left -= s.n
		p.steps = append(p.steps, s)
	}
	if vh.Pct(50).Draw(t, "late end") {
		p.steps = append(p.steps, step{op: []string{"stop", "crash"}[vh.Pick(2).Draw(t, "how")], settle: vh.Pct(50).Draw(t, "settle")})
	}
	for k := vh.Pick(4).Draw(t, "faults"); k > 0; k-- {
		p.faults = append(p.faults, fault{methods[vh.Pick(len(methods)).Draw(t, "method")], 1 + vh.Pick(n+2).Draw(t, "nth")})
	}
	return p
}

// ---------------------------------------------------------------- a scenario

// attempt is a message that the keyper tried to send.
type attempt struct {
	gen, id int
	final   bool
}

// sent is a transaction that the node took up.
type sent struct {
	gen, id int
	hash    common.Hash
	lost    bool // the keyper was not told
}

func (x sent) String() string {
	return fmt.Sprintf("%d (in life %d, told: %t)", x.id, x.gen, !x.lost)
}

// life is the time between two crashes.
type life struct {
	env    *fx.RunEnv
	path   string
	cancel context.CancelFunc
	done   chan struct{}
	gate   chan struct{} // closed when the keyper is dead
	dead   bool
	snap   *fx.PendingActions // what it started with
	from   int                // the first batch handed over
	handed int
	stop   chan struct{}
	free   chan struct{} // lets blocked requests go
}

type scenario struct {
	mu       sync.Mutex
	p        plan
	world    *ek.World
	dir      string
	actions  []fx.IAction
	byText   map[string]int // what is sent to what action
	left     []int          // failures left
	requests map[string]int
	calm     bool // no more faults
	lives    []*life
	attempts []attempt
	sends    []sent
	hopeless map[int]bool
	faulted  int
	problem  string

	half     uint64
	accused  map[uint64]*observe.Accusation
	handed   int // actions handed over
	batches  [][2]int
	failures map[string]bool
}

func (s *scenario) fail(format string, args ...interface{}) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.failLocked(format, args...)
}

func (s *scenario) failLocked(format string, args ...interface{}) {
	if s.problem == "" {
		s.problem = fmt.Sprintf(format, args...)
	}
}

func (s *scenario) observed() observe.World {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := observe.NewMainChain(0)
	m.NumExecutionHalfSteps = s.half
	m.Accusations = map[uint64]*observe.Accusation{}
	for k, v := range s.accused {
		m.Accusations[k] = v
	}
	return observe.World{MainChain: m, Shutter: observe.NewShutter()}
}

// expired says that an action became pointless.
func (s *scenario) expired(id int) bool {
	a := s.p.actions[id]
	switch a.kind {
	case "cipher", "skip":
		return s.half > 2*a.batch
	case "plain":
		return s.half > 2*a.batch+1
	case "accuse":
		_, ok := s.accused[1000+uint64(id)]
		return ok
	case "appeal":
		return s.accused[2000+uint64(id)] != nil && s.accused[2000+uint64(id)].Appealed
	}
	return false
}

func blob(id, i, size int) []byte { return bytes.Repeat([]byte{byte(id), byte(i)}, size) }

func msgBytes(m *shmsg.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	vh.Harness(err, "marshal")
	return "msg " + string(b)
}

func (s *scenario) build() {
	pack := func(c common.Address, data []byte, err error) string {
		vh.Harness(err, "pack")
		return "tx " + string(data)
	}
	for id, a := range s.p.actions {
		u := uint64(id)
		var act fx.IAction
		var text string
		var txs [][]byte
		for i := 0; i < a.size; i++ {
			txs = append(txs, blob(id+1, i, (i+id)%3))
		}
		if len(txs) == 0 {
			txs = [][]byte{}
		}
		switch a.kind {
		case "msg":
			var m *shmsg.Message
			switch (id + a.size) % 6 {
			case 0:
				m = shmsg.NewEonStartVote(u)
			case 1:
				m = shmsg.NewBatchConfigStarted(u)
			case 2:
				m = shmsg.NewPolyEval(u, []common.Address{common.BigToAddress(big.NewInt(7)), {}}, [][]byte{blob(3, 4, 5), {}})
			case 3:
				m = shmsg.NewApology(u, []common.Address{common.BigToAddress(big.NewInt(7))}, []*big.Int{new(big.Int)})
			case 4:
				m = shmsg.NewDecryptionSignature(u, blob(id, 1, 32))
			default:
				m = shmsg.NewBatchConfig(u, nil, u+1, common.Address{1}, u, id%2 == 0, id%3 == 0)
			}
			act, text = &fx.SendShuttermintMessage{Description: fmt.Sprint("message ", id), Msg: m}, msgBytes(m)
		case "cipher":
			h := common.BytesToHash(blob(id+1, 9, 16))
			act = &fx.ExecuteCipherBatch{BatchIndex: a.batch, CipherBatchHash: h, Transactions: txs, KeyperIndex: u, TransactionGasLimit: 1000}
			d, err := ek.ExecutorABI.Pack("executeCipherBatch", a.batch, [32]byte(h), txs, u)
			text = pack(s.world.Executor, d, err)
		case "plain":
			txs = append(txs, blob(id, 200, 9))
			act = &fx.ExecutePlainBatch{BatchIndex: a.batch, Transactions: txs, TransactionGasLimit: 1000}
			d, err := ek.ExecutorABI.Pack("executePlainBatch", a.batch, txs)
			text = pack(s.world.Executor, d, err)
		case "skip":
			act = &fx.SkipCipherBatch{BatchIndex: a.batch}
			d, err := ek.ExecutorABI.Pack("skipCipherExecution", a.batch)
			text = pack(s.world.Executor, d, err)
		case "accuse":
			act = &fx.Accuse{HalfStep: 1000 + u, KeyperIndex: u % 2}
			d, err := ek.SlasherABI.Pack("accuse", 1000+u, u%2)
			text = pack(s.world.Slasher, d, err)
		case "appeal":
			auth := contract.Authorization{HalfStep: 2000 + u, BatchHash: common.BytesToHash(blob(id, 1, 9)), SignerIndices: []uint64{0, u}, Signatures: [][]byte{blob(id, 2, 32), blob(id, 3, 32)}}
			act = &fx.Appeal{Authorization: auth}
			d, err := ek.SlasherABI.Pack("appeal", auth)
			text = pack(s.world.Slasher, d, err)
			s.accused[2000+u] = &observe.Accusation{HalfStep: 2000 + u}
		case "eonkey":
			key := shcrypto.ComputeEonPublicKey([]*shcrypto.Gammas{shcrypto.ZeroGammas(1)})
			act = &fx.EonKeyBroadcast{KeyperIndex: u, StartBatchIndex: u / 2, EonPublicKey: key}
			d, err := ek.KeyBroadcastABI.Pack("vote", u, u/2, key.Marshal())
			text = pack(s.world.KeyBroadcast, d, err)
		}
		if _, ok := s.byText[text]; ok {
			vh.Harness(errors.New("two actions look the same"), "build")
		}
		s.byText[text] = id
		s.actions = append(s.actions, act)
		s.left = append(s.left, a.fails)
	}
}

// sender is the connection to Shuttermint of one life.
type sender struct {
	s   *scenario
	gen int
	l   *life
}

func (d *sender) SendMessage(ctx context.Context, m *shmsg.Message) error {
	s := d.s
	select {
	case <-d.l.gate:
		<-ctx.Done()
		return ctx.Err()
	default:
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if d.l.dead {
		return errors.New("connection lost")
	}
	id, ok := s.byText[msgBytes(m)]
	if !ok {
		s.failLocked("the keyper sent a message that was not decided: %v", m)
		return nil
	}
	a := s.p.actions[id]
	if s.left[id] > 0 {
		s.left[id]--
		s.attempts = append(s.attempts, attempt{d.gen, id, false})
		return errors.New("timed out waiting for tx to be included in a block")
	}
	s.attempts = append(s.attempts, attempt{d.gen, id, true})
	if a.final == "refused" {
		return &fx.RemoteError{}
	}
	return nil
}

func (s *scenario) hook(gen int, l *life) func(method string, data []byte) error {
	return func(method string, data []byte) error {
		select {
		case <-l.gate:
			if method == "sentRawTransaction" {
				break
			}
			<-l.free
			return errors.New("connection lost")
		default:
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		if l.dead && method != "sentRawTransaction" {
			return errors.New("connection lost")
		}
		s.requests[method]++
		bad := false
		if !s.calm {
			for _, f := range s.p.faults {
				if f.method == method && f.n == s.requests[method] {
					bad = true
				}
			}
		}
		id := -1
		switch method {
		case "estimateGas", "sendRawTransaction", "sentRawTransaction":
			i, ok := s.byText["tx "+string(data)]
			if !ok {
				s.failLocked("the keyper sent a transaction that was not decided: %x", data)
				return nil
			}
			id = i
		}
		a := action{}
		if id >= 0 {
			a = s.p.actions[id]
		}
		switch {
		case method == "estimateGas" && s.left[id] > 0, method == "sendRawTransaction" && s.left[id] > 0:
			s.left[id]--
			s.faulted++
			return errors.New("execution reverted: try again")
		case method == "estimateGas" && a.final == "hopeless":
			s.hopeless[id] = true
			return errors.New("execution reverted: " + a.reason)
		case (method == "estimateGas" || method == "sendRawTransaction") && a.final == "stuck":
			return errors.New(a.reason)
		case method == "sentRawTransaction":
			s.sends = append(s.sends, sent{gen: gen, id: id, lost: bad})
		}
		if bad {
			s.faulted++
			return errors.New("connection refused")
		}
		if method == "estimateGas" {
			return ek.Answer(300_000)
		}
		return nil
	}
}

func load(path string) (*fx.PendingActions, error) {
	p := fx.NewPendingActions(path)
	f, err := os.Open(path)
	if os.IsNotExist(err) {
		return p, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return p, gob.NewDecoder(f).Decode(p)
}

// start starts the keyper's action queue from what is on disk; from is the first batch of actions
// to be handed over.
func (s *scenario) start(path string, from int) {
	snap, err := load(path)
	if err != nil {
		s.fail("the stored actions cannot be read: %v", err)
		return
	}
	gen := len(s.lives)
	l := &life{path: path, done: make(chan struct{}), gate: make(chan struct{}), stop: make(chan struct{}), free: make(chan struct{}), snap: snap, from: from}
	key := ek.Keys(1)[0]
	cl := s.world.ClientWith(s.hook(gen, l))
	l.env = fx.NewRunEnv(&sender{s, gen, l}, s.world.CallerFor(cl, key), s.observed, path)
	ctx, cancel := context.WithCancel(context.Background())
	l.cancel = cancel
	s.mu.Lock()
	s.lives = append(s.lives, l)
	s.mu.Unlock()
	g, gctx := errgroup.WithContext(ctx)
	l.env.StartBackgroundTasks(gctx, g)
	g.Go(func() error {
		have, err := l.env.Load(gctx)
		if err != nil && gctx.Err() == nil {
			s.fail("Load: %v", err)
			return err
		}
		if err == nil && have != (len(snap.ActionMap) > 0) {
			s.fail("Load says there are pending actions: %t, there are %d", have, len(snap.ActionMap))
		}
		for i := from; ; {
			s.mu.Lock()
			var b [2]int
			more := i < len(s.batches)
			if more {
				b = s.batches[i]
			}
			s.mu.Unlock()
			if !more {
				select {
				case <-time.After(5 * time.Millisecond):
					continue
				case <-gctx.Done():
					return gctx.Err()
				}
			}
			if err := l.env.RunActions(gctx, uint64(b[0]), s.actions[b[0]:b[1]]); err != nil {
				if gctx.Err() == nil {
					s.fail("RunActions: %v", err)
				}
				return err
			}
			s.mu.Lock()
			if b[1] > s.handed {
				s.handed = b[1]
			}
			l.handed = b[1]
			s.mu.Unlock()
			i++
		}
	})
	go func() {
		_ = g.Wait()
		cl.Close()
		close(l.done)
	}()
}

func (s *scenario) now() *life { return s.lives[len(s.lives)-1] }

// mined says whether one of the transactions of an action was mined.
func (s *scenario) mined(id int) bool {
	for _, x := range s.sends {
		if x.id == id && s.world.Receipt(x.hash) != nil {
			return true
		}
	}
	return false
}

// hashes fills in the hashes of the transactions that the node took up.
func (s *scenario) resolve() {
	byID := map[int][]common.Hash{}
	for _, tx := range s.world.Taken() {
		id := s.byText["tx "+string(tx.Data())]
		byID[id] = append(byID[id], tx.Hash())
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := range s.sends {
		x := &s.sends[i]
		n := 0
		for _, y := range s.sends[:i] {
			if y.id == x.id {
				n++
			}
		}
		if x.hash == (common.Hash{}) && n < len(byID[x.id]) {
			x.hash = byID[x.id][n]
		}
	}
}

// unmined returns the actions whose transaction is out, known to the keyper and not mined.
func (s *scenario) unmined(gen int) []int {
	s.resolve()
	var ids []int
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, x := range s.sends {
		if (gen < 0 || x.gen == gen) && !x.lost && !s.mined(x.id) && !s.expired(x.id) {
			ids = append(ids, x.id)
		}
	}
	return ids
}

func (s *scenario) check() {
	missing := -1
	// right after a start, the actions may not be loaded yet
	for deadline := time.Now().Add(5 * time.Second); time.Now().Before(deadline); time.Sleep(20 * time.Millisecond) {
		missing = -1
		ids := s.unmined(-1)
		have := map[fx.ActionID]bool{}
		for _, id := range s.now().env.PendingActions.SortedIDs() {
			have[id] = true
		}
		for _, id := range ids {
			if !have[fx.ActionID(id)] {
				missing = id
			}
		}
		if missing < 0 {
			return
		}
	}
	s.fail("action %d was given up although its transaction is not mined", missing)
}

// settle waits until the keyper has noted all transactions it sent.
func (s *scenario) settle() []int {
	l := s.now()
	for deadline := time.Now().Add(patience); ; time.Sleep(10 * time.Millisecond) {
		missing := -1
		ids := s.unmined(len(s.lives) - 1)
		for _, id := range ids {
			if l.env.PendingActions.GetMainChainTXHash(fx.ActionID(id)) == (common.Hash{}) {
				missing = id
			}
		}
		if missing < 0 {
			return ids
		}
		if time.Now().After(deadline) {
			s.fail("the keyper did not note the hash of the transaction of action %d", missing)
			return nil
		}
	}
}

func (s *scenario) restart(st step) {
	l := s.now()
	noted := map[int]bool{}
	if st.settle {
		for _, id := range s.settle() {
			noted[id] = true
		}
	}
	// the actions decided last are handed over again, as they are part of the stored state
	s.mu.Lock()
	// (as far as this one got: what others do who are as good as dead doesn't count)
	from := l.from
	for i := from; i < len(s.batches); i++ {
		if s.batches[i][0] < l.handed {
			from = i
		}
	}
	s.mu.Unlock()
	path := filepath.Join(s.dir, fmt.Sprint("actions", len(s.lives)))
	if st.op == "crash" {
		// it loses its connections, dies, and leaves what is on disk
		s.mu.Lock()
		l.dead = true
		close(l.gate)
		s.mu.Unlock()
		b, err := os.ReadFile(l.path)
		if err == nil {
			err = os.WriteFile(path, b, 0o600)
		} else if os.IsNotExist(err) {
			err = nil
		}
		vh.Harness(err, "copy")
		l.cancel()
		close(l.free)
	} else {
		l.cancel()
		select {
		case <-l.done:
		case <-time.After(3 * time.Second):
			// it does not stop: kill it
		}
		s.mu.Lock()
		l.dead = true
		close(l.gate)
		s.mu.Unlock()
		close(l.free)
		b, err := os.ReadFile(l.path)
		if err == nil {
			err = os.WriteFile(path, b, 0o600)
		} else if os.IsNotExist(err) {
			err = nil
		}
		vh.Harness(err, "copy")
	}
	s.start(path, from)
	if s.problem != "" {
		return
	}
	snap := s.now().snap
	for id := range noted {
		if snap.ActionMap[fx.ActionID(id)] == nil {
			s.fail("after a %s, action %d is forgotten although its transaction is not mined", st.op, id)
		} else if snap.MainChainTXHashes[fx.ActionID(id)] == (common.Hash{}) {
			s.fail("after a %s, the transaction of action %d is forgotten", st.op, id)
		}
	}
	for id, a := range snap.ActionMap {
		if m, ok := a.(*fx.SendShuttermintMessage); ok {
			want := s.actions[id].(*fx.SendShuttermintMessage)
			if msgBytes(m.Msg) != msgBytes(want.Msg) || m.Description != want.Description {
				s.fail("after a %s, action %d is another message: %v", st.op, id, m)
			}
		}
	}
}

func (s *scenario) run() {
	s.start(filepath.Join(s.dir, "actions0"), 0)
	next := 0
	for _, st := range s.p.steps {
		if s.problem != "" {
			break
		}
		switch st.op {
		case "hand":
			s.mu.Lock()
			s.batches = append(s.batches, [2]int{next, next + st.n})
			s.mu.Unlock()
			next += st.n
			time.Sleep(10 * time.Millisecond)
		case "mine":
			s.world.Mine(st.n)
		case "world":
			s.mu.Lock()
			s.half += uint64(st.n)
			for id, a := range s.p.actions {
				if a.kind == "accuse" && id%5 == st.n {
					s.accused[1000+uint64(id)] = &observe.Accusation{HalfStep: 1000 + uint64(id)}
				}
				if a.kind == "appeal" && id%5 == st.n {
					s.accused[2000+uint64(id)] = &observe.Accusation{HalfStep: 2000 + uint64(id), Appealed: true}
				}
			}
			s.mu.Unlock()
		case "pause":
			time.Sleep(time.Duration(st.n) * time.Millisecond)
		case "check":
			s.check()
		default:
			s.restart(st)
		}
	}
	s.finish()
	l := s.now()
	l.cancel()
	select {
	case <-l.done:
	case <-time.After(3 * time.Second):
	}
	s.judge()
}

// finish lets everything come to an end.
func (s *scenario) finish() {
	s.mu.Lock()
	s.calm = true
	for id, a := range s.p.actions {
		if a.final != "stuck" {
			continue
		}
		switch a.kind {
		case "accuse":
			s.accused[1000+uint64(id)] = &observe.Accusation{HalfStep: 1000 + uint64(id)}
		case "appeal":
			s.accused[2000+uint64(id)] = &observe.Accusation{HalfStep: 2000 + uint64(id), Appealed: true}
		case "plain":
			if s.half < 2*a.batch+2 {
				s.half = 2*a.batch + 2
			}
		default:
			if s.half < 2*a.batch+1 {
				s.half = 2*a.batch + 1
			}
		}
	}
	s.mu.Unlock()
	l := s.now()
	last := -1
	for deadline := time.Now().Add(patience); s.problem == ""; time.Sleep(20 * time.Millisecond) {
		s.check()
		s.world.Mine(1)
		s.mu.Lock()
		over := l.handed == len(s.p.actions)
		s.mu.Unlock()
		ids := l.env.PendingActions.SortedIDs()
		if over && len(ids) == 0 {
			return
		}
		if len(ids) != last {
			last, deadline = len(ids), time.Now().Add(patience)
		}
		if time.Now().After(deadline) {
			s.fail("%d actions were handed over; nothing happens any more to the pending ones %v", s.handed, ids)
		}
	}
}

// judge looks at what was sent.
func (s *scenario) judge() {
	if s.problem != "" {
		return
	}
	s.resolve()
	// messages
	final := map[int]attempt{}
	prev := attempt{gen: -1}
	for _, a := range s.attempts {
		if f, ok := final[a.id]; ok {
			snap := s.lives[f.gen+1:]
			if a.gen == f.gen || snap[0].snap.ActionMap[fx.ActionID(a.id)] == nil {
				s.fail("message %d was sent again after it was accepted or refused", a.id)
				return
			}
		}
		if prev.gen == a.gen {
			if a.id < prev.id {
				s.fail("message %d was sent after message %d", a.id, prev.id)
			}
			if a.id > prev.id && !prev.final {
				s.fail("message %d was sent before message %d was accepted or refused", a.id, prev.id)
			}
			for id := prev.id + 1; id < a.id; id++ {
				if _, ok := final[id]; !ok && s.p.actions[id].kind == "msg" {
					s.fail("message %d was sent before message %d", a.id, id)
				}
			}
		} else {
			for id := 0; id < a.id; id++ {
				if _, ok := final[id]; !ok && s.p.actions[id].kind == "msg" {
					s.fail("after a restart, message %d was sent before message %d", a.id, id)
				}
			}
		}
		prev = a
		if a.final {
			final[a.id] = a
		}
	}
	for id, a := range s.p.actions {
		if _, ok := final[id]; !ok && a.kind == "msg" {
			s.fail("message %d was never sent successfully", id)
		}
	}
	// transactions
	seen := map[int]sent{}
	var p sent
	for i, x := range s.sends {
		if i > 0 && p.gen == x.gen && x.id < p.id {
			s.fail("transaction of action %d was sent after the one of action %d", x.id, p.id)
		}
		p = x
		if y, ok := seen[x.id]; ok && !y.lost {
			if y.gen == x.gen {
				s.fail("the transaction of action %d was sent twice", x.id)
			} else {
				snap := s.lives[y.gen+1].snap
				if snap.ActionMap[fx.ActionID(x.id)] == nil || snap.MainChainTXHashes[fx.ActionID(x.id)] != (common.Hash{}) {
					s.fail("after a restart, the transaction of action %d was sent again", x.id)
				}
			}
		}
		seen[x.id] = x
	}
	for id, a := range s.p.actions {
		if a.kind == "msg" {
			continue
		}
		if _, ok := seen[id]; !ok && !s.expired(id) && !s.hopeless[id] {
			s.fail("the transaction of action %d was never sent", id)
		}
	}
	l := s.now()
	end, err := load(l.path)
	if err != nil {
		s.fail("the stored actions cannot be read: %v", err)
		return
	}
	if len(end.ActionMap) > 0 || len(end.MainChainTXHashes) > 0 || end.CurrentID != fx.ActionID(len(s.actions)) {
		s.fail("stored at the end: %d actions, %d hashes, %d of %d actions", len(end.ActionMap), len(end.MainChainTXHashes), end.CurrentID, len(s.actions))
	}
}

func newScenario(p plan, dir string) *scenario {
	s := &scenario{p: p, dir: dir, world: ek.NewWorld(), byText: map[string]int{}, requests: map[string]int{}, hopeless: map[int]bool{}, accused: map[uint64]*observe.Accusation{}}
	key := ek.Keys(1)[0]
	s.world.Fund(ek.Addr(key), new(big.Int).Lsh(big.NewInt(1), 120))
	s.world.Mine(1)
	s.build()
	return s
}

func TestActions(t *testing.T) {
	log.SetOutput(io.Discard)
	vh.Check(t, "a scenario counts if the queue was stopped or killed in it, or a request or message failed", vh.N(56, 1400), func(t *rapid.T, c *vh.C) {
		n := 1 + vh.Pick(60).Draw(t, "scenarios")
		if !vh.Pct(10).Draw(t, "few") {
			n = 60
		}
		var plans []plan
		for i := 0; i < n; i++ {
			plans = append(plans, genPlan(t))
		}
		dir, err := os.MkdirTemp("", "c33-")
		vh.Harness(err, "tmp")
		defer os.RemoveAll(dir)
		var wg sync.WaitGroup
		all := make([]*scenario, n)
		for i := range plans {
			d := filepath.Join(dir, fmt.Sprint(i))
			vh.Harness(os.Mkdir(d, 0o700), "mkdir")
			all[i] = newScenario(plans[i], d)
			wg.Add(1)
			go func(s *scenario) {
				defer wg.Done()
				s.run()
			}(all[i])
		}
		wg.Wait()
		for _, s := range all {
			retried := 0
			for _, a := range s.attempts {
				if !a.final {
					retried++
				}
			}
			c.Case(len(s.lives) > 1 || s.faulted > 0 || retried > 0, "%s", s.p)
			c.ClassN("actions", len(s.actions))
			c.ClassN("restarts", len(s.lives)-1)
			c.ClassN("failed requests", s.faulted)
			c.ClassN("failed messages", retried)
			c.ClassN("transactions sent", len(s.sends))
			c.ClassN("hopeless", len(s.hopeless))
			for id := range s.actions {
				if s.expired(id) {
					c.Class("expired")
				}
			}
			for _, l := range s.lives[1:] {
				c.ClassN("pending at a restart", len(l.snap.ActionMap))
				c.ClassN("in flight at a restart", len(l.snap.MainChainTXHashes))
			}
		}
		for _, s := range all {
			if s.problem != "" {
				t.Fatalf("%s\n%s\nmessages %v\ntransactions %v", s.problem, s.p, s.attempts, s.sends)
			}
		}
	})
}

// ---------------------------------------------------------------- the connection to Shuttermint

// node is a Shuttermint node as seen over RPC.
type node struct {
	client.Client
	script []string // what happens to the next requests
	txs    [][]byte
	infos  int
	chain  string
}

func (n *node) next() string {
	if len(n.script) == 0 {
		return "ok"
	}
	s := n.script[0]
	n.script = n.script[1:]
	return s
}

func (n *node) BlockchainInfo(ctx context.Context, min, max int64) (*coretypes.ResultBlockchainInfo, error) {
	n.infos++
	switch n.next() {
	case "down":
		return nil, errors.New("connection refused")
	case "empty":
		return &coretypes.ResultBlockchainInfo{}, nil
	}
	return &coretypes.ResultBlockchainInfo{LastHeight: 1, BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: n.chain}}}}, nil
}

func (n *node) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*coretypes.ResultBroadcastTxCommit, error) {
	n.txs = append(n.txs, append([]byte{}, tx...))
	r := &coretypes.ResultBroadcastTxCommit{Hash: tx.Hash()}
	switch n.next() {
	case "down", "empty":
		return nil, errors.New("timed out waiting for tx to be included in a block")
	case "checktx":
		r.CheckTx.Code, r.CheckTx.Log = 1, "too many transactions"
	case "delivertx":
		r.DeliverTx.Code, r.DeliverTx.Log, r.Height = 1, "vote already registered", 5
	default:
		r.Height = 5
	}
	return r, nil
}

// TestSender sends messages over RPC: a message counts as sent only if it was delivered, and is
// given up only if the application refused to carry it out.
func TestSender(t *testing.T) {
	vh.Check(t, "a sequence of messages counts if a request fails", vh.N(4000, 60000), func(t *rapid.T, c *vh.C) {
		key := ek.Keys(4)[vh.Pick(4).Draw(t, "key")]
		n := &node{chain: rapid.SampledFrom([]string{"shuttermint-1", "a", "\x00\xff"}).Draw(t, "chain")}
		ms := fx.NewRPCMessageSender(n, key)
		k := 1 + vh.Pick(6).Draw(t, "messages")
		nonces := map[uint64]bool{}
		bad := 0
		known := false
		var trace []string
		for i := 0; i < k; i++ {
			m := shmsg.NewDecryptionSignature(rapid.Uint64().Draw(t, "batch"), rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "signature"))
			for try := 0; ; try++ {
				n.script = nil
				for j := 0; j < 2; j++ {
					n.script = append(n.script, []string{"ok", "ok", "ok", "down", "empty", "checktx", "delivertx"}[vh.Pick(7).Draw(t, "answer")])
				}
				script := append([]string{}, n.script...)
				before, infos := len(n.txs), n.infos
				var err error
				vh.NoPanic(t, "SendMessage", func() { err = ms.SendMessage(context.Background(), m) })
				answer := script[0]
				if n.infos > infos {
					if answer == "down" || answer == "empty" {
						if err == nil || len(n.txs) != before {
							t.Fatalf("the chain id is not known (%s), but the message was sent, error %v", answer, err)
						}
						if !fx.IsRetriable(err) {
							t.Fatalf("the message is given up as the chain id could not be fetched: %v", err)
						}
						trace = append(trace, "no chain id")
						bad++
						continue
					}
					answer = script[1]
				}
				if n.infos > infos && known {
					c.Class("chain id asked for again")
				}
				known = true
				if len(n.txs) != before+1 {
					t.Fatalf("%d transactions sent for one message", len(n.txs)-before)
				}
				trace = append(trace, answer)
				raw, derr := base64.RawURLEncoding.DecodeString(string(n.txs[before]))
				if derr != nil {
					t.Fatalf("the transaction is not base64: %v", derr)
				}
				signer, serr := shmsg.GetSigner(raw)
				if serr != nil || signer != ek.Addr(key) {
					t.Fatalf("message signed by %s, not by %s: %v", signer.Hex(), ek.Addr(key).Hex(), serr)
				}
				got, gerr := shmsg.GetMessage(raw)
				if gerr != nil {
					t.Fatalf("GetMessage: %v", gerr)
				}
				if string(got.ChainId) != n.chain {
					t.Fatalf("sent for chain %q instead of %q", got.ChainId, n.chain)
				}
				if !proto.Equal(got.Msg, m) {
					t.Fatalf("%v was sent instead of %v", got.Msg, m)
				}
				if nonces[got.RandomNonce] {
					t.Fatalf("nonce %d used twice", got.RandomNonce)
				}
				nonces[got.RandomNonce] = true
				switch answer {
				case "ok":
					if err != nil {
						t.Fatalf("an accepted message fails with %v", err)
					}
				case "delivertx":
					bad++
					if err == nil || fx.IsRetriable(err) {
						t.Fatalf("the application refused the message when carrying it out, but the result is %v", err)
					}
				default:
					bad++
					if err == nil {
						t.Fatalf("a message that was not delivered (%s) counts as sent", answer)
					}
					if !fx.IsRetriable(err) {
						t.Fatalf("a message that was not delivered (%s) is given up: %v", answer, err)
					}
					continue
				}
				break
			}
		}
		c.Case(bad > 0, "%d messages for %q: %s", k, n.chain, strings.Join(trace, " "))
	})
}
