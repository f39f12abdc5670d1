// Package pk runs keypers as programs against stand-ins for both nodes, and lets them crash.
package pk

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/cmd"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/mint/ek"
	"verif/vh"
)

const programEnv = "VERIF_KEYPER_PROGRAM"

// Program lets a test binary act as the shuttermint program; it returns if it isn't to.
func Program() {
	if os.Getenv(programEnv) == "" {
		return
	}
	go func() {
		_, _ = io.Copy(io.Discard, os.Stdin)
		os.Exit(77) // the test is gone
	}()
	cmd.Execute()
	os.Exit(0)
}

// sent is something a keyper sent: a message or a main chain transaction.
type sent struct {
	inst    int
	what    string
	refused bool // the keyper got an error
	eonVote bool
}

// crash is a plan: at the count-th occurrence of an event, after a delay.
type crash struct {
	at    string
	count int
	delay time.Duration
}

var errGone = errors.New("connection lost")

// Kp is a keyper.
type Kp struct {
	s    *Sim
	id   int
	key  *ecdsa.PrivateKey
	addr common.Address
	cfg  keyper.Config
	dir  string

	cmd         *exec.Cmd
	stdin       io.Closer
	done        chan struct{} // closed when the process has ended
	outstanding int32
	stops       []func()
	downFor     int // ticks until the restart
	away        int // ticks without a request

	mu       sync.Mutex
	inst     int
	up       bool
	expected bool // to end
	ended    string
	plan     *crash
	fail     map[string]int // requests that fail
	seen     map[string]int
	total    int
	msgs     []*sent
	txs      []*sent
	polys    map[uint64]map[string]bool
	evals    map[string]map[string]bool
	shares   map[uint64]map[string]bool // batch -> eon and share
}

func newKp(s *Sim, i int, key *ecdsa.PrivateKey) *Kp {
	enc, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprint("encryption ", i))))
	vh.Harness(err, "encryption key")
	k := &Kp{
		s: s, id: i, key: key, addr: ek.Addr(key), fail: map[string]int{}, polys: map[uint64]map[string]bool{}, evals: map[string]map[string]bool{},
		shares: map[uint64]map[string]bool{}, dir: filepath.Join(s.dir, fmt.Sprint("k", i)),
	}
	k.cfg = keyper.Config{
		SigningKey: key, ValidatorKey: ed25519.NewKeyFromSeed(crypto.Keccak256([]byte(fmt.Sprint("validator ", i)))), EncryptionKey: ecies.ImportECDSA(enc),
		ConfigContractAddress: s.O.Config, BatcherContractAddress: s.O.Batcher, KeyBroadcastContractAddress: s.O.KeyBroadcast,
		ExecutorContractAddress: s.O.Executor, DepositContractAddress: s.O.Deposit, KeyperSlasherAddress: s.O.Slasher,
		ExecutionStaggering: s.staggering, DKGPhaseLength: uint64(s.L), DBDir: "db", GasPriceMultiplier: 1,
	}
	vh.Harness(os.MkdirAll(filepath.Join(k.dir, "db"), 0o700), "directory")
	return k
}

// start starts the program.
func (k *Kp) start() {
	k.mu.Lock()
	k.inst++
	inst := k.inst
	k.up, k.expected, k.ended = true, false, ""
	k.seen = map[string]int{}
	k.mu.Unlock()
	eth, stopEth := k.s.O.ServeWith(func(method string, data []byte) error { return k.request(inst, "eth "+method, data) })
	tm, stopTm := k.s.tc.Serve(func(method string) error { return k.request(inst, "tm "+method, nil) },
		func(tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) { return k.broadcast(inst, tx) })
	k.stops = []func(){stopEth, stopTm}
	k.cfg.EthereumURL, k.cfg.ShuttermintURL = eth, tm
	var b bytes.Buffer
	vh.Harness(k.cfg.WriteTOML(&b), "config file")
	conf := filepath.Join(k.dir, "config.toml")
	vh.Harness(os.WriteFile(conf, b.Bytes(), 0o600), "config file")
	exe, err := os.Executable()
	vh.Harness(err, "executable")
	log, err := os.OpenFile(filepath.Join(k.dir, "log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	vh.Harness(err, "log")
	c := exec.Command(exe, "keyper", "--config", conf)
	c.Dir = k.dir
	c.Env = []string{programEnv + "=1", "HOME=" + k.dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + k.dir, "GOMAXPROCS=2"}
	c.Stdout, c.Stderr = log, log
	k.stdin, err = c.StdinPipe()
	vh.Harness(err, "stdin")
	done := make(chan struct{})
	k.cmd, k.done = c, done
	vh.Harness(c.Start(), "start")
	k.s.logf("k%d starts (%d)", k.id, inst)
	go func() {
		err := c.Wait()
		log.Close()
		k.mu.Lock()
		k.up = false
		if !k.expected {
			k.ended = fmt.Sprintf("k%d ended: %v", k.id, err)
		}
		k.mu.Unlock()
		close(done)
	}()
	k.watch(inst, done)
}

func (k *Kp) tail() string {
	b, _ := os.ReadFile(filepath.Join(k.dir, "log"))
	if len(b) > 6000 {
		b = b[len(b)-6000:]
	}
	return string(b)
}

// kill crashes the program.
func (k *Kp) kill(inst int) {
	k.mu.Lock()
	if k.inst != inst || !k.up {
		k.mu.Unlock()
		return
	}
	k.expected = true
	c, done := k.cmd, k.done
	k.mu.Unlock()
	_ = c.Process.Kill()
	<-done
}

// stop asks the program to end.
func (k *Kp) stop() {
	k.mu.Lock()
	k.expected = true
	k.mu.Unlock()
	_ = k.cmd.Process.Signal(syscall.SIGTERM)
	select {
	case <-k.done:
	case <-time.After(20 * time.Second):
		k.kill(k.inst)
		k.s.violation("k%d doesn't end when it is asked to", k.id)
	}
}

// release frees what belonged to a program that has ended.
func (k *Kp) release() {
	for _, f := range k.stops {
		f()
	}
	k.stops = nil
	if k.stdin != nil {
		k.stdin.Close()
	}
}

// event counts an event and crashes the program if that is the plan. It says if the program is still there.
func (k *Kp) event(inst int, what string) bool {
	k.mu.Lock()
	if k.inst != inst || !k.up {
		k.mu.Unlock()
		return false
	}
	k.seen[what]++
	k.total++
	p := k.plan
	if p == nil || p.at != what || k.expected {
		k.mu.Unlock()
		return true
	}
	p.count--
	if p.count > 0 {
		k.mu.Unlock()
		return true
	}
	k.plan = nil
	k.mu.Unlock()
	k.s.logf("k%d crashes at %s", k.id, what)
	k.s.count("crashes at " + what)
	if p.delay > 0 {
		go func() {
			time.Sleep(p.delay)
			k.kill(inst)
		}()
		return true
	}
	k.kill(inst)
	return false
}

// request handles a request of the program.
func (k *Kp) request(inst int, what string, data []byte) error {
	atomic.AddInt32(&k.outstanding, 1)
	defer atomic.AddInt32(&k.outstanding, -1)
	if what == "eth sentRawTransaction" {
		// it has been taken up
		k.mu.Lock()
		k.txs = append(k.txs, &sent{inst: inst, what: hex.EncodeToString(data)})
		k.mu.Unlock()
	}
	if !k.event(inst, what) {
		return errGone
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	if n := k.fail[what]; n > 0 {
		k.fail[what] = n - 1
		k.s.count("failed requests")
		return errors.New("try again")
	}
	return nil
}

// broadcast is broadcast_tx_commit.
func (k *Kp) broadcast(inst int, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	if !k.event(inst, "tm broadcast") {
		return nil, errGone
	}
	s := k.s
	signer, m, ok := ak.Decode(tx)
	if !ok || signer != k.addr || string(m.ChainId) != s.tc.ID || m.Msg == nil {
		s.violation("k%d sent %x by %s: %v", k.id, []byte(tx), signer.Hex(), m)
		return nil, errors.New("what's that?")
	}
	r := k.record(inst, m.Msg)
	refuse := func() {
		k.mu.Lock()
		defer k.mu.Unlock()
		r.refused = true
	}
	k.mu.Lock()
	n := k.fail["tm broadcast"]
	if n > 0 {
		k.fail["tm broadcast"] = n - 1
	}
	k.mu.Unlock()
	if n > 0 {
		s.count("failed requests")
		refuse()
		return nil, errors.New("try again")
	}
	wait, ok := s.submit(tx)
	if !ok {
		s.count("refused by CheckTx")
		refuse()
		return &ctypes.ResultBroadcastTxCommit{CheckTx: checkRefused, Hash: tx.Hash()}, nil
	}
	if !k.event(inst, "tm in pool") {
		return nil, errGone
	}
	d, ok := <-wait
	if !ok {
		return nil, errGone
	}
	if !k.event(inst, "tm committed") {
		return nil, errGone
	}
	return &ctypes.ResultBroadcastTxCommit{DeliverTx: d.res, Hash: tx.Hash(), Height: d.height}, nil
}

// record remembers what a keyper told Shuttermint.
func (k *Kp) record(inst int, m *shmsg.Message) *sent {
	r := &sent{inst: inst, what: m.String(), eonVote: m.GetEonStartVote() != nil}
	k.mu.Lock()
	defer k.mu.Unlock()
	k.msgs = append(k.msgs, r)
	k.s.logf("k%d sends (%d) %.150s", k.id, inst, m.String())
	if c := m.GetPolyCommitment(); c != nil {
		add(k.polys, c.Eon, m.String())
	}
	if e := m.GetPolyEval(); e != nil {
		for i, a := range e.Receivers {
			v, err := k.s.decrypt(common.BytesToAddress(a), e.EncryptedEvals[i])
			id := fmt.Sprintf("eon %d to %x", e.Eon, a)
			if k.evals[id] == nil {
				k.evals[id] = map[string]bool{}
			}
			k.evals[id][fmt.Sprintf("%x %v", v, err)] = true
		}
	}
	if x := m.GetEpochSecretKeyShare(); x != nil {
		add(k.shares, x.Epoch, fmt.Sprintf("eon %d %x", x.Eon, x.Share))
	}
	return r
}

func add(m map[uint64]map[string]bool, i uint64, what string) {
	if m[i] == nil {
		m[i] = map[string]bool{}
	}
	m[i][what] = true
}

// watch reports when the program has replaced one of its files.
func (k *Kp) watch(inst int, done chan struct{}) {
	fd, err := syscall.InotifyInit1(syscall.IN_CLOEXEC | syscall.IN_NONBLOCK)
	vh.Harness(err, "inotify")
	_, err = syscall.InotifyAddWatch(fd, filepath.Join(k.dir, "db"), syscall.IN_MOVED_TO|syscall.IN_CREATE)
	vh.Harness(err, "inotify")
	f := os.NewFile(uintptr(fd), "inotify")
	go func() {
		<-done
		f.Close()
	}()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := f.Read(buf)
			if err != nil {
				return
			}
			for b := buf[:n]; len(b) >= syscall.SizeofInotifyEvent; {
				mask := uint32(b[4]) | uint32(b[5])<<8 | uint32(b[6])<<16 | uint32(b[7])<<24
				l := int(b[12]) | int(b[13])<<8
				name := strings.TrimRight(string(b[16:16+l]), "\x00")
				b = b[16+l:]
				if mask&syscall.IN_MOVED_TO != 0 {
					k.event(inst, "file "+name)
				} else {
					k.event(inst, "creation of "+name)
				}
			}
		}
	}()
}

// requests says how many requests the program has made.
func (k *Kp) requests() int {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.total
}

// idle says if the program waits for something to happen.
func (k *Kp) idle() bool {
	k.mu.Lock()
	up, c, n := k.up, k.cmd, k.seen["eth newHeads"]*k.seen["tm subscribe"]
	k.mu.Unlock()
	if !up {
		return true
	}
	if n == 0 || atomic.LoadInt32(&k.outstanding) > 0 {
		return false
	}
	dir := fmt.Sprintf("/proc/%d/task", c.Process.Pid)
	l, err := os.ReadDir(dir)
	if err != nil {
		return true
	}
	for _, e := range l {
		b, err := os.ReadFile(filepath.Join(dir, e.Name(), "stat"))
		if err != nil {
			continue
		}
		if i := bytes.LastIndexByte(b, ')'); i > 0 && i+2 < len(b) && b[i+2] != 'S' {
			return false
		}
	}
	return true
}
