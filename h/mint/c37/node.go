// Package c37 checks nodes of the Shuttermint chain: they are set up by the program's init command and run, as
// programs, with the real Tendermint.
package c37

import (
	"bytes"
	"context"
	"encoding/hex"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client/http"
	tmtypes "github.com/tendermint/tendermint/types"

	"verif/vh"
)

// environment of the program run by the test binary.
func environment(dir string, persist time.Duration) []string {
	return []string{"C37_PROGRAM=1", "C37_PERSIST=" + persist.String(), "HOME=" + dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir}
}

// run runs the program to its end.
func run(dir string, args ...string) (status int, output string) {
	exe, err := os.Executable()
	vh.Harness(err, "executable")
	ctx, stop := context.WithTimeout(context.Background(), 100*time.Second)
	defer stop()
	c := exec.CommandContext(ctx, exe, args...)
	c.Dir, c.Env = dir, environment(dir, 0)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err = c.Run()
	if ctx.Err() != nil {
		return -1, out.String() + "\n(timeout)"
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), out.String()
	}
	vh.Harness(err, "run "+strings.Join(args, " "))
	return 0, out.String()
}

func crashed(output string) bool {
	return strings.Contains(output, "panic:") || strings.Contains(output, "fatal error:") || strings.Contains(output, "(timeout)")
}

var lastIndex = os.Getpid() % 2900

// freeIndex is the index of a node whose ports are free, and kept from other test processes until release is called.
func freeIndex() (index int, release func()) {
	for k := 0; k < 3000; k++ {
		lastIndex = 1 + (lastIndex+7)%3000
		lock, err := net.Listen("unix", fmt.Sprintf("@verif-c37-%d", lastIndex))
		if err != nil {
			continue
		}
		free := true
		for _, a := range []string{fmt.Sprintf("127.0.0.1:%d", 26657+2*lastIndex), fmt.Sprintf("0.0.0.0:%d", 26656+2*lastIndex)} {
			l, err := net.Listen("tcp", a)
			if err != nil {
				free = false
				break
			}
			l.Close()
		}
		if free {
			return lastIndex, func() { lock.Close() }
		}
		lock.Close()
	}
	vh.Harness(fmt.Errorf("no free ports"), "ports")
	return 0, nil
}

// node is a running node.
type node struct {
	cmd  *exec.Cmd
	cl   *http.HTTP
	log  *os.File
	done chan struct{}
	err  error
}

// start starts a node; it reports why the program ended if it did.
func start(root string, index int, persist time.Duration, peers bool) (*node, error) {
	exe, err := os.Executable()
	vh.Harness(err, "executable")
	n := &node{done: make(chan struct{})}
	n.log, err = os.Create(filepath.Join(root, "log"))
	vh.Harness(err, "log")
	if !peers {
		// a node that has no peer doesn't sync its blocks from others: if it isn't the only validator, Tendermint
		// would wait for a peer forever
		config := filepath.Join(root, "config", "config.toml")
		b, err := os.ReadFile(config)
		vh.Harness(err, "config")
		vh.Harness(os.WriteFile(config, bytes.Replace(b, []byte("\nfast_sync = true"), []byte("\nfast_sync = false"), 1), 0o600), "config")
	}
	n.cmd = exec.Command(exe, "chain", "--config", filepath.Join(root, "config", "config.toml"))
	n.cmd.Dir, n.cmd.Env = root, environment(root, persist)
	n.cmd.Stdout, n.cmd.Stderr = n.log, n.log
	n.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	vh.Harness(n.cmd.Start(), "start")
	go func() {
		n.err = n.cmd.Wait()
		close(n.done)
	}()
	n.cl, err = http.New(fmt.Sprintf("http://127.0.0.1:%d", 26657+2*index), "/websocket")
	vh.Harness(err, "client")
	for begin := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		if _, err := n.cl.Status(context.Background()); err == nil {
			return n, nil
		}
		select {
		case <-n.done:
			return nil, fmt.Errorf("the node ended: %v\n%s", n.err, n.output())
		default:
		}
		if time.Since(begin) > 60*time.Second {
			n.kill()
			return nil, fmt.Errorf("the node doesn't answer within 60 s\n%s", n.output())
		}
	}
}

// output is the end of what the program wrote.
func (n *node) output() string {
	b, _ := os.ReadFile(n.log.Name())
	if len(b) > 3000 {
		b = append([]byte("...\n"), b[len(b)-3000:]...)
	}
	return string(b)
}

func (n *node) kill() {
	_ = n.cmd.Process.Kill()
	<-n.done
	n.log.Close()
}

// stop asks the node to end.
func (n *node) stop() error {
	_ = n.cmd.Process.Signal(syscall.SIGTERM)
	defer n.log.Close()
	select {
	case <-n.done:
		if n.err != nil || crashed(n.output()) {
			return fmt.Errorf("stopped with %v\n%s", n.err, n.output())
		}
		return nil
	case <-time.After(60 * time.Second):
		_ = n.cmd.Process.Signal(syscall.SIGQUIT)
		<-n.done
		return fmt.Errorf("doesn't end within 60 s of SIGTERM\n%s", n.output())
	}
}

// block is a block with its results.
type block struct {
	hash    string
	txs     [][]byte
	results []*abcitypes.ResponseDeliverTx
	updates []abcitypes.ValidatorUpdate
}

func (n *node) height() (int64, error) {
	s, err := n.cl.Status(context.Background())
	if err != nil {
		return 0, n.lost(err)
	}
	return s.SyncInfo.LatestBlockHeight, nil
}

// lost explains a failed request.
func (n *node) lost(err error) error {
	select {
	case <-n.done:
		return fmt.Errorf("%v: the node has ended: %v\n%s", err, n.err, n.output())
	case <-time.After(300 * time.Millisecond):
		return fmt.Errorf("%v\n%s", err, n.output())
	}
}

func (n *node) block(h int64) (*block, error) {
	b, err := n.cl.Block(context.Background(), &h)
	if err != nil {
		return nil, n.lost(err)
	}
	r := &block{hash: hex.EncodeToString(b.BlockID.Hash)}
	for _, tx := range b.Block.Txs {
		r.txs = append(r.txs, tx)
	}
	for begin := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		res, err := n.cl.BlockResults(context.Background(), &h)
		if err == nil {
			r.results, r.updates = res.TxsResults, res.ValidatorUpdates
			return r, nil
		}
		// the results follow the block a moment later
		if time.Since(begin) > 20*time.Second {
			return nil, n.lost(err)
		}
	}
}

// send gives a transaction to the node and tells whether its pool took it.
func (n *node) send(tx []byte) (bool, error) {
	res, err := n.cl.BroadcastTxSync(context.Background(), tmtypes.Tx(tx))
	if err != nil {
		if strings.Contains(err.Error(), "tx already exists in cache") {
			return false, nil
		}
		return false, n.lost(err)
	}
	return res.Code == 0, nil
}

// pending is the number of transactions in the pool.
func (n *node) pending() (int, error) {
	res, err := n.cl.NumUnconfirmedTxs(context.Background())
	if err != nil {
		return 0, n.lost(err)
	}
	return res.Count, nil
}

// stuck describes a node that makes no blocks.
func (n *node) stuck(root string) string {
	r := ""
	if s, err := n.cl.DumpConsensusState(context.Background()); err == nil {
		r += string(s.RoundState)
	}
	b, _ := os.ReadFile(filepath.Join(root, "data", "priv_validator_state.json"))
	return r + "\n" + string(b)
}
