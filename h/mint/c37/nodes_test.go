package c37

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"github.com/tendermint/tendermint/p2p"
	"github.com/tendermint/tendermint/privval"
	tmtypes "github.com/tendermint/tendermint/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/vh"
)

// member is one of several nodes.
type member struct {
	id    int
	root  string
	index int
	own   []byte
	node  *node           // nil: not running
	sent  map[string]bool // taken by its pool, while it is a validator
	view  *observe.Shutter
}

// cluster is a chain of several nodes.
type cluster struct {
	chain
	ms    []*member
	since map[int]int // transactions of a sender since the last time the pools were empty
}

// power of the validators that run, and of all.
func (cl *cluster) power() (running, all int64) {
	for k, p := range cl.weights() {
		all += p
		for _, m := range cl.ms {
			if m.node != nil && string(m.own) == k {
				running += p
			}
		}
	}
	return
}

func (cl *cluster) weights() map[string]int64 {
	if cl.dev {
		return map[string]int64{string(cl.own): 10}
	}
	return cl.M.Validators
}

// update follows the node that is ahead.
func (cl *cluster) update() {
	best := int64(-1)
	for _, m := range cl.ms {
		if m.node == nil {
			continue
		}
		h, err := m.node.height()
		cl.fatal(err)
		if h > best {
			best, cl.node = h, m.node
		}
	}
	cl.follow()
}

func (cl *cluster) stuck() string {
	var r []string
	for _, m := range cl.ms {
		if m.node != nil {
			r = append(r, fmt.Sprintf("node %d: %s\n%s", m.id, m.node.stuck(m.root), m.node.output()))
		}
	}
	return strings.Join(r, "\n")
}

// quiet waits until the pools of the validators are empty and all nodes have all blocks, whose number is returned.
func (cl *cluster) quiet() int {
	begin := time.Now()
	defer func() {
		cl.Note("   quiet after %v at %d", time.Since(begin), len(cl.hashes))
	}()
	for ; ; time.Sleep(20 * time.Millisecond) {
		n := 0
		for _, m := range cl.ms {
			if m.node != nil && cl.weights()[string(m.own)] > 0 {
				k, err := m.node.pending()
				cl.fatal(err)
				n += k
			}
		}
		if n == 0 {
			break
		}
		if time.Since(begin) > 100*time.Second {
			cl.t.Fatalf("%d transactions still wait after 100 s\n%s\n%s", n, cl.stuck(), cl.History())
		}
		cl.update()
	}
	cl.update()
	for target := len(cl.hashes) + 2; len(cl.hashes) < target; time.Sleep(20 * time.Millisecond) {
		cl.update()
		if time.Since(begin) > 160*time.Second {
			cl.t.Fatalf("no block within 60 s\n%s\n%s", cl.stuck(), cl.History())
		}
	}
	want := int64(len(cl.hashes))
	for _, m := range cl.ms {
		for m.node != nil {
			h, err := m.node.height()
			cl.fatal(err)
			if h >= want {
				break
			}
			time.Sleep(20 * time.Millisecond)
			if time.Since(begin) > 220*time.Second {
				cl.t.Fatalf("node %d has %d blocks instead of %d for 60 s\n%s\n%s", m.id, h, want, cl.stuck(), cl.History())
			}
		}
	}
	cl.update()
	for _, m := range cl.ms {
		for tx := range m.sent {
			if m.node != nil && cl.weights()[string(m.own)] > 0 && cl.M.Check([]byte(tx)) {
				cl.t.Fatalf("the pool of validator %d took %s, but it isn't in the chain\n%s", m.id, cl.name([]byte(tx)), cl.History())
			}
		}
		m.sent = map[string]bool{}
	}
	cl.since = map[int]int{}
	return int(want)
}

// agree compares the blocks, validators and events of all nodes.
func (cl *cluster) agree() {
	hashes := cl.hashes[:cl.quiet()]
	for _, m := range cl.ms {
		if m.node == nil {
			continue
		}
		for h, hash := range hashes {
			b, err := m.node.block(int64(h + 1))
			cl.fatal(err)
			if b.hash != hash {
				cl.t.Fatalf("node %d has another block %d\n%s", m.id, h+1, cl.History())
			}
		}
		cl.node, cl.view = m.node, m.view
		cl.look()
		m.view = cl.view
	}
}

// send gives a transaction to a node.
func (cl *cluster) send(m *member, tx ak.Tx) {
	if !cl.sendable(tx.Raw) {
		cl.Note("   not sent")
		return
	}
	// the application takes ten transactions of a sender for a block
	if cl.since[tx.Sender]++; cl.since[tx.Sender] > 7 {
		cl.quiet()
		cl.since[tx.Sender] = 1
	}
	taken, err := m.node.send(tx.Raw)
	cl.fatal(err)
	if taken && cl.weights()[string(m.own)] > 0 {
		m.sent[string(tx.Raw)] = true
	}
	cl.Note("   sent to node %d, taken: %v", m.id, taken)
}

func (cl *cluster) start(m *member, persist time.Duration) {
	n, err := start(m.root, m.index, persist, len(cl.ms) > 1)
	cl.fatal(err)
	m.node, m.sent = n, map[string]bool{}
}

// changesPower tells whether a transaction may lead to other validators.
func changesPower(tx []byte) bool {
	_, msg, ok := ak.Decode(tx)
	return ok && msg.Msg != nil && (msg.Msg.GetBatchConfig() != nil || msg.Msg.GetCheckIn() != nil || msg.Msg.GetBatchConfigStarted() != nil)
}

// TestNodes: several nodes with the genesis of one form a chain, to which their validators are admitted.
func TestNodes(t *testing.T) {
	vh.Check(t, "three nodes, ten accepted transactions, new validators, a node killed and started again", vh.N(12, 400), func(t *rapid.T, c *vh.C) {
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		n := rapid.IntRange(2, 4).Draw(t, "nodes")
		g := ak.DrawGenesis(t, n+1)
		g.Threshold = uint64((2*len(g.Keypers) + 2) / 3)
		mix := ak.Even
		mix.Config, mix.CheckIn, mix.Started = 25, 20, 15
		cl := &cluster{since: map[int]int{}}
		cl.t, cl.several, cl.dev = t, true, vh.Pct(15).Draw(t, "dev")
		cl.Driver = ak.DriverFor(g, mix, n)
		var peers []string
		defer func() {
			for _, m := range cl.ms {
				if m.node != nil {
					m.node.kill()
				}
			}
		}()
		for i := 0; i < n; i++ {
			index, release := freeIndex()
			defer release()
			m := &member{id: i, root: filepath.Join(dir, fmt.Sprint("node", i)), index: index, view: observe.NewShutter()}
			cl.ms = append(cl.ms, m)
			cl.root, cl.index = m.root, m.index
			cl.init()
			if i > 0 {
				b, err := os.ReadFile(filepath.Join(cl.ms[0].root, "config", "genesis.json"))
				vh.Harness(err, "genesis")
				vh.Harness(os.WriteFile(filepath.Join(m.root, "config", "genesis.json"), b, 0o600), "genesis")
			}
			key, err := p2p.LoadNodeKey(filepath.Join(m.root, "config", "node_key.json"))
			cl.fatal(err)
			peers = append(peers, fmt.Sprintf("%s@127.0.0.1:%d", key.ID(), 26656+2*m.index))
			m.own = privval.LoadFilePV(filepath.Join(m.root, "config", "priv_validator_key.json"), filepath.Join(m.root, "data", "priv_validator_state.json")).Key.PubKey.Bytes()
			cl.Vals = append(cl.Vals, m.own)
		}
		for i, m := range cl.ms {
			others := append(append([]string{}, peers[:i]...), peers[i+1:]...)
			file := filepath.Join(m.root, "config", "config.toml")
			b, err := os.ReadFile(file)
			vh.Harness(err, "config")
			b = bytes.Replace(b, []byte("\npersistent_peers = \"\""), []byte("\npersistent_peers = \""+strings.Join(others, ",")+"\""), 1)
			b = bytes.Replace(b, []byte("\naddr_book_strict = true"), []byte("\naddr_book_strict = false"), 1)
			vh.Harness(os.WriteFile(file, b, 0o600), "config")
		}
		doc, err := tmtypes.GenesisDocFromFile(filepath.Join(cl.ms[0].root, "config", "genesis.json"))
		if err != nil {
			t.Fatalf("genesis: %v", err)
		}
		cl.Chain, cl.M.Chain, cl.M.Dev = doc.ChainID, doc.ChainID, cl.dev
		cl.own = cl.ms[0].own
		cl.M.Validators = map[string]int64{string(cl.own): 10}
		intervals := []time.Duration{0, 0, 30 * time.Millisecond, time.Second, time.Hour}
		for _, m := range cl.ms {
			cl.start(m, intervals[vh.Pick(5).Draw(t, "stored every")])
		}
		up := func() (r []*member) {
			for _, m := range cl.ms {
				if m.node != nil {
					r = append(r, m)
				}
			}
			return
		}
		some := func() *member { r := up(); return r[rapid.IntRange(0, len(r)-1).Draw(t, "node")] }
		kills, halts, handed := 0, 0, 0
		give := func(a common.Address, msg *shmsg.Message, format string, args ...interface{}) {
			k := 0
			for ak.Addr(ak.KeyOf(k)) != a {
				k++
			}
			k = ak.KeyOf(k)
			tx := ak.Tx{Raw: ak.Sign(ak.Key(k), cl.Chain, cl.Fresh(k), msg), Sender: k, Msg: msg, Desc: fmt.Sprintf("k%d: ", k) + fmt.Sprintf(format, args...)}
			cl.Sent = append(cl.Sent, tx)
			cl.Note("%s", tx.Desc)
			cl.send(some(), tx)
		}
		// the keypers of the last config check in, most of the time with the keys of their own nodes
		checkIns := func() {
			for _, a := range cl.M.Last().Keypers {
				for i := 0; i < n; i++ {
					if ak.Addr(ak.KeyOf(i)) == a && !cl.M.CheckedIn(a) && !vh.Pct(10).Draw(t, "not yet") {
						give(a, shmsg.NewCheckIn(cl.ms[i].own, ecies.ImportECDSAPublic(&ak.Key(200+i).PublicKey)), "checks in with the key of node %d", i)
					}
				}
			}
		}
		// the keypers of the last config hand the chain over to others
		handOver := func() {
			last := cl.M.Last()
			var ks []common.Address
			size := n
			if vh.Pct(40).Draw(t, "fewer") {
				size -= vh.Pick(n).Draw(t, "fewer by")
			}
			for _, i := range rapid.Permutation([]int{0, 1, 2, 3}[:n]).Draw(t, "new keypers")[:size] {
				ks = append(ks, ak.Addr(ak.KeyOf(i)))
			}
			low := 2*size/3 + 1
			th := uint64(rapid.IntRange(low, size).Draw(t, "threshold"))
			index, start := last.Index+1, last.Start+uint64(vh.Pick(3).Draw(t, "start step"))
			for _, a := range last.Keypers {
				if !vh.Pct(10).Draw(t, "no vote") {
					give(a, shmsg.NewBatchConfig(start, ks, th, ak.Addr(100), index, false, false), "config #%d, %d of %v, from %d on", index, th, ks, start)
				}
			}
			if vh.Pct(50).Draw(t, "wait") {
				cl.quiet()
			}
			checkIns()
			if vh.Pct(50).Draw(t, "wait") {
				cl.quiet()
			}
			for _, a := range last.Keypers {
				if !vh.Pct(10).Draw(t, "no vote") {
					give(a, shmsg.NewBatchConfigStarted(index), "config #%d has started", index)
				}
			}
			cl.quiet()
			checkIns()
			cl.quiet()
		}
		for p := rapid.IntRange(1, 3).Draw(t, "phases"); p > 0; p-- {
			for s := rapid.IntRange(2, 8).Draw(t, "steps"); s > 0; s-- {
				do := vh.Pick(8).Draw(t, "do")
				if len(cl.hashes) < 2 && vh.Pct(70).Draw(t, "hand over first") {
					do = 0
				}
				switch do {
				case 0, 1:
					handOver()
				case 2:
					checkIns()
				}
				for k := rapid.IntRange(0, 4).Draw(t, "transactions"); k > 0; k-- {
					cl.send(some(), cl.Next(t))
				}
				switch vh.Pick(4).Draw(t, "then") {
				case 0:
					cl.quiet()
				case 1:
					m := some()
					if h, err := m.node.height(); err != nil || h == 0 {
						cl.fatal(err)
						break
					}
					cl.node, cl.view = m.node, m.view
					cl.look()
					m.view = cl.view
				case 2:
					cl.update()
				}
			}
			cl.agree()
			if len(cl.weights()) > 1 {
				handed++
			}
			// some nodes are gone for a while
			for _, m := range cl.ms {
				if !vh.Pct(35).Draw(t, "kill") || len(up()) == 1 {
					continue
				}
				cl.Note("-- kill node %d", m.id)
				m.node.kill()
				m.node = nil
				kills++
			}
			running, all := cl.power()
			if 3*running > 2*all {
				for k := rapid.IntRange(0, 6).Draw(t, "transactions meanwhile"); k > 0; k-- {
					tx := cl.Next(t)
					if changesPower(tx.Raw) {
						cl.Note("   not sent")
						continue
					}
					cl.send(some(), tx)
				}
				if rapid.Bool().Draw(t, "wait") {
					cl.agree()
				}
			} else {
				cl.Note("-- %d of %d: the chain stops", running, all)
				halts++
				time.Sleep(200 * time.Millisecond)
				cl.update()
				before := len(cl.hashes)
				time.Sleep(300 * time.Millisecond)
				cl.update()
				if len(cl.hashes) > before+1 {
					t.Fatalf("%d of %d make blocks\n%s", running, all, cl.History())
				}
			}
			for _, m := range cl.ms {
				if m.node == nil {
					cl.Note("-- start node %d", m.id)
					cl.start(m, intervals[vh.Pick(5).Draw(t, "stored every")])
				}
			}
		}
		cl.agree()
		for _, m := range cl.ms {
			m.view = observe.NewShutter()
		}
		cl.agree()
		c.ClassN("killed", kills)
		c.ClassN("halts", halts)
		c.ClassN("several validators", handed)
		c.Class(fmt.Sprintf("%d nodes, dev %v", n, cl.dev))
		c.Case(n >= 3 && cl.accepted >= 10 && handed > 0 && kills > 0, "%d nodes, %d blocks, %d transactions (%d accepted), %d kills, %d halts, %d times several validators", n, len(cl.hashes), cl.txs, cl.accepted, kills, halts, handed)
	})
}
