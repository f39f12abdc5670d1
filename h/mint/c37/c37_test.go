package c37

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/tendermint/tendermint/privval"
	tmtypes "github.com/tendermint/tendermint/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/cmd"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) {
	if os.Getenv("C37_PROGRAM") != "" {
		if d, err := time.ParseDuration(os.Getenv("C37_PERSIST")); err == nil {
			app.PersistMinDuration = d
		}
		cmd.Execute()
		return
	}
	vh.Main(m)
}

// chain is a node with what it has to do.
type chain struct {
	*ak.Driver
	t        *rapid.T
	root     string
	index    int
	dev      bool
	own      []byte // validator key of the node
	node     *node
	hashes   []string
	events   []string        // of all blocks, with their heights
	sent     map[string]bool // taken by the pool of the running node
	view     *observe.Shutter
	txs      int
	accepted int
	changes  int
	settled  bool // nothing has been sent since the pool was empty and all blocks were seen
	several  bool // nodes, that don't have the same blocks at the same time
}

func (ch *chain) fatal(err error) {
	if err != nil {
		ch.t.Fatalf("%v\n%s", err, ch.History())
	}
}

// sendable tells whether the chain goes on after the transaction: the validator keys of its nodes have to keep more
// than two thirds of the power.
func (ch *chain) sendable(tx []byte) bool {
	_, msg, ok := ak.Decode(tx)
	if !ok || ch.dev || msg.Msg == nil {
		return true
	}
	if b := msg.Msg.GetBatchConfig(); b != nil {
		n := uint64(len(b.Keypers))
		return b.Threshold <= n && 3*b.Threshold > 2*n && !b.Started && !b.ValidatorsUpdated
	}
	if c := msg.Msg.GetCheckIn(); c != nil {
		for _, v := range ch.Vals {
			if ch.several && bytes.Equal(c.ValidatorPublicKey, v) {
				return true
			}
		}
		return bytes.Equal(c.ValidatorPublicKey, ch.own) || len(c.ValidatorPublicKey) != 32
	}
	return true
}

// follow compares the new blocks with the model.
func (ch *chain) follow() {
	top, err := ch.node.height()
	ch.fatal(err)
	if top < int64(len(ch.hashes)) && !ch.several {
		ch.t.Fatalf("the chain has shrunk from %d to %d blocks\n%s", len(ch.hashes), top, ch.History())
	}
	for h := int64(len(ch.hashes)) + 1; h <= top; h++ {
		b, err := ch.node.block(h)
		ch.fatal(err)
		ch.hashes = append(ch.hashes, b.hash)
		if len(b.txs) != len(b.results) {
			ch.t.Fatalf("block %d has %d transactions and %d results\n%s", h, len(b.txs), len(b.results), ch.History())
		}
		for i, tx := range b.txs {
			ok, evs := ch.M.Deliver(tx)
			ch.Note("   block %d: %s accepted %v %s", h, ch.name(tx), ok, ch.M.Why)
			if diff := ak.Compare(*b.results[i], ok, evs); diff != "" {
				ch.t.Fatalf("block %d: %s\n%s", h, diff, ch.History())
			}
			if ok {
				ch.accepted++
			}
			for _, e := range evs {
				ch.events = append(ch.events, fmt.Sprintf("%d %s", h, ak.Show(e)))
			}
			ch.txs++
			delete(ch.sent, string(tx))
		}
		want := ch.M.EndBlock()
		if g, w := ak.Updates(b.updates), ak.Updates(want); g != w {
			ch.t.Fatalf("block %d: validator updates %s instead of %s\n%s", h, g, w, ch.History())
		}
		if len(want) > 0 && !ch.dev {
			ch.changes++
		}
		ch.M.Commit()
	}
}

func (ch *chain) name(tx []byte) string {
	for _, s := range ch.Sent {
		if bytes.Equal(s.Raw, tx) {
			return s.Desc
		}
	}
	ch.t.Fatalf("a transaction in the chain has not been sent: %q\n%s", tx, ch.History())
	return ""
}

// settle waits until the pool is empty. What has been taken by the pool but isn't in the chain must be unacceptable.
func (ch *chain) settle() {
	for begin := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		n, err := ch.node.pending()
		ch.fatal(err)
		if n == 0 {
			break
		}
		if time.Since(begin) > 60*time.Second {
			ch.t.Fatalf("%d transactions still wait after 60 s\n%s\n%s", n, ch.node.output(), ch.History())
		}
	}
	ch.follow()
	// one more block, so that everything taken from the pool has been seen
	target := int64(len(ch.hashes)) + 1
	for begin := time.Now(); int64(len(ch.hashes)) < target; time.Sleep(10 * time.Millisecond) {
		ch.follow()
		if time.Since(begin) > 60*time.Second {
			ch.t.Fatalf("no block within 60 s\n%s\n%s\n%s", ch.node.stuck(ch.root), ch.node.output(), ch.History())
		}
	}
	ch.settled = true
	for tx := range ch.sent {
		if ch.M.Check([]byte(tx)) {
			ch.t.Fatalf("the pool took %s, but it isn't in the chain\n%s", ch.name([]byte(tx)), ch.History())
		}
	}
	ch.sent = map[string]bool{}
}

// validators compares Tendermint's validators with the model.
func (ch *chain) validators() {
	ch.settle()
	want := ch.M.Validators
	if ch.dev {
		want = map[string]int64{string(ch.own): 10}
	}
	var show []string
	for k, p := range want {
		show = append(show, fmt.Sprintf("%x %d", k, p))
	}
	sort.Strings(show)
	got := ""
	for begin := time.Now(); time.Since(begin) < 20*time.Second; time.Sleep(20 * time.Millisecond) {
		per := 100
		res, err := ch.node.cl.Validators(context.Background(), nil, nil, &per)
		if err != nil {
			ch.fatal(ch.node.lost(err))
		}
		var g []string
		for _, v := range res.Validators {
			g = append(g, fmt.Sprintf("%x %d", v.PubKey.Bytes(), v.VotingPower))
		}
		sort.Strings(g)
		if got = strings.Join(g, "\n"); got == strings.Join(show, "\n") {
			return
		}
	}
	ch.t.Fatalf("validators are\n%s\ninstead of\n%s\n%s", got, strings.Join(show, "\n"), ch.History())
}

// contents lists the events a view shows.
func contents(s *observe.Shutter) []string {
	var r []string
	add := func(h int64, e shutterevents.IEvent) { r = append(r, fmt.Sprintf("%d %s", h, ak.Show(e))) }
	for i := range s.BatchConfigs {
		add(s.BatchConfigs[i].Height, &s.BatchConfigs[i])
	}
	for i := range s.Eons {
		e := &s.Eons[i]
		add(e.StartEvent.Height, &e.StartEvent)
		for j := range e.Commitments {
			add(e.Commitments[j].Height, &e.Commitments[j])
		}
		for j := range e.PolyEvals {
			add(e.PolyEvals[j].Height, &e.PolyEvals[j])
		}
		for j := range e.Accusations {
			add(e.Accusations[j].Height, &e.Accusations[j])
		}
		for j := range e.Apologies {
			add(e.Apologies[j].Height, &e.Apologies[j])
		}
		for j := range e.EpochSecretKeyShares {
			add(e.EpochSecretKeyShares[j].Height, &e.EpochSecretKeyShares[j])
		}
	}
	for b := range s.Batches {
		for j := range s.Batches[b].DecryptionSignatures {
			d := &s.Batches[b].DecryptionSignatures[j]
			add(d.Height, d)
		}
	}
	sort.Strings(r)
	return r
}

// look syncs the keyper's view of the chain and compares it.
func (ch *chain) look() {
	for begin := time.Now(); len(ch.hashes) == 0; time.Sleep(10 * time.Millisecond) {
		ch.follow()
		if time.Since(begin) > 60*time.Second {
			ch.t.Fatalf("no block within 60 s\n%s\n%s\n%s", ch.node.stuck(ch.root), ch.node.output(), ch.History())
		}
	}
	ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	next, err := ch.view.SyncToHead(ctx, ch.node.cl)
	if err != nil {
		ch.fatal(ch.node.lost(err))
	}
	ch.view = next
	ch.follow()
	var want []string
	eons := map[string]bool{}
	checked := 0
	for _, e := range ch.events {
		var h int64
		fmt.Sscan(e, &h)
		f := strings.Fields(e)
		if h > ch.view.CurrentBlock {
			break
		}
		switch f[1] {
		case "EonStarted":
			eons[f[2]] = true
		case "CheckIn":
			checked++
			if !ch.view.IsCheckedIn(common.HexToAddress(f[2])) {
				ch.t.Fatalf("%s isn't checked in at %d\n%s", f[2], ch.view.CurrentBlock, ch.History())
			}
			continue
		case "Accusation", "Apology", "PolyCommitment", "PolyEval", "EpochSecretKeyShare":
			if !eons[f[2]] {
				continue
			}
		}
		want = append(want, e)
	}
	sort.Strings(want)
	if g, w := strings.Join(contents(ch.view), "\n"), strings.Join(want, "\n"); g != w {
		ch.t.Fatalf("keypers see at %d\n%s\ninstead of\n%s\n%s", ch.view.CurrentBlock, g, w, ch.History())
	}
	if len(ch.view.KeyperEncryptionKeys) != checked {
		ch.t.Fatalf("keypers see %d encryption keys at %d instead of %d\n%s", len(ch.view.KeyperEncryptionKeys), ch.view.CurrentBlock, checked, ch.History())
	}
}

// history reads all blocks again.
func (ch *chain) history() {
	for h, hash := range ch.hashes {
		b, err := ch.node.block(int64(h + 1))
		ch.fatal(err)
		if b.hash != hash {
			ch.t.Fatalf("block %d has changed\n%s", h+1, ch.History())
		}
	}
}

func (ch *chain) init() {
	blockTime := "0.04"
	if ch.several {
		blockTime = "0.3" // nodes that aren't validators get up to ten blocks per second from others
	}
	args := []string{"init", "--root", ch.root, "--blocktime", blockTime, "--index", fmt.Sprint(ch.index)}
	if ch.dev {
		args = append(args, "--dev")
	}
	for _, k := range ch.G.Keypers {
		args = append(args, "--genesis-keyper", k.Hex())
	}
	if status, out := run(filepath.Dir(ch.root), args...); status != 0 {
		ch.t.Fatalf("init ends with %d: %s\n%s", status, out, ch.History())
	}
}

// TestNode: a node is killed, stopped, set up again and started again between and while it gets transactions.
func TestNode(t *testing.T) {
	vh.Check(t, "ten accepted transactions, two restarts, at least one after a kill", vh.N(480, 6000), func(t *rapid.T, c *vh.C) {
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		pool := ak.Pool
		g := ak.DrawGenesis(t, pool)
		g.Threshold = uint64((2*len(g.Keypers) + 2) / 3)
		index, release := freeIndex()
		defer release()
		ch := &chain{t: t, root: filepath.Join(dir, "node"), index: index, dev: vh.Pct(50).Draw(t, "dev"), sent: map[string]bool{}, view: observe.NewShutter()}
		mix := ak.Even
		mix.Config, mix.CheckIn, mix.Started = 25, 20, 15
		ch.Driver = ak.DriverFor(g, mix, pool)
		ch.init()
		doc, err := tmtypes.GenesisDocFromFile(filepath.Join(ch.root, "config", "genesis.json"))
		if err != nil {
			t.Fatalf("genesis: %v", err)
		}
		ch.Chain, ch.M.Chain, ch.M.Dev = doc.ChainID, doc.ChainID, ch.dev
		pv := privval.LoadFilePV(filepath.Join(ch.root, "config", "priv_validator_key.json"), filepath.Join(ch.root, "data", "priv_validator_state.json"))
		ch.own = pv.Key.PubKey.Bytes()
		ch.M.Validators = map[string]int64{string(ch.own): 10}
		if !ch.dev {
			ch.Vals = [][]byte{ch.own}
		}
		defer func() {
			if ch.node != nil {
				ch.node.kill()
			}
		}()
		kills, restarts, again, exact := 0, 0, 0, 0
		phases := rapid.IntRange(1, 4).Draw(t, "runs")
		for p := 0; p < phases; p++ {
			persist := []time.Duration{0, 0, 30 * time.Millisecond, 300 * time.Millisecond, time.Hour}[vh.Pick(5).Draw(t, "stored every")]
			ch.Note("-- start, state stored every %v", persist)
			n, err := start(ch.root, ch.index, persist, false)
			ch.fatal(err)
			ch.node = n
			if p > 0 {
				ch.follow()
				ch.history()
				restarts++
			}
			ch.sent = map[string]bool{}
			ch.settled = false
			if p > 0 && vh.Pct(40).Draw(t, "settle first") {
				ch.settle()
			}
			for s := rapid.IntRange(1, 12).Draw(t, "steps"); s > 0; s-- {
				for k := rapid.IntRange(1, 5).Draw(t, "transactions"); k > 0; k-- {
					tx := ch.Next(t)
					if !ch.sendable(tx.Raw) {
						ch.Note("   not sent")
						continue
					}
					taken, err := n.send(tx.Raw)
					ch.fatal(err)
					if ch.settled {
						ch.settled = false
						ch.M.Commit()
						if want := ch.M.Check(tx.Raw); want != taken {
							t.Fatalf("taken by the pool: %v instead of %v (%s)\n%s", taken, want, ch.M.Why, ch.History())
						}
						ch.M.Commit()
						exact++
					}
					if taken {
						ch.sent[string(tx.Raw)] = true
					}
					ch.Note("   taken: %v", taken)
				}
				switch vh.Pick(6).Draw(t, "then") {
				case 0:
					ch.settle()
				case 1:
					ch.look()
				case 2:
					time.Sleep(time.Duration(rapid.IntRange(1, 100).Draw(t, "pause")) * time.Millisecond)
				case 3, 4:
					ch.follow()
				}
			}
			switch end := vh.Pick(4).Draw(t, "end"); end {
			case 0:
				ch.validators()
				ch.look()
				ch.Note("-- stop")
				ch.node = nil
				ch.fatal(n.stop())
				c.Class("stopped")
			case 1:
				ch.settle()
				ch.look()
				fallthrough
			default:
				time.Sleep(time.Duration(rapid.IntRange(0, 120).Draw(t, "kill after")) * time.Millisecond)
				ch.Note("-- kill")
				ch.node = nil
				n.kill()
				kills++
				c.Class("killed")
			}
			if p < phases-1 && vh.Pct(15).Draw(t, "set up again") {
				ch.Note("-- init")
				ch.init()
				again++
			}
		}
		// everything is there, and the node goes on
		ch.Note("-- start")
		n, err := start(ch.root, ch.index, 0, false)
		ch.fatal(err)
		ch.node = n
		ch.sent = map[string]bool{}
		ch.follow()
		ch.history()
		ch.validators()
		ch.look()
		ch.view = observe.NewShutter()
		ch.look()
		c.ClassN("transactions in the chain", ch.txs)
		c.ClassN("set up again", again)
		c.ClassN("sent to a settled node", exact)
		c.ClassN("validator changes", ch.changes)
		c.Class(fmt.Sprintf("dev %v", ch.dev))
		c.Case(ch.accepted >= 10 && restarts >= 1 && kills > 0, "%d blocks, %d transactions (%d accepted), %d runs, %d kills", len(ch.hashes), ch.txs, ch.accepted, phases+1, kills)
	})
}
