package c18

import (
	"bytes"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ) // writes beyond the limit fail instead
	vh.Main(m)
}

type block struct {
	txs     [][]byte
	results []abcitypes.ResponseDeliverTx
	updates []abcitypes.ValidatorUpdate
	hash    []byte
}

// limit makes writes beyond n bytes of a file fail while f runs.
func limit(n uint64, f func()) {
	var old syscall.Rlimit
	vh.Harness(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old), "getrlimit")
	vh.Harness(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: old.Max}), "setrlimit")
	defer func() { vh.Harness(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old), "setrlimit") }()
	f()
}

func play(t *rapid.T, d *ak.Driver, a *app.ShutterApp, h int64, b *block) {
	a.BeginBlock(abcitypes.RequestBeginBlock{})
	for i, tx := range b.txs {
		got := ak.Deliver(a, tx)
		want := b.results[i]
		if got.Code != want.Code || !ak.SameEvents(got.Events, want.Events) {
			t.Fatalf("block %d tx %d: restarted node answers\n  %d %s\n%s\ninstead of\n  %d %s\n%s\n%s", h, i, got.Code, got.Log, ak.Parse(got.Events), want.Code, want.Log, ak.Parse(want.Events), d.History())
		}
	}
	got := ak.EndBlock(a, h)
	if ak.Updates(got) != ak.Updates(b.updates) {
		t.Fatalf("block %d: restarted node updates validators %s instead of %s\n%s", h, ak.Updates(got), ak.Updates(b.updates), d.History())
	}
}

// TestCrash: a node that stores its state now and then, fails to because the write is interrupted at any byte, is
// stopped and started, next to one that just runs.
func TestCrash(t *testing.T) {
	vh.Check(t, "at least two restarts, one replaying blocks, and ten accepted transactions", vh.N(2400, 40000), func(t *rapid.T, c *vh.C) {
		defer func(d time.Duration) { app.PersistMinDuration = d }(app.PersistMinDuration)
		mix := ak.Even
		mix.Bad = 14
		d := ak.NewDriver(t, mix)
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		path := filepath.Join(dir, "app.gob")
		ref := d.NewApp()
		load := func() *app.ShutterApp {
			x, err := app.LoadShutterAppFromFile(path)
			if err != nil {
				t.Fatalf("cannot load the state: %+v\n%s", err, d.History())
			}
			a := &x
			if a.Info(abcitypes.RequestInfo{}).LastBlockHeight == 0 {
				a.InitChain(d.G.InitChain())
			}
			return a
		}
		node := load()
		var blocks []*block
		stored := int64(0) // the last height known to be stored
		accepted, restarts, replayed, faults := 0, 0, 0, 0
		n := rapid.IntRange(2, 14).Draw(t, "blocks")
		for len(blocks) < n {
			b := &block{}
			h := int64(len(blocks) + 1)
			for k := rapid.IntRange(0, 10).Draw(t, "txs"); k > 0; k-- {
				tx := d.Next(t)
				if ok, _ := d.M.Deliver(tx.Raw); ok {
					accepted++
				}
				b.txs = append(b.txs, tx.Raw)
				b.results = append(b.results, ak.Deliver(ref, tx.Raw))
			}
			d.M.EndBlock()
			d.M.Commit()
			d.Note("-- block %d", h)
			b.updates = ak.EndBlock(ref, h)
			b.hash = ref.Commit().Data
			blocks = append(blocks, b)
			play(t, d, node, h, b)
			// what happens at the commit
			switch rapid.IntRange(0, 5).Draw(t, "commit") {
			case 0: // stopped before
				d.Note("   stopped before the commit")
				node = load()
			case 1, 2: // nothing is due to be stored
				app.PersistMinDuration = time.Hour
				commit(t, d, node, b)
			case 3: // storing is interrupted
				app.PersistMinDuration = 0
				max := rapid.Uint64Range(0, 9000).Draw(t, "bytes written")
				size := uint64(0)
				limit(max, func() { commit(t, d, node, b) })
				if st, err := os.Stat(path); err == nil {
					size = uint64(st.Size())
				}
				d.Note("   writing the state stops after %d bytes", max)
				faults++
				c.Class("interrupted write")
				_ = size
				if rapid.Bool().Draw(t, "then it stops") {
					node = reload(t, d, load, blocks, &stored, &restarts, &replayed, true)
				} else {
					stored = -1 // may have been stored if the limit was not reached
					if x, err := app.LoadShutterAppFromFile(path); err == nil {
						stored = x.Info(abcitypes.RequestInfo{}).LastBlockHeight
					}
				}
				continue
			default:
				app.PersistMinDuration = 0
				time.Sleep(time.Microsecond)
				commit(t, d, node, b)
				stored = h
				d.Note("   stored")
			}
			if info := node.Info(abcitypes.RequestInfo{}); rapid.IntRange(0, 2).Draw(t, "restart") == 0 || info.LastBlockHeight != h {
				node = reload(t, d, load, blocks, &stored, &restarts, &replayed, false)
			}
		}
		node = reload(t, d, load, blocks, &stored, &restarts, &replayed, false)
		c.ClassN("restarts", restarts)
		c.ClassN("replayed blocks", replayed)
		c.ClassN("interrupted writes", faults)
		c.Case(restarts >= 2 && replayed > 0 && accepted >= 10, "%s", d.Short())
	})
}

func commit(t *rapid.T, d *ak.Driver, a *app.ShutterApp, b *block) {
	if got := a.Commit().Data; !bytes.Equal(got, b.hash) {
		t.Fatalf("app hash %x instead of %x\n%s", got, b.hash, d.History())
	}
}

// reload starts the node from disk and replays the blocks it does not have.
func reload(t *rapid.T, d *ak.Driver, load func() *app.ShutterApp, blocks []*block, stored *int64, restarts, replayed *int, maybe bool) *app.ShutterApp {
	a := load()
	*restarts++
	info := a.Info(abcitypes.RequestInfo{})
	h := info.LastBlockHeight
	d.Note("   restart at height %d", h)
	// an interrupted write may still have been completed
	if h != *stored && !(maybe && h == int64(len(blocks))) {
		t.Fatalf("restarted at height %d, the last state stored was at %d, %d blocks committed\n%s", h, *stored, len(blocks), d.History())
	}
	*stored = h
	if h > 0 && !bytes.Equal(info.LastBlockAppHash, blocks[h-1].hash) {
		t.Fatalf("restarted with app hash %x instead of %x\n%s", info.LastBlockAppHash, blocks[h-1].hash, d.History())
	}
	app.PersistMinDuration = time.Hour
	for int(h) < len(blocks) {
		b := blocks[h]
		h++
		*replayed++
		play(t, d, a, h, b)
		commit(t, d, a, b)
	}
	return a
}
