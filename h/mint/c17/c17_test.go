package c17

import (
	"bytes"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func sameResponse(a, b abcitypes.ResponseDeliverTx) bool {
	// the parts Tendermint requires to be deterministic, and the events
	return a.Code == b.Code && bytes.Equal(a.Data, b.Data) && a.GasWanted == b.GasWanted && a.GasUsed == b.GasUsed &&
		a.Codespace == b.Codespace && ak.SameEvents(a.Events, b.Events)
}

func sameUpdates(a, b []abcitypes.ValidatorUpdate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Power != b[i].Power || !a[i].PubKey.Equal(b[i].PubKey) {
			return false
		}
	}
	return true
}

func noise(t *rapid.T, d *ak.Driver, a *app.ShutterApp) {
	for k := rapid.IntRange(0, 3).Draw(t, "noise"); k > 0; k-- {
		switch rapid.IntRange(0, 4).Draw(t, "kind") {
		case 0:
			a.Query(abcitypes.RequestQuery{Path: "x", Data: []byte("y")})
		case 1:
			a.Info(abcitypes.RequestInfo{})
		case 2:
			who := rapid.IntRange(0, ak.Pool).Draw(t, "who")
			ak.CheckTx(a, ak.Sign(ak.Key(who), ak.Chain, rapid.Uint64Range(0, 60).Draw(t, "nonce"), nil))
		default:
			if len(d.Sent) > 0 {
				ak.CheckTx(a, d.Sent[rapid.IntRange(0, len(d.Sent)-1).Draw(t, "tx")].Raw)
			}
		}
	}
}

// TestReplicas: several applications get the same blocks. One sees nothing else, one CheckTx calls and queries, one
// is stored and loaded again at any time, one at every commit.
func TestReplicas(t *testing.T) {
	mix := ak.Even
	mix.Started, mix.CheckIn = 16, 16
	run(t, mix, 400)
}

// TestValidatorReplicas is the same with more changes of validators.
func TestValidatorReplicas(t *testing.T) {
	run(t, ak.Mix{Config: 26, Started: 34, CheckIn: 25, Twisted: 3, Bad: 3, Members: 95}, 600)
}

func run(t *testing.T, mix ak.Mix, n int) {
	vh.Check(t, "blocks with at least ten accepted transactions, a config change and restarts", vh.N(n, 100*n), func(t *rapid.T, c *vh.C) {
		d := ak.NewDriver(t, mix)
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		apps := []*app.ShutterApp{d.NewApp(), d.NewApp(), d.NewApp(), d.NewApp()}
		accepted, restarts, changes := 0, 0, 0
		height := int64(0)
		blocks := rapid.IntRange(1, 14).Draw(t, "blocks")
		for b := 0; b < blocks; b++ {
			height++
			for _, a := range apps {
				a.BeginBlock(abcitypes.RequestBeginBlock{})
			}
			for k := rapid.IntRange(0, 12).Draw(t, "txs"); k > 0; k-- {
				tx := d.Next(t)
				ok, _ := d.M.Deliver(tx.Raw)
				noise(t, d, apps[1])
				want := ak.Deliver(apps[0], tx.Raw)
				for i, a := range apps[1:] {
					if got := ak.Deliver(a, tx.Raw); !sameResponse(want, got) {
						t.Fatalf("%s: replica 0 answers\n  %d %s\n%s\nreplica %d\n  %d %s\n%s\n%s", tx.Desc, want.Code, want.Log, ak.Parse(want.Events), i+1, got.Code, got.Log, ak.Parse(got.Events), d.History())
					}
				}
				if ok {
					accepted++
				}
			}
			d.Note("-- block %d", height)
			d.M.EndBlock()
			want := apps[0].EndBlock(abcitypes.RequestEndBlock{Height: height})
			noise(t, d, apps[1])
			if len(want.ValidatorUpdates) > 0 {
				changes++
			}
			for i, a := range apps[1:] {
				got := a.EndBlock(abcitypes.RequestEndBlock{Height: height})
				if !sameUpdates(want.ValidatorUpdates, got.ValidatorUpdates) || got.ConsensusParamUpdates != nil {
					t.Fatalf("validator updates of replica 0 %s, replica %d %s\n%s", ak.Updates(want.ValidatorUpdates), i+1, ak.Updates(got.ValidatorUpdates), d.History())
				}
			}
			d.M.Commit()
			wc := apps[0].Commit()
			for i, a := range apps[1:] {
				if gc := a.Commit(); !bytes.Equal(wc.Data, gc.Data) {
					t.Fatalf("app hash %x, replica %d %x\n%s", wc.Data, i+1, gc.Data, d.History())
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "restart") == 0 {
				apps[2] = ak.Reload(t, apps[2], dir)
				restarts++
			}
			apps[3] = ak.Reload(t, apps[3], dir)
			info := apps[0].Info(abcitypes.RequestInfo{})
			for i, a := range apps[1:] {
				if x := a.Info(abcitypes.RequestInfo{}); x.LastBlockHeight != info.LastBlockHeight || !bytes.Equal(x.LastBlockAppHash, info.LastBlockAppHash) {
					t.Fatalf("replica %d reports height %d, replica 0 %d", i+1, x.LastBlockHeight, info.LastBlockHeight)
				}
			}
		}
		c.ClassN("validator set changes", changes)
		c.ClassN("restarts", restarts)
		c.Case(accepted >= 10 && len(d.M.Cfgs) > 1 && restarts > 0, "%s", d.Short())
	})
}
