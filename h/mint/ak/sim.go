package ak

import (
	"os"
	"path/filepath"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"verif/vh"
)

// Sim is an application next to the model.
type Sim struct {
	*Driver
	App    *app.ShutterApp
	Height int64
	dir    string
}

// NewSim starts a chain.
func NewSim(t *rapid.T, mix Mix) *Sim {
	d := NewDriver(t, mix)
	return &Sim{Driver: d, App: d.NewApp()}
}

// Step is what happened to one transaction.
type Step struct {
	Tx   Tx
	Got  abcitypes.ResponseDeliverTx
	OK   bool
	Evs  []shutterevents.IEvent
	Why  string
	Diff string // how the application differed from the model
}

// Compare says how a response differs from what was expected.
func Compare(got abcitypes.ResponseDeliverTx, ok bool, evs []shutterevents.IEvent) string {
	if (got.Code == 0) != ok {
		if ok {
			return "refused: " + got.Log
		}
		return "accepted, events: " + Parse(got.Events)
	}
	if !ok && len(got.Events) > 0 {
		return "refused but emitted " + Parse(got.Events)
	}
	if g, w := Parse(got.Events), ShowAll(evs); g != w {
		return "events\n  " + g + "\ninstead of\n  " + w
	}
	return ""
}

// Deliver gives a transaction to both.
func (s *Sim) Deliver(tx Tx) Step {
	st := Step{Tx: tx}
	st.OK, st.Evs = s.M.Deliver(tx.Raw)
	if !st.OK {
		st.Why = s.M.Why
	}
	st.Got = Deliver(s.App, tx.Raw)
	st.Diff = Compare(st.Got, st.OK, st.Evs)
	switch {
	case st.OK && len(st.Evs) > 0:
		s.Note("   -> accepted, %d events", len(st.Evs))
	case st.OK:
		s.Note("   -> accepted")
	default:
		s.Note("   -> refused (%s)", st.Why)
	}
	return st
}

// EndBlock ends a block in both and says how the validator updates differ.
func (s *Sim) EndBlock() (updates []abcitypes.ValidatorUpdate, diff string) {
	s.Height++
	want := s.M.EndBlock()
	got := EndBlock(s.App, s.Height)
	s.Note("-- block %d", s.Height)
	if g, w := Updates(got), Updates(want); g != w {
		return got, "validator updates " + g + " instead of " + w
	}
	return got, ""
}

// Commit commits in both.
func (s *Sim) Commit() {
	s.M.Commit()
	s.App.Commit()
}

// Scratch makes a directory for files.
func Scratch() string {
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "verif-mint-")
	if err != nil {
		d, err = os.MkdirTemp("", "verif-mint-")
	}
	vh.Harness(err, "scratch")
	return d
}

// Restart stores the application and loads it again.
func (s *Sim) Restart(t *rapid.T) {
	if s.dir == "" {
		s.dir = Scratch()
	}
	s.App = Reload(t, s.App, s.dir)
	s.Note("-- restart")
}

// Close removes files.
func (s *Sim) Close() {
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

// Reload stores and loads an application.
func Reload(t *rapid.T, a *app.ShutterApp, dir string) *app.ShutterApp {
	a.Gobpath = filepath.Join(dir, "app.gob")
	if err := a.PersistToDisk(); err != nil {
		t.Fatalf("cannot persist: %+v", err)
	}
	b, err := app.LoadShutterAppFromFile(a.Gobpath)
	if err != nil {
		t.Fatalf("cannot load the persisted state: %+v", err)
	}
	b.Gobpath = ""
	b.DevMode = a.DevMode
	return &b
}

// SenderOf is the sender an event names.
func SenderOf(e shutterevents.IEvent) (common.Address, bool) {
	switch x := e.(type) {
	case *shutterevents.Accusation:
		return x.Sender, true
	case *shutterevents.Apology:
		return x.Sender, true
	case *shutterevents.CheckIn:
		return x.Sender, true
	case *shutterevents.DecryptionSignature:
		return x.Sender, true
	case *shutterevents.PolyCommitment:
		return x.Sender, true
	case *shutterevents.PolyEval:
		return x.Sender, true
	case *shutterevents.EpochSecretKeyShare:
		return x.Sender, true
	}
	return common.Address{}, false
}

// RemoveScratch removes a directory made by Scratch.
func RemoveScratch(dir string) { os.RemoveAll(dir) }
