package kk

import (
	"os"
	"runtime"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/mint/rk"
	"verif/vh"
)

// twin is a keyper that is never restarted.
type twin struct {
	st   *keyper.State
	main *observe.MainChain
	sh   *observe.Shutter
}

func (k *Kp) states() []*keyper.State {
	if k.twin == nil {
		return []*keyper.State{k.st}
	}
	return []*keyper.State{k.st, k.twin.st}
}

func (k *Kp) decide(st *keyper.State, sh *observe.Shutter, main *observe.MainChain) []fx.IAction {
	d := keyper.Decider{
		Config: k.cfg, State: st, Shutter: sh, MainChain: main, Actions: []fx.IAction{}, PhaseLength: keyper.NewConstantPhaseLength(10),
	}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 8000)
			k.s.fail(k.s.mix.Focus, "k%d panicked: %v\n%s", k.id, r, buf[:runtime.Stack(buf, false)])
		}
	}()
	d.Decide()
	return d.Actions
}

// decideBoth lets a keyper and its twin decide, compares the decisions, and maybe stores and loads the keyper.
func (k *Kp) decideBoth() []fx.IAction {
	s := k.s
	if k.twin == nil {
		return k.decide(k.st, k.sh, k.main)
	}
	as := k.decide(k.st, k.sh, k.main)
	if s.stop {
		return nil
	}
	bs := k.decide(k.twin.st, k.twin.sh, k.twin.main)
	if s.stop {
		return nil
	}
	decrypt := func(common.Address, []byte) ([]byte, error) { return nil, nil }
	da := rk.Describe(as, decrypt)
	if b := rk.Describe(bs, decrypt); da != b {
		s.fail("C24", "the restarted keyper k%d decides on\n%s\nbut the one that wasn't on\n%s", k.id, da, b)
		return nil
	}
	if !s.pct(s.mix.Restart, "restart") {
		return as
	}
	if s.dir == "" {
		d, err := os.MkdirTemp("", "verif")
		vh.Harness(err, "scratch directory")
		s.dir = d
	}
	st, sh, main, loaded, err := rk.Restart(s.dir, k.cfg, k.st, k.sh, k.main, as)
	if err != nil {
		s.fail("C24", "k%d: %+v", k.id, err)
		return nil
	}
	if a := rk.Describe(loaded, decrypt); a != da {
		s.fail("C24", "k%d loaded the actions\n%s\nafter deciding on\n%s", k.id, a, da)
		return nil
	}
	k.st, k.sh, k.main = st, sh, main
	s.logf("k%d restarted", k.id)
	s.count("restarts")
	if len(as) > 0 {
		s.count("restarts with pending actions")
	}
	for _, b := range st.Batches {
		if !b.IsEmpty && len(b.VerifiedSignatures) > 0 {
			s.count("restarts with signatures")
			break
		}
	}
	if st.PendingHalfStep != nil {
		s.count("restarts with a pending half step")
	}
	return loaded
}
