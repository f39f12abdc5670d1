package ck

import (
	"os"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/mint/rk"
	"verif/vh"
)

// twin is a keyper that is never restarted.
type twin struct {
	st   *keyper.State
	main *observe.MainChain
	sh   *observe.Shutter
}

// decideBoth lets a keyper and its twin decide, compares the decisions, and maybe stores and loads the keyper.
func (k *Node) decideBoth() []fx.IAction {
	s := k.s
	if k.twin == nil {
		return k.decide(k.st, k.sh, k.main)
	}
	var as, bs []fx.IAction
	s.seed++
	seed := s.seed*1000 + int64(k.id)
	rk.Seeded(seed, func() { as = k.decide(k.st, k.sh, k.main) })
	if s.stop {
		return nil
	}
	rk.Seeded(seed, func() { bs = k.decide(k.twin.st, k.twin.sh, k.twin.main) })
	if s.stop {
		return nil
	}
	decrypt := func(a common.Address, b []byte) ([]byte, error) {
		return s.node(a).cfg.EncryptionKey.Decrypt(b, nil, nil)
	}
	if a, b := rk.Describe(as, decrypt), rk.Describe(bs, decrypt); a != b {
		s.fail("C24", "the restarted keyper k%d decides on\n%s\nbut the one that wasn't on\n%s", k.id, a, b)
		return nil
	}
	often := s.mix.Restart
	for _, d := range k.st.DKGs {
		if !d.IsFinalized() {
			often *= 3
			break
		}
	}
	if !k.main.IsSynced() {
		often *= 3
	}
	if s.pct(often, "restart") {
		if s.dir == "" {
			d, err := os.MkdirTemp("", "verif")
			vh.Harness(err, "scratch directory")
			s.dir = d
		}
		st, sh, main, loaded, err := rk.Restart(s.dir, k.cfg, k.st, k.sh, k.main, as)
		if err != nil {
			s.fail("C24", "k%d: %+v", k.id, err)
			return nil
		}
		if a, b := rk.Describe(loaded, decrypt), rk.Describe(as, decrypt); a != b {
			s.fail("C24", "k%d loaded the actions\n%s\nafter deciding on\n%s", k.id, a, b)
			return nil
		}
		k.st, k.sh, k.main = st, sh, main
		s.logf("k%d restarted", k.id)
		s.count("restarts")
		if len(as) > 0 {
			s.count("restarts with pending actions")
		}
		for _, d := range st.DKGs {
			if !d.IsFinalized() {
				s.count("restarts during a DKG")
				break
			}
		}
		return loaded
	}
	return as
}
