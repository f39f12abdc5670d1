package c19

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// TestMempool: bursts of CheckTx between deliveries, blocks and restarts.
func TestMempool(t *testing.T) {
	mix := ak.Mix{Config: 20, Started: 4, CheckIn: 8, EonVote: 4, Sig: 8, Eval: 4, Commit: 1, Accuse: 4, Apology: 4, Share: 3, Odd: 2, Twisted: 5, Bad: 22, Members: 85}
	vh.Check(t, "a sender reached the limit, an outsider and a repeated nonce were refused", vh.N(4500, 45000), func(t *rapid.T, c *vh.C) {
		s := ak.NewSim(t, mix)
		defer s.Close()
		got := map[string]bool{}
		n := rapid.IntRange(5, 40).Draw(t, "steps")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 19).Draw(t, "step"); {
			case k <= 2:
				s.EndBlock()
				s.Commit()
			case k == 3:
				if rapid.IntRange(0, 2).Draw(t, "restart") == 0 {
					// a node stops between blocks
					s.EndBlock()
					s.Commit()
					s.Restart(t)
				}
			case k <= 8:
				// one sender in a burst
				who := rapid.IntRange(0, ak.Pool+ak.Outsiders-1).Draw(t, "who")
				for j := rapid.IntRange(1, 13).Draw(t, "burst"); j > 0; j-- {
					raw := ak.Sign(ak.Key(who), ak.Chain, s.Fresh(who), nil)
					s.Note("check k%d (burst)", who)
					check(t, c, s, raw, got)
				}
			default:
				tx := s.Next(t)
				if rapid.IntRange(0, 3).Draw(t, "check") > 0 {
					check(t, c, s, tx.Raw, got)
				}
				if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
					check(t, c, s, tx.Raw, got)
				}
				if rapid.IntRange(0, 2).Draw(t, "deliver") > 0 {
					if s.Deliver(tx).Diff != "" {
						c.Class("stopped at a difference of another property")
						return
					}
				}
			}
		}
		c.Case(got["limit"] && got["outsider"] && got["nonce"], "%s", s.Short())
	})
}

func check(t *rapid.T, c *vh.C, s *ak.Sim, raw []byte, got map[string]bool) {
	want := s.M.Check(raw)
	why := s.M.Why
	s.Note("   check -> %v (%s)", want, why)
	got[why] = true
	c.Class(fmt.Sprintf("check %v %s", want, why))
	if ak.CheckTx(s.App, raw) != want {
		t.Fatalf("CheckTx admitted is %v, expected %v (%s)\n%s", !want, want, why, s.History())
	}
}
