package c10

import (
	"testing"

	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// TestFresh: histories with replays, used nonces, foreign chain ids, altered and spliced transactions, outsiders
// and restarts. Nothing the model refuses for one of these reasons may have an effect.
func TestFresh(t *testing.T) {
	mix := ak.Mix{Config: 10, Started: 4, CheckIn: 10, EonVote: 6, Sig: 10, Eval: 4, Commit: 4, Accuse: 4, Apology: 4, Share: 14, Twisted: 3, Bad: 40, Members: 65}
	vh.Check(t, "the history replays an accepted transaction, reuses a nonce, has a sender that is not entitled and a restart", vh.N(4000, 40000), func(t *rapid.T, c *vh.C) {
		s := ak.NewSim(t, mix)
		defer s.Close()
		seen := map[string]bool{}
		n := rapid.IntRange(10, 70).Draw(t, "steps")
		accepted := map[string]bool{}
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 19).Draw(t, "step") {
			case 0:
				s.EndBlock()
				s.Commit()
				continue
			case 1:
				if rapid.Bool().Draw(t, "restart") {
					s.Restart(t)
					seen["restart"] = true
				}
				continue
			}
			tx := s.Next(t)
			st := s.Deliver(tx)
			effect := st.Got.Code == 0 || len(st.Got.Events) > 0
			if !st.OK {
				seen[st.Why] = true
				c.Class("refused: " + st.Why)
				if accepted[string(tx.Raw)] {
					seen["replayed"] = true
				}
				switch st.Why {
				case "decode", "chain", "nonce", "sender":
					if effect {
						t.Fatalf("a transaction to be refused (%s) %s\n%s", st.Why, st.Diff, s.History())
					}
				}
			} else {
				accepted[string(tx.Raw)] = true
				c.Class("accepted " + tx.Kind)
				if !effect && tx.Kind == "share" {
					t.Fatalf("a fresh and valid transaction was %s\n%s", st.Diff, s.History())
				}
				signer, _, _ := ak.Decode(tx.Raw)
				for _, ev := range st.Got.Events {
					e, err := shutterevents.MakeEvent(ev, 1)
					if err != nil {
						break
					}
					if a, ok := ak.SenderOf(e); ok && a != signer {
						t.Fatalf("event attributed to %s: %s\n%s", ak.Name(a), ak.Show(e), s.History())
					}
				}
			}
			if st.Diff != "" {
				c.Class("stopped at a difference of another property")
				break
			}
		}
		c.Case(seen["replayed"] && seen["nonce"] && seen["sender"] && seen["restart"], "%s", s.Short())
	})
}

// TestLater: one accepted transaction, then any number of others, blocks and restarts, and the replay changes nothing.
func TestLater(t *testing.T) {
	vh.Check(t, "the replayed transaction was accepted the first time", vh.N(750, 10000), func(t *rapid.T, c *vh.C) {
		mix := ak.Even
		mix.Bad, mix.Twisted = 0, 5
		s := ak.NewSim(t, mix)
		defer s.Close()
		n := rapid.IntRange(1, 60).Draw(t, "steps")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 14).Draw(t, "block") == 0 {
				s.EndBlock()
				s.Commit()
				continue
			}
			if s.Deliver(s.Next(t)).Diff != "" {
				return
			}
		}
		s.EndBlock()
		s.Commit()
		if rapid.Bool().Draw(t, "restart") {
			s.Restart(t)
		}
		ok := 0
		for _, tx := range s.Sent {
			got := ak.Deliver(s.App, tx.Raw)
			if got.Code == 0 || len(got.Events) > 0 {
				t.Fatalf("replay of %s accepted: %s\n%s", tx.Desc, ak.Parse(got.Events), s.History())
			}
			ok++
		}
		if _, diff := s.EndBlock(); diff != "" {
			t.Fatalf("after the replays: %s\n%s", diff, s.History())
		}
		c.Case(ok > 0, "%s", s.Short())
	})
}
