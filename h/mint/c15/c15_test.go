package c15

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var dkg = map[string]bool{"eval": true, "commit": true, "accuse": true, "apology": true}

func run(t *rapid.T, c *vh.C, mix ak.Mix, eonsFirst int) {
	s := ak.NewSim(t, mix)
	defer s.Close()
	relayed, refused := 0, 0
	n := rapid.IntRange(10, 90).Draw(t, "steps")
	first := true
	for i := 0; i < n; i++ {
		if first && len(s.M.Eons) < eonsFirst {
			// get a DKG going
			snd, kind, msg, desc := s.MessageOf(t, "config")
			st := s.Deliver(ak.Tx{Raw: ak.Sign(ak.Key(snd), ak.Chain, s.Fresh(snd), msg), Kind: kind, Sender: snd, Msg: msg, Desc: desc})
			if st.Diff != "" {
				return
			}
			continue
		}
		first = false
		switch k := rapid.IntRange(0, 29).Draw(t, "step"); {
		case k == 0:
			s.EndBlock()
			s.Commit()
		case k == 1:
			if rapid.IntRange(0, 3).Draw(t, "restart") == 0 {
				s.Restart(t)
			}
		default:
			st := s.Deliver(s.Next(t))
			if st.Diff != "" {
				if dkg[st.Tx.Kind] {
					t.Fatalf("%s: %s\n%s", st.Tx.Desc, st.Diff, s.History())
				}
				c.Class("stopped at a difference of another property")
				return
			}
			if dkg[st.Tx.Kind] {
				if st.OK {
					relayed++
					c.Class("relayed " + st.Tx.Kind)
				} else {
					refused++
					c.Class(st.Tx.Kind + " refused: " + st.Why)
				}
			}
		}
	}
	c.Case(relayed >= 4 && refused >= 2, "%s", s.Short())
}

// TestRelay: DKG messages of every kind in several eons.
func TestRelay(t *testing.T) {
	mix := ak.Mix{Config: 6, EonVote: 8, Eval: 26, Commit: 18, Accuse: 18, Apology: 18, Share: 1, Twisted: 12, Bad: 4, Members: 88}
	vh.Check(t, "at least four DKG messages were relayed and two refused", vh.N(7200, 72000), func(t *rapid.T, c *vh.C) { run(t, c, mix, 1) })
}
