package c16

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var mine = map[string]bool{"sig": true, "share": true, "checkin": true, "odd": true}

// TestRelay: signatures, key shares and check-ins around config changes.
func TestRelay(t *testing.T) {
	mix := ak.Mix{Config: 18, Started: 2, CheckIn: 22, EonVote: 2, Sig: 40, Share: 20, Odd: 4, Twisted: 14, Bad: 4, Members: 82}
	vh.Check(t, "at least three messages were relayed, two refused and a config changed", vh.N(9600, 96000), func(t *rapid.T, c *vh.C) {
		s := ak.NewSim(t, mix)
		defer s.Close()
		relayed, refused := 0, 0
		n := rapid.IntRange(10, 90).Draw(t, "steps")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 19).Draw(t, "step"); {
			case k == 0:
				s.EndBlock()
				s.Commit()
			case k == 1:
				if rapid.IntRange(0, 3).Draw(t, "restart") == 0 {
					s.Restart(t)
				}
			default:
				st := s.Deliver(s.Next(t))
				if st.Diff != "" {
					if mine[st.Tx.Kind] {
						t.Fatalf("%s: %s\n%s", st.Tx.Desc, st.Diff, s.History())
					}
					c.Class("stopped at a difference of another property")
					return
				}
				if mine[st.Tx.Kind] {
					if st.OK {
						relayed++
						c.Class("relayed " + st.Tx.Kind)
					} else {
						refused++
						c.Class(st.Tx.Kind + " refused: " + st.Why)
					}
				}
			}
		}
		c.Case(relayed >= 3 && refused >= 2 && len(s.M.Cfgs) > 1, "%s", s.Short())
	})
}
