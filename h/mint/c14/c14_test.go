package c14

import (
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// TestEons: configs, restart votes and messages of the eons.
func TestEons(t *testing.T) {
	vh.Check(t, "at least two eons started, one of them by votes, and DKG messages were judged", vh.N(9600, 96000), func(t *rapid.T, c *vh.C) {
		mix := ak.Mix{Config: 30, Started: 2, CheckIn: 1, EonVote: 45, Commit: 8, Accuse: 8, Twisted: 4, Bad: 3, Members: 85}
		s := ak.NewSim(t, mix)
		defer s.Close()
		byVote, byConfig, judged := 0, 0, 0
		n := rapid.IntRange(10, 110).Draw(t, "steps")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 19).Draw(t, "step"); {
			case k == 0:
				s.EndBlock()
				s.Commit()
			case k == 1:
				if rapid.IntRange(0, 3).Draw(t, "restart") == 0 {
					s.Restart(t)
				}
			default:
				st := s.Deliver(s.Next(t))
				if st.Diff != "" {
					relevant := st.Tx.Kind == "eonvote" || strings.Contains(st.Diff, "EonStarted") ||
						strings.Contains(ak.ShowAll(st.Evs), "EonStarted") ||
						((st.Tx.Kind == "commit" || st.Tx.Kind == "accuse") && st.Why != "again")
					if relevant {
						t.Fatalf("%s: %s\n%s", st.Tx.Desc, st.Diff, s.History())
					}
					c.Class("stopped at a difference of another property")
					return
				}
				if strings.Contains(ak.ShowAll(st.Evs), "EonStarted") {
					if st.Tx.Kind == "eonvote" {
						byVote++
					} else {
						byConfig++
					}
				}
				if st.Tx.Kind == "commit" || st.Tx.Kind == "accuse" {
					judged++
				}
			}
		}
		c.ClassN("by vote", byVote)
		c.ClassN("by config", byConfig)
		c.Case(byVote >= 1 && byVote+byConfig >= 2 && judged >= 1, "%s", s.Short())
	})
}
