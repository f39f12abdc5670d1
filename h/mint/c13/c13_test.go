package c13

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// TestValidators: histories of configs, check-ins and started reports; the updates of every block are compared.
func TestValidators(t *testing.T) {
	vh.Check(t, "the validator set changes at least twice", vh.N(7200, 72000), func(t *rapid.T, c *vh.C) {
		mix := ak.Mix{Config: 26, Started: 34, CheckIn: 25, EonVote: 1, Twisted: 3, Bad: 3, Members: 93}
		s := ak.NewSim(t, mix)
		defer s.Close()
		if rapid.IntRange(0, 9).Draw(t, "dev mode") == 0 {
			s.App.DevMode = true
			s.M.Dev = true
		}
		changes := 0
		n := rapid.IntRange(20, 200).Draw(t, "steps")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 13).Draw(t, "step"); {
			case k <= 2:
				ups, diff := s.EndBlock()
				if diff != "" {
					t.Fatalf("%s\n%s", diff, s.History())
				}
				s.Commit()
				if len(ups) > 0 {
					changes++
					for _, u := range ups {
						if u.Power == 0 {
							c.Class("removed")
						} else if u.Power > 10 {
							c.Class("shared key")
						}
					}
				}
			case k == 3:
				if rapid.IntRange(0, 5).Draw(t, "restart") == 0 {
					s.Restart(t)
				}
			default:
				if s.Deliver(s.Next(t)).Diff != "" {
					c.Class("stopped at a difference of another property")
					return
				}
			}
		}
		c.Case(changes >= 2, "%s", s.Short())
	})
}
