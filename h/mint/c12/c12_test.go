package c12

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func run(t *rapid.T, c *vh.C, mix ak.Mix, steps int) {
	s := ak.NewSim(t, mix)
	defer s.Close()
	adopted, refused, started := 0, 0, 0
	n := rapid.IntRange(5, steps).Draw(t, "steps")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 11).Draw(t, "step") {
		case 0:
			was := s.M.Last().Started
			if _, diff := s.EndBlock(); diff != "" {
				// whether a config counts as started shows here and below
				c.Class("stopped at validator updates")
				return
			}
			s.Commit()
			if !was && s.M.Last().Started {
				started++
			}
		case 1:
			if rapid.IntRange(0, 5).Draw(t, "restart") == 0 {
				s.Restart(t)
			}
		default:
			st := s.Deliver(s.Next(t))
			if st.Diff != "" {
				if st.Tx.Kind == "config" || st.Tx.Kind == "started" {
					t.Fatalf("%s: %s\n%s", st.Tx.Desc, st.Diff, s.History())
				}
				return
			}
			if st.Tx.Kind == "config" {
				if len(st.Evs) > 0 {
					adopted++
				} else if !st.OK {
					refused++
					c.Class("config refused: " + st.Why)
				}
			}
		}
		last := s.App.LastConfig()
		if want := s.M.Last(); last.Started != want.Started || last.ConfigIndex != want.Index || last.Threshold != want.Threshold {
			t.Fatalf("latest config is %+v instead of %+v\n%s", *last, *want, s.History())
		}
	}
	c.ClassN("adopted", adopted)
	c.ClassN("started", started)
	c.Case(adopted >= 2 && refused >= 1, "%s", s.Short())
}

// TestVotes: histories of proposals, competing and malformed ones, from members and outsiders.
func TestVotes(t *testing.T) {
	mix := ak.Mix{Config: 60, Started: 8, CheckIn: 6, EonVote: 2, Eval: 1, Sig: 1, Twisted: 12, Bad: 4, Members: 85}
	vh.Check(t, "at least two configs are adopted and one vote is refused", vh.N(7200, 72000), func(t *rapid.T, c *vh.C) { run(t, c, mix, 90) })
}

// TestStarted: started reports across adoptions.
func TestStarted(t *testing.T) {
	mix := ak.Mix{Config: 35, Started: 35, CheckIn: 12, Twisted: 4, Bad: 3, Members: 92}
	vh.Check(t, "at least two configs are adopted and one vote is refused", vh.N(7200, 72000), func(t *rapid.T, c *vh.C) { run(t, c, mix, 110) })
}
