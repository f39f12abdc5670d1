package c06

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// snapshot writes the whole observable state in canonical form.
func snapshot(d *puredkg.PureDKG) string {
	b := strings.Builder{}
	fmt.Fprintf(&b, "%d %d %d %d %d\n", d.Phase, d.Eon, d.NumKeypers, d.Threshold, d.Keyper)
	if d.Polynomial != nil {
		for _, v := range *d.Polynomial {
			fmt.Fprintf(&b, "%v,", v)
		}
	}
	for i := range d.Commitments {
		if d.Commitments[i] != nil {
			fmt.Fprintf(&b, "C%d=%x\n", i, d.Commitments[i].Marshal())
		}
		if d.Evals[i] != nil {
			fmt.Fprintf(&b, "E%d=%v\n", i, d.Evals[i])
		}
	}
	ls := []string{}
	for k := range d.Accusations {
		ls = append(ls, fmt.Sprintf("acc %d %d", k.Accuser, k.Accused))
	}
	for k, v := range d.Apologies {
		ls = append(ls, fmt.Sprintf("apo %d %d %v", k.Accuser, k.Accused, v))
	}
	sort.Strings(ls)
	return b.String() + fmt.Sprint(len(d.Commitments), len(d.Evals)) + strings.Join(ls, "\n")
}

func x(i uint64) *big.Int { return new(big.Int).Add(new(big.Int).SetUint64(i), big.NewInt(1)) }

type model struct {
	phase    puredkg.Phase
	commit   map[uint64]*shcrypto.Gammas
	eval     map[uint64]*big.Int
	accuse   map[[2]uint64]bool
	apology  map[[2]uint64]*big.Int
	accepted int
	refused  int
}

// TestMessages drives one instance with arbitrary messages against a model.
func TestMessages(t *testing.T) {
	vh.Check(t, "a sequence of phase starts, serializations and messages with arbitrary eon, sender, receiver, degree and value, checked against a table model; non-trivial: at least one message accepted and one refused", vh.N(8000, 80000), func(t *rapid.T, c *vh.C) {
		n := uint64(rapid.IntRange(1, 5).Draw(t, "n"))
		if rapid.IntRange(0, 14).Draw(t, "large") == 0 {
			n = uint64(rapid.IntRange(6, 20).Draw(t, "nlarge"))
		}
		th := uint64(rapid.IntRange(1, int(n)).Draw(t, "t"))
		me := uint64(rapid.IntRange(0, int(n)-1).Draw(t, "me"))
		eon := rapid.SampledFrom([]uint64{0, 1, 5, 1<<64 - 1}).Draw(t, "eon")
		dv := puredkg.NewPureDKG(eon, n, th, me)
		d := &dv
		m := &model{commit: map[uint64]*shcrypto.Gammas{}, eval: map[uint64]*big.Int{}, accuse: map[[2]uint64]bool{}, apology: map[[2]uint64]*big.Int{}}
		trace := []string{}
		drawEon := func() uint64 {
			if rapid.IntRange(0, 7).Draw(t, "wrongEon") == 0 {
				return rapid.SampledFrom([]uint64{0, 1, 2, 5, 6, 1<<64 - 1}).Draw(t, "eon")
			}
			return eon
		}
		kp := func(l string) uint64 { return uint64(rapid.IntRange(0, int(n)-1).Draw(t, l)) }
		drawVal := func() *big.Int {
			v := kit.DrawScalar(t, "value")
			switch rapid.IntRange(0, 9).Draw(t, "valkind") {
			case 0:
				v.Add(v, kit.Q)
			case 1:
				v.Neg(v).Sub(v, big.NewInt(1))
			case 2:
				v.Set(kit.Q)
			case 3:
				v.Lsh(v, 300)
			}
			return v
		}
		inField := func(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(kit.Q) < 0 }
		apply := func(what string, ok bool, f func() error) {
			before := snapshot(d)
			var err error
			vh.NoPanic(t, what, func() { err = f() })
			trace = append(trace, fmt.Sprintf("%s ok=%v", what, ok))
			if (err == nil) != ok {
				t.Fatalf("%s in phase %v: err=%v, expected acceptance=%v; %v", what, d.Phase, err, ok, trace)
			}
			if ok {
				m.accepted++
				c.Class("accepted " + strings.Fields(what)[0])
			} else {
				m.refused++
				c.Class("refused " + strings.Fields(what)[0])
				if after := snapshot(d); after != before {
					t.Fatalf("refused message changed the state: %s\n--- before\n%s\n--- after\n%s", what, before, after)
				}
			}
		}
		steps := rapid.IntRange(4, 30).Draw(t, "steps")
		for s := 0; s < steps; s++ {
			op := rapid.SampledFrom([]string{"start", "commitment", "commitment", "eval", "eval", "accusation", "apology", "serialize", "result"}).Draw(t, "op")
			switch op {
			case "start":
				switch m.phase {
				case puredkg.Off:
					if _, taken := m.eval[me]; taken {
						// somebody else's message claimed to be ours; own dealing comes first in every caller
						continue
					}
					cm, evs, err := d.StartPhase1Dealing()
					if err != nil {
						t.Fatalf("dealing: %v", err)
					}
					if cm.Eon != eon || cm.Sender != me || uint64(len(*cm.Gammas)) != th {
						t.Fatalf("commitment %+v", cm)
					}
					if uint64(len(evs)) != n-1 {
						t.Fatalf("%d evaluations for %d keypers", len(evs), n)
					}
					seen := map[uint64]bool{}
					for _, e := range evs {
						if seen[e.Receiver] || e.Receiver == me || e.Receiver >= n || e.Sender != me || e.Eon != eon ||
							!shcrypto.VerifyPolyEval(int(e.Receiver), e.Eval, cm.Gammas, th) || e.Eval.Cmp(kit.Poly(*d.Polynomial, x(e.Receiver))) != 0 {
							t.Fatalf("evaluation %+v does not belong to commitment", e)
						}
						seen[e.Receiver] = true
						// every other keyper accepts what we send
						o := puredkg.NewPureDKG(eon, n, th, e.Receiver)
						if err := o.HandlePolyEvalMsg(e); err != nil {
							t.Fatalf("receiver refuses evaluation: %v", err)
						}
						if err := o.HandlePolyCommitmentMsg(cm); err != nil {
							t.Fatalf("receiver refuses commitment: %v", err)
						}
					}
					m.eval[me] = kit.Poly(*d.Polynomial, x(me))
					if rapid.Bool().Draw(t, "selfdeliver") && m.commit[me] == nil {
						m.phase++
						m.commit[me] = cm.Gammas
						apply("commitment of ourselves", true, func() error { return d.HandlePolyCommitmentMsg(cm) })
						m.phase--
					}
				case puredkg.Dealing:
					got := d.StartPhase2Accusing()
					want := map[uint64]bool{}
					for i := uint64(0); i < n; i++ {
						g, e := m.commit[i], m.eval[i]
						if i != me && (g == nil || e == nil || kit.B2(g.Pi(x(me))) != kit.B2(kit.G2(e))) {
							want[i] = true
						}
					}
					if len(got) != len(want) {
						t.Fatalf("accusations %v, want %v", got, want)
					}
					for _, a := range got {
						if a.Accuser != me || a.Eon != eon || !want[a.Accused] {
							t.Fatalf("accusation %+v, want %v", a, want)
						}
						delete(want, a.Accused)
					}
				case puredkg.Accusing:
					got := d.StartPhase3Apologizing()
					want := map[uint64]bool{}
					for k := range m.accuse {
						if k[1] == me {
							want[k[0]] = true
						}
					}
					if len(got) != len(want) {
						t.Fatalf("apologies %v, want to %v", got, want)
					}
					for _, a := range got {
						if a.Accused != me || a.Eon != eon || !want[a.Accuser] || a.Eval.Cmp(kit.Poly(*d.Polynomial, x(a.Accuser))) != 0 {
							t.Fatalf("apology %+v, want %v", a, want)
						}
						delete(want, a.Accuser)
					}
				case puredkg.Apologizing:
					d.Finalize()
				default:
					continue
				}
				m.phase++
				trace = append(trace, fmt.Sprint("phase ", m.phase))
				if d.Phase != m.phase {
					t.Fatalf("phase is %v, want %v", d.Phase, m.phase)
				}
			case "commitment":
				msg := puredkg.PolyCommitmentMsg{Eon: drawEon(), Sender: kp("sender")}
				deg := int(th)
				if rapid.IntRange(0, 3).Draw(t, "wrongdeg") == 0 {
					deg = rapid.IntRange(0, 6).Draw(t, "terms")
				}
				g := shcrypto.Gammas{}
				cs := []*big.Int{}
				for i := 0; i < deg; i++ {
					v := kit.DrawScalar(t, "coeff")
					cs = append(cs, v)
					g = append(g, kit.G2(v))
				}
				msg.Gammas = &g
				ok := msg.Eon == eon && m.phase <= puredkg.Dealing && m.commit[msg.Sender] == nil && deg == int(th)
				apply(fmt.Sprintf("commitment eon=%d sender=%d terms=%d", msg.Eon, msg.Sender, deg), ok, func() error { return d.HandlePolyCommitmentMsg(msg) })
				if ok {
					m.commit[msg.Sender] = msg.Gammas
					if !d.Commitments[msg.Sender].Equal(g) {
						t.Fatalf("stored commitment differs")
					}
					// often follow up with the matching value
					if rapid.Bool().Draw(t, "follow") && m.eval[msg.Sender] == nil && msg.Sender != me {
						e := kit.Poly(cs, x(me))
						m.eval[msg.Sender] = e
						apply("eval matching", true, func() error {
							return d.HandlePolyEvalMsg(puredkg.PolyEvalMsg{Eon: eon, Sender: msg.Sender, Receiver: me, Eval: e})
						})
					}
				}
			case "eval":
				msg := puredkg.PolyEvalMsg{Eon: drawEon(), Sender: kp("sender"), Receiver: me, Eval: drawVal()}
				if rapid.IntRange(0, 4).Draw(t, "otherReceiver") == 0 {
					msg.Receiver = uint64(rapid.IntRange(0, int(n)).Draw(t, "receiver"))
				}
				if m.phase == puredkg.Off && msg.Sender == me {
					continue
				}
				ok := msg.Eon == eon && m.phase <= puredkg.Dealing && msg.Receiver == me && m.eval[msg.Sender] == nil && inField(msg.Eval)
				apply(fmt.Sprintf("eval eon=%d %d->%d %v", msg.Eon, msg.Sender, msg.Receiver, msg.Eval), ok, func() error { return d.HandlePolyEvalMsg(msg) })
				if ok {
					m.eval[msg.Sender] = msg.Eval
					if d.Evals[msg.Sender].Cmp(msg.Eval) != 0 {
						t.Fatalf("stored evaluation differs")
					}
				}
			case "accusation":
				msg := puredkg.AccusationMsg{Eon: drawEon(), Accuser: kp("accuser"), Accused: kp("accused")}
				k := [2]uint64{msg.Accuser, msg.Accused}
				ok := msg.Eon == eon && m.phase <= puredkg.Accusing && !m.accuse[k]
				apply(fmt.Sprintf("accusation eon=%d %d->%d", msg.Eon, msg.Accuser, msg.Accused), ok, func() error { return d.HandleAccusationMsg(msg) })
				if ok {
					m.accuse[k] = true
				}
			case "apology":
				msg := puredkg.ApologyMsg{Eon: drawEon(), Accuser: kp("accuser"), Accused: kp("accused"), Eval: drawVal()}
				k := [2]uint64{msg.Accuser, msg.Accused}
				ok := msg.Eon == eon && m.phase <= puredkg.Apologizing && m.apology[k] == nil && inField(msg.Eval)
				apply(fmt.Sprintf("apology eon=%d %d->%d %v", msg.Eon, msg.Accused, msg.Accuser, msg.Eval), ok, func() error { return d.HandleApologyMsg(msg) })
				if ok {
					m.apology[k] = msg.Eval
				}
			case "serialize":
				buf := bytes.Buffer{}
				if err := gob.NewEncoder(&buf).Encode(d); err != nil {
					t.Fatalf("encode: %v", err)
				}
				e := &puredkg.PureDKG{}
				if err := gob.NewDecoder(&buf).Decode(e); err != nil {
					t.Fatalf("decode: %v", err)
				}
				fix(e) // gob leaves empty maps out, as the keyper's own state loader sees it
				if a, b := snapshot(d), snapshot(e); a != b {
					t.Fatalf("state changed by serialization:\n%s\n---\n%s", a, b)
				}
				d = e
				trace = append(trace, "serialize")
				c.Class("serialized")
			case "result":
				if m.phase < puredkg.Finalized {
					if _, err := d.ComputeResult(); err == nil {
						t.Fatalf("result before finalization in phase %v", m.phase)
					}
				}
			}
			// whole state equals the model
			nc, ne := 0, 0
			for i := uint64(0); i < n; i++ {
				if d.Commitments[i] != nil {
					nc++
					if m.commit[i] == nil || !m.commit[i].Equal(*d.Commitments[i]) {
						t.Fatalf("commitment %d not as accepted; %v", i, trace)
					}
				}
				if d.Evals[i] != nil {
					ne++
					if m.eval[i] == nil || m.eval[i].Cmp(d.Evals[i]) != 0 {
						t.Fatalf("evaluation %d not as accepted; %v", i, trace)
					}
				}
			}
			if nc != len(m.commit) || ne != len(m.eval) || len(d.Accusations) != len(m.accuse) || len(d.Apologies) != len(m.apology) {
				t.Fatalf("accepted messages are missing or surplus: %s; %v", snapshot(d), trace)
			}
			for k := range d.Accusations {
				if !m.accuse[[2]uint64{k.Accuser, k.Accused}] {
					t.Fatalf("accusation %v was never accepted", k)
				}
			}
			for k, v := range d.Apologies {
				if w := m.apology[[2]uint64{k.Accuser, k.Accused}]; w == nil || w.Cmp(v) != 0 {
					t.Fatalf("apology %v not as accepted", k)
				}
			}
		}
		c.Case(m.accepted > 0 && m.refused > 0, "n=%d t=%d me=%d: %s", n, th, me, strings.Join(trace, "; "))
	})
}

func fix(d *puredkg.PureDKG) {}
