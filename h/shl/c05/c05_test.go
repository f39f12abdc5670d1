package c05

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type node struct {
	d       *puredkg.PureDKG
	honest  bool
	pos     int // in the public log
	started bool
	private []puredkg.PolyEvalMsg // not yet delivered
}

type sim struct {
	t      *rapid.T
	n, th  int
	eon    uint64
	nodes  []*node
	public []interface{} // the common order
	coeffs [][]*big.Int  // of Byzantine dealers
	sched  func() int
}

func (s *sim) deliver(nd *node, m interface{}) {
	if !nd.honest {
		return
	}
	switch m := m.(type) {
	case puredkg.PolyCommitmentMsg:
		_ = nd.d.HandlePolyCommitmentMsg(m)
	case puredkg.AccusationMsg:
		_ = nd.d.HandleAccusationMsg(m)
	case puredkg.ApologyMsg:
		_ = nd.d.HandleApologyMsg(m)
	}
}

// round runs one phase: starts, Byzantine broadcasts and deliveries happen in a drawn interleaving.
func (s *sim) round(start func(i int), byz []interface{}, byzPrivate []puredkg.PolyEvalMsg) {
	for _, nd := range s.nodes {
		nd.started = !nd.honest
	}
	for _, m := range byzPrivate {
		s.nodes[m.Receiver].private = append(s.nodes[m.Receiver].private, m)
	}
	for {
		type act struct {
			kind, i int
		}
		acts := []act{}
		for i, nd := range s.nodes {
			if !nd.started {
				acts = append(acts, act{0, i})
			}
			if nd.pos < len(s.public) {
				acts = append(acts, act{1, i})
			}
			if len(nd.private) > 0 {
				acts = append(acts, act{2, i})
			}
		}
		if len(byz) > 0 {
			acts = append(acts, act{3, 0})
		}
		if len(acts) == 0 {
			return
		}
		a := acts[s.sched()%len(acts)]
		nd := s.nodes[a.i]
		switch a.kind {
		case 0:
			nd.started = true
			start(a.i)
		case 1:
			s.deliver(nd, s.public[nd.pos])
			nd.pos++
		case 2:
			k := s.sched() % len(nd.private)
			m := nd.private[k]
			nd.private = append(nd.private[:k:k], nd.private[k+1:]...)
			if nd.honest {
				_ = nd.d.HandlePolyEvalMsg(m)
			}
		case 3:
			k := s.sched() % len(byz)
			s.public = append(s.public, byz[k])
			byz = append(byz[:k:k], byz[k+1:]...)
		}
	}
}

func xOf(i int) *big.Int { return big.NewInt(int64(i) + 1) }

// TestByzantine runs whole DKGs.
func TestByzantine(t *testing.T) {
	vh.Check(t, "complete DKG among n<=12 (mostly n<=6) keypers with drawn Byzantine dealers (commitment good/none/wrong degree/zero/equivocating, per-receiver evaluations good/none/wrong/out of range, false accusations, apologies good/none/wrong/unsolicited/duplicate) and drawn interleavings; non-trivial: at least one Byzantine action", vh.N(700, 9000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 6).Draw(t, "n")
		if rapid.IntRange(0, 24).Draw(t, "large") == 0 {
			n = rapid.IntRange(7, 12).Draw(t, "nlarge")
		}
		th := rapid.IntRange(1, n).Draw(t, "t")
		s := &sim{t: t, n: n, th: th, eon: rapid.Uint64().Draw(t, "eon")}
		seed := rapid.Uint64().Draw(t, "schedule")
		ctr := 0
		s.sched = func() int {
			ctr++
			b := kit.Expand(seed, fmt.Sprint("sched", ctr), 4)
			if seed < 4 { // simple schedules stay reachable by shrinking
				return int(seed)
			}
			return int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		}
		trace := []string{}
		note := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)) }
		honest := []int{}
		for i := 0; i < n; i++ {
			h := rapid.IntRange(0, 2).Draw(t, "honest") != 1
			nd := &node{honest: h}
			d := puredkg.NewPureDKG(s.eon, uint64(n), uint64(th), uint64(i))
			nd.d = &d
			s.nodes = append(s.nodes, nd)
			if h {
				honest = append(honest, i)
			}
			s.coeffs = append(s.coeffs, nil)
		}
		byzActions := 0

		// ---- dealing
		byzPub := []interface{}{}
		byzPriv := []puredkg.PolyEvalMsg{}
		for i, nd := range s.nodes {
			if nd.honest {
				continue
			}
			cs := []*big.Int{}
			for k := 0; k < th; k++ {
				cs = append(cs, kit.Scalar(rapid.Uint64Range(0, 1000).Draw(t, "coeff"), fmt.Sprint(i, k)))
			}
			kind := rapid.SampledFrom([]string{"good", "good", "good", "none", "degree", "zero", "equivocate", "wrong eon"}).Draw(t, "commitment")
			note("keyper %d commitment %s", i, kind)
			eon := s.eon
			switch kind {
			case "zero":
				for k := range cs {
					cs[k] = big.NewInt(0)
				}
			case "wrong eon":
				eon++
			}
			gs := func(v []*big.Int) *shcrypto.Gammas {
				g := shcrypto.Gammas{}
				for _, x := range v {
					g = append(g, kit.G2(x))
				}
				return &g
			}
			s.coeffs[i] = cs
			switch kind {
			case "none":
			case "degree":
				d := cs[:th-1]
				if rapid.Bool().Draw(t, "higher") || th == 1 {
					d = append(append([]*big.Int{}, cs...), big.NewInt(int64(rapid.IntRange(0, 1).Draw(t, "lead"))))
				}
				byzPub = append(byzPub, puredkg.PolyCommitmentMsg{Eon: eon, Sender: uint64(i), Gammas: gs(d)})
				if rapid.Bool().Draw(t, "andgood") {
					byzPub = append(byzPub, puredkg.PolyCommitmentMsg{Eon: eon, Sender: uint64(i), Gammas: gs(cs)})
				}
			default:
				byzPub = append(byzPub, puredkg.PolyCommitmentMsg{Eon: eon, Sender: uint64(i), Gammas: gs(cs)})
				if kind == "equivocate" {
					o := append([]*big.Int{}, cs...)
					o[0] = new(big.Int).Mod(new(big.Int).Add(o[0], big.NewInt(1)), kit.Q)
					byzPub = append(byzPub, puredkg.PolyCommitmentMsg{Eon: eon, Sender: uint64(i), Gammas: gs(o)})
				}
			}
			if kind != "good" {
				byzActions++
			}
			for r := 0; r < n; r++ {
				if r == i {
					continue
				}
				ev := kit.Poly(cs, xOf(r))
				ek := rapid.SampledFrom([]string{"good", "good", "good", "none", "wrong", "range", "neg", "two"}).Draw(t, "eval")
				if ek != "good" {
					byzActions++
					note("keyper %d eval to %d %s", i, r, ek)
				}
				m := puredkg.PolyEvalMsg{Eon: s.eon, Sender: uint64(i), Receiver: uint64(r), Eval: ev}
				switch ek {
				case "none":
					continue
				case "wrong":
					m.Eval = new(big.Int).Mod(new(big.Int).Add(ev, big.NewInt(7)), kit.Q)
				case "range":
					m.Eval = new(big.Int).Add(ev, kit.Q)
				case "neg":
					m.Eval = new(big.Int).Neg(new(big.Int).Add(ev, big.NewInt(1)))
				case "two":
					byzPriv = append(byzPriv, puredkg.PolyEvalMsg{Eon: s.eon, Sender: uint64(i), Receiver: uint64(r), Eval: big.NewInt(5)})
				}
				byzPriv = append(byzPriv, m)
			}
		}
		byzAccuse := func() puredkg.AccusationMsg {
			i := rapid.IntRange(0, n-1).Draw(t, "accuser")
			m := puredkg.AccusationMsg{Eon: s.eon, Accuser: uint64(i), Accused: uint64(rapid.IntRange(0, n-1).Draw(t, "accused"))}
			return m
		}
		later := []interface{}{}
		if len(honest) < n {
			for k := rapid.IntRange(0, 3).Draw(t, "accusations"); k > 0; k-- {
				m := byzAccuse()
				if s.nodes[m.Accuser].honest {
					continue
				}
				byzActions++
				if rapid.IntRange(0, 3).Draw(t, "early") == 0 {
					byzPub = append(byzPub, m)
					note("early accusation %d->%d", m.Accuser, m.Accused)
				} else {
					later = append(later, m)
					note("accusation %d->%d", m.Accuser, m.Accused)
				}
			}
		}
		s.round(func(i int) {
			cm, evs, err := s.nodes[i].d.StartPhase1Dealing()
			if err != nil {
				t.Fatalf("dealing: %v", err)
			}
			s.public = append(s.public, cm)
			for _, e := range evs {
				s.nodes[e.Receiver].private = append(s.nodes[e.Receiver].private, e)
			}
		}, byzPub, byzPriv)

		// ---- accusing
		s.round(func(i int) {
			for _, m := range s.nodes[i].d.StartPhase2Accusing() {
				if m.Accuser != uint64(i) || s.nodes[m.Accused].honest {
					t.Fatalf("honest keyper %d accuses %d", i, m.Accused)
				}
				s.public = append(s.public, m)
			}
		}, later, nil)

		// ---- apologizing
		byzApol := []interface{}{}
		accused := map[[2]uint64]bool{}
		for _, m := range s.public {
			if a, ok := m.(puredkg.AccusationMsg); ok {
				accused[[2]uint64{a.Accuser, a.Accused}] = true
			}
		}
		pairs := [][2]uint64{}
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				if !s.nodes[b].honest {
					pairs = append(pairs, [2]uint64{uint64(a), uint64(b)})
				}
			}
		}
		for _, p := range pairs {
			kinds := []string{"none", "none", "none", "none", "none", "good", "wrong"}
			if accused[p] {
				kinds = []string{"good", "good", "good", "none", "wrong", "wrong then good", "range then good"}
			}
			kind := rapid.SampledFrom(kinds).Draw(t, "apology")
			if kind != "none" || accused[p] {
				note("apology %d->%d accused=%v %s", p[1], p[0], accused[p], kind)
				byzActions++
			}
			ev := kit.Poly(s.coeffs[p[1]], xOf(int(p[0])))
			bad := new(big.Int).Mod(new(big.Int).Add(ev, big.NewInt(3)), kit.Q)
			add := func(v *big.Int) {
				s.public = append(s.public, puredkg.ApologyMsg{Eon: s.eon, Accuser: p[0], Accused: p[1], Eval: v})
			}
			switch kind {
			case "good":
				byzApol = append(byzApol, puredkg.ApologyMsg{Eon: s.eon, Accuser: p[0], Accused: p[1], Eval: ev})
			case "wrong":
				byzApol = append(byzApol, puredkg.ApologyMsg{Eon: s.eon, Accuser: p[0], Accused: p[1], Eval: bad})
			case "wrong then good": // the first one counts
				add(bad)
				add(ev)
			case "range then good":
				add(new(big.Int).Add(ev, kit.Q))
				add(ev)
			}
		}
		s.round(func(i int) {
			for _, m := range s.nodes[i].d.StartPhase3Apologizing() {
				s.public = append(s.public, m)
			}
		}, byzApol, nil)
		for _, i := range honest {
			s.nodes[i].d.Finalize()
		}

		// ---- oracle: qualification from the public record only
		commit := map[uint64]*shcrypto.Gammas{}
		apol := map[[2]uint64]*big.Int{}
		for _, m := range s.public {
			switch m := m.(type) {
			case puredkg.PolyCommitmentMsg:
				if m.Eon == s.eon && len(*m.Gammas) == th && commit[m.Sender] == nil {
					commit[m.Sender] = m.Gammas
				}
			case puredkg.AccusationMsg:
				accused[[2]uint64{m.Accuser, m.Accused}] = true
			case puredkg.ApologyMsg:
				k := [2]uint64{m.Accuser, m.Accused}
				if m.Eval.Sign() >= 0 && m.Eval.Cmp(kit.Q) < 0 && apol[k] == nil {
					apol[k] = m.Eval
				}
			}
		}
		qual := []int{}
		for d := 0; d < n; d++ {
			g := commit[uint64(d)]
			ok := g != nil
			for k, v := range apol {
				if ok && k[1] == uint64(d) && kit.B2(at(*g, xOf(int(k[0])))) != kit.B2(kit.G2(v)) {
					ok = false
				}
			}
			for k := range accused {
				if k[1] == uint64(d) && apol[k] == nil {
					ok = false
				}
			}
			if ok {
				qual = append(qual, d)
			} else if s.nodes[d].honest {
				t.Fatalf("oracle: honest dealer %d disqualified: %v", d, trace)
			}
		}
		c.Case(byzActions > 0, "n=%d t=%d honest=%v qualified=%v %s", n, th, honest, qual, strings.Join(trace, "; "))
		c.Class(fmt.Sprintf("byzantine dealers %d", n-len(honest)))
		if len(qual) < th {
			c.Class("too few qualify")
		}
		if len(qual) < n && len(qual) >= th {
			c.Class("some disqualified, key made")
		}

		pk := kit.G2(big.NewInt(0))
		for _, d := range qual {
			pk = kit.Add2(pk, (*commit[uint64(d)])[0])
		}
		id := shcrypto.ComputeEpochID([]byte{1, 2, 3})
		shares := map[int]*shcrypto.EpochSecretKeyShare{}
		for _, i := range honest {
			_ = s.nodes[i].d.ShortInfo()
			r, err := s.nodes[i].d.ComputeResult()
			if len(qual) < th {
				if err == nil {
					t.Fatalf("keyper %d reports success with %d qualified dealers, threshold %d", i, len(qual), th)
				}
				continue
			}
			if err != nil {
				t.Fatalf("keyper %d failed although dealers %v qualify (t=%d): %v; %v", i, qual, th, err, trace)
			}
			if kit.B2((*blst.P2Affine)(r.PublicKey)) != kit.B2(pk) {
				t.Fatalf("keyper %d has another eon public key than the qualified dealers %v give; %v", i, qual, trace)
			}
			if len(r.PublicKeyShares) != n || r.Eon != s.eon || r.Keyper != uint64(i) || r.Threshold != uint64(th) || r.NumKeypers != uint64(n) {
				t.Fatalf("result header of keyper %d: %+v", i, r)
			}
			for j := 0; j < n; j++ {
				want := kit.G2(big.NewInt(0))
				for _, d := range qual {
					want = kit.Add2(want, at(*commit[uint64(d)], xOf(j)))
				}
				if kit.B2((*blst.P2Affine)(r.PublicKeyShares[j])) != kit.B2(want) {
					t.Fatalf("keyper %d has a wrong public key share of keyper %d; %v", i, j, trace)
				}
			}
			if kit.B2(kit.G2((*big.Int)(r.SecretKeyShare))) != kit.B2((*blst.P2Affine)(r.PublicKeyShares[i])) {
				t.Fatalf("keyper %d: secret key share does not match its public key share; %v", i, trace)
			}
			shares[i] = shcrypto.ComputeEpochSecretKeyShare(r.SecretKeyShare, id)
			if r2, err := s.nodes[i].d.ComputeResult(); err != nil || !r2.PublicKey.Equal(r.PublicKey) || !r2.SecretKeyShare.Equal(r.SecretKeyShare) {
				t.Fatalf("computing the result twice differs")
			}
		}
		if len(shares) >= th {
			c.Class("honest threshold")
			idx := []int{}
			for i := range shares {
				idx = append(idx, i)
			}
			sort.Ints(idx)
			p := kit.Subset(t, "combine", len(idx), th)
			use, sh := []int{}, []*shcrypto.EpochSecretKeyShare{}
			for _, k := range p {
				use = append(use, idx[k])
				sh = append(sh, shares[idx[k]])
			}
			key, err := shcrypto.ComputeEpochSecretKey(use, sh, uint64(th))
			if err != nil {
				t.Fatalf("%v", err)
			}
			msg := []byte("the message")
			got, err := shcrypto.Encrypt(msg, (*shcrypto.EonPublicKey)(pk), id, kit.Sigma(t, "sigma")).Decrypt(key)
			if err != nil || string(got) != string(msg) {
				t.Fatalf("keypers %v cannot decrypt: %v; %v", use, err, trace)
			}
		}
	})
}

// at evaluates a commitment in the exponent.
func at(g shcrypto.Gammas, x *big.Int) *blst.P2Affine {
	sum := kit.G2(big.NewInt(0))
	pow := big.NewInt(1)
	for _, p := range g {
		sum = kit.Add2(sum, kit.Mul2(p, pow))
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, x), kit.Q)
	}
	return sum
}
