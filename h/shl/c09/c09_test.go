package c09

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func drawCoeffs(t *rapid.T, n int) []*big.Int {
	cs := []*big.Int{}
	for i := 0; i < n; i++ {
		cs = append(cs, kit.DrawScalar(t, "coeff"))
	}
	return cs
}

func drawKeyper(t *rapid.T, label string) int {
	return rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 1000), rapid.SampledFrom([]int{255, 256, 65535, 1 << 31, 1<<62 - 1})).Draw(t, label)
}

func x(i int) *big.Int { return new(big.Int).Add(big.NewInt(int64(i)), big.NewInt(1)) }

// TestVerifyEval: evaluations verify iff they are the committed polynomial's value.
func TestVerifyEval(t *testing.T) {
	vh.Check(t, "polynomial (zero, boundary, random coefficients), keyper index, candidate value (right, off by one, other keyper, negated, zero, random), threshold claimed right or wrong; non-trivial: degree>=1 or candidate differs from the right value", vh.N(7500, 75000), func(t *rapid.T, c *vh.C) {
		th := rapid.IntRange(1, 6).Draw(t, "threshold")
		cs := drawCoeffs(t, th)
		cs0 := []*big.Int{}
		for _, v := range cs {
			cs0 = append(cs0, new(big.Int).Set(v))
		}
		p, err := shcrypto.NewPolynomial(cs)
		if err != nil {
			t.Fatalf("valid coefficients refused: %v", err)
		}
		g := p.Gammas()
		if p.Degree() != uint64(th-1) || g.Degree() != uint64(th-1) || shcrypto.DegreeFromThreshold(uint64(th)) != uint64(th-1) {
			t.Fatalf("degree of %d coefficients is %d, commitment %d", th, p.Degree(), g.Degree())
		}
		for i, v := range cs0 {
			if kit.B2((*g)[i]) != kit.B2(kit.G2(v)) {
				t.Fatalf("commitment %d does not match its coefficient", i)
			}
		}
		i := drawKeyper(t, "keyper")
		j := drawKeyper(t, "keyper2")
		if (shcrypto.KeyperX(i).Cmp(shcrypto.KeyperX(j)) == 0) != (i == j) || new(big.Int).Mod(shcrypto.KeyperX(i), kit.Q).Sign() == 0 {
			t.Fatalf("points of keypers %d and %d: %v %v", i, j, shcrypto.KeyperX(i), shcrypto.KeyperX(j))
		}
		want := kit.Poly(cs0, shcrypto.KeyperX(i))
		got := p.EvalForKeyper(i)
		if got.Cmp(want) != 0 || !shcrypto.ValidEval(got) {
			t.Fatalf("evaluation for keyper %d is %v, want %v", i, got, want)
		}
		at := kit.DrawScalar(t, "at")
		if v := p.Eval(at); new(big.Int).Mod(v, kit.Q).Cmp(kit.Poly(cs0, at)) != 0 || v.Cmp(kit.Q) >= 0 || v.Sign() < 0 {
			t.Fatalf("evaluation at %v is %v", at, v)
		}
		if kit.B2(g.Pi(at)) != kit.B2(kit.G2(kit.Poly(cs0, at))) {
			t.Fatalf("commitment evaluated at %v differs", at)
		}
		var cand *big.Int
		kind := rapid.SampledFrom([]string{"right", "right", "plus", "other keyper", "negated", "zero", "random", "constant term"}).Draw(t, "kind")
		switch kind {
		case "right":
			cand = new(big.Int).Set(want)
		case "plus":
			cand = new(big.Int).Add(want, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "d"))))
		case "other keyper":
			cand = p.EvalForKeyper(j)
		case "negated":
			cand = new(big.Int).Neg(want)
		case "zero":
			cand = big.NewInt(0)
		case "random":
			cand = kit.DrawScalar(t, "cand")
		case "constant term":
			cand = new(big.Int).Set(cs0[0])
		}
		cand.Mod(cand, kit.Q)
		claimed := th
		if rapid.IntRange(0, 3).Draw(t, "wrongThreshold") == 0 {
			claimed = rapid.IntRange(1, 8).Draw(t, "claimed")
		}
		right := cand.Cmp(want) == 0
		for r := 0; r < 2; r++ {
			if v := shcrypto.VerifyPolyEval(i, cand, g, uint64(claimed)); v != (right && claimed == th) {
				t.Fatalf("%s: verify=%v, right value=%v, threshold %d claimed %d", kind, v, right, th, claimed)
			}
		}
		for i, v := range cs0 {
			if v.Cmp((*p)[i]) != 0 || kit.B2((*g)[i]) != kit.B2(kit.G2(v)) {
				t.Fatalf("polynomial or commitment was changed by use")
			}
		}
		// another commitment
		g2 := shcrypto.Gammas{}
		for _, q := range *g {
			g2 = append(g2, q)
		}
		k := rapid.IntRange(0, th-1).Draw(t, "which")
		g2[k] = kit.Add2(g2[k], kit.G2(big.NewInt(1)))
		if g2.Equal(*g) || !g.Equal(*p.Gammas()) || g.Equal((*g)[:th-1]) || g.Equal(append(append(shcrypto.Gammas{}, *g...), kit.G2(big.NewInt(0)))) {
			t.Fatalf("commitment equality is wrong")
		}
		if shcrypto.VerifyPolyEval(i, want, &g2, uint64(th)) {
			t.Fatalf("value verifies against an altered commitment")
		}
		c.Case(th > 1 || !right, "%s t=%d claimed=%d keyper=%d coeffs=%x", kind, th, claimed, i, cs0)
		c.Class(kind)
	})
}

// TestKeysConsistent: aggregate keys match the secrets, also in the exponent.
func TestKeysConsistent(t *testing.T) {
	vh.Check(t, "dealers' polynomials for n keypers; public shares, eon key, interpolation by a random threshold subset; non-trivial: n>=2 and t>=2", vh.N(2100, 21000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 8).Draw(t, "n")
		th := rapid.IntRange(1, n).Draw(t, "t")
		dealers := rapid.IntRange(1, 4).Draw(t, "dealers")
		gs := []*shcrypto.Gammas{}
		ps := []*shcrypto.Polynomial{}
		secret := new(big.Int)
		all := [][]*big.Int{}
		for d := 0; d < dealers; d++ {
			cs := drawCoeffs(t, th)
			all = append(all, cs)
			secret.Add(secret, cs[0])
			p, err := shcrypto.NewPolynomial(cs)
			if err != nil {
				t.Fatalf("%v", err)
			}
			ps = append(ps, p)
			gs = append(gs, p.Gammas())
		}
		secret.Mod(secret, kit.Q)
		pk := shcrypto.ComputeEonPublicKey(gs)
		if kit.B2((*blst.P2Affine)(pk)) != kit.B2(kit.G2(secret)) {
			t.Fatalf("eon public key is not the public counterpart of the summed secrets")
		}
		subset := kit.Subset(t, "subset", n, th)
		xs := []*big.Int{}
		for _, i := range subset {
			xs = append(xs, shcrypto.KeyperX(i))
		}
		ls := kit.Lagrange(xs)
		sum := kit.G2(big.NewInt(0))
		sumSecret := new(big.Int)
		for s, i := range subset {
			evals := []*big.Int{}
			for d := range ps {
				evals = append(evals, ps[d].EvalForKeyper(i))
			}
			ev0 := []string{}
			for _, e := range evals {
				ev0 = append(ev0, e.String())
			}
			order := kit.Subset(t, "order", dealers, dealers)
			evp := []*big.Int{}
			gp := []*shcrypto.Gammas{}
			for _, o := range order {
				evp = append(evp, evals[o])
				gp = append(gp, gs[o])
			}
			sk := shcrypto.ComputeEonSecretKeyShare(evp)
			want := new(big.Int)
			for _, e := range evals {
				want.Add(want, e)
			}
			want.Mod(want, kit.Q)
			if (*big.Int)(sk).Cmp(want) != 0 {
				t.Fatalf("secret key share is not the sum of evaluations")
			}
			for d, e := range evals {
				if e.String() != ev0[d] {
					t.Fatalf("evaluations were changed by summing")
				}
			}
			pks := shcrypto.ComputeEonPublicKeyShare(i, gp)
			if kit.B2((*blst.P2Affine)(pks)) != kit.B2(kit.G2(want)) {
				t.Fatalf("public key share of keyper %d does not match its secret share", i)
			}
			sum = kit.Add2(sum, kit.Mul2((*blst.P2Affine)(pks), ls[s]))
			sumSecret.Add(sumSecret, new(big.Int).Mul(want, ls[s]))
		}
		if sumSecret.Mod(sumSecret, kit.Q).Cmp(secret) != 0 {
			t.Fatalf("secret shares of %v do not interpolate to the secret", subset)
		}
		if kit.B2(sum) != kit.B2((*blst.P2Affine)(pk)) {
			t.Fatalf("public key shares of %v do not interpolate to the eon key", subset)
		}
		c.Case(n >= 2 && th >= 2, "n=%d t=%d dealers=%d subset=%v secret=%x", n, th, dealers, subset, secret)
	})
}

// TestPolynomials: construction and random generation.
func TestPolynomials(t *testing.T) {
	vh.Check(t, "coefficient lists incl. out-of-range values and random polynomials from a seeded reader; non-trivial: every case", vh.N(12000, 120000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		cs := drawCoeffs(t, n)
		bad := n == 0
		if n > 0 && rapid.Bool().Draw(t, "corrupt") {
			i := rapid.IntRange(0, n-1).Draw(t, "i")
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				cs[i] = big.NewInt(-int64(rapid.IntRange(1, 9).Draw(t, "neg")))
			case 1:
				cs[i] = new(big.Int).Add(kit.Q, big.NewInt(int64(rapid.IntRange(0, 9).Draw(t, "over"))))
			case 2:
				cs[i] = new(big.Int).Lsh(kit.Q, uint(rapid.IntRange(1, 60).Draw(t, "shift")))
			}
			bad = true
			if shcrypto.ValidEval(cs[i]) {
				t.Fatalf("%v accepted as field element", cs[i])
			}
		}
		p, err := shcrypto.NewPolynomial(cs)
		if (err != nil) != bad || (p == nil) != bad {
			t.Fatalf("coefficients %v: err=%v", cs, err)
		}
		for _, v := range cs {
			if ok := v.Sign() >= 0 && v.Cmp(kit.Q) < 0; shcrypto.ValidEval(v) != ok {
				t.Fatalf("ValidEval(%v)=%v", v, !ok)
			}
		}
		deg := uint64(rapid.IntRange(0, 12).Draw(t, "degree"))
		seed := rapid.Uint64().Draw(t, "seed")
		r, err := shcrypto.RandomPolynomial(bytes.NewReader(kit.Expand(seed, "rnd", 64*64)), deg)
		if err != nil || r.Degree() != deg || uint64(len(*r)) != deg+1 {
			t.Fatalf("random polynomial of degree %d: %v, %v", deg, r, err)
		}
		seen := map[string]bool{}
		for _, v := range *r {
			if v.Sign() < 0 || v.Cmp(kit.Q) >= 0 {
				t.Fatalf("random coefficient %v out of range", v)
			}
			if v.BitLen() < 64 {
				t.Fatalf("random coefficient %v is not drawn from the whole field", v)
			}
			if seen[v.String()] {
				t.Fatalf("random coefficient repeated")
			}
			seen[v.String()] = true
		}
		if z := shcrypto.ZeroGammas(deg); z.Degree() != deg || kit.B2(z.Pi(big.NewInt(5))) != kit.B2(kit.G2(big.NewInt(0))) {
			t.Fatalf("zero commitment of degree %d is wrong", deg)
		}
		c.Case(true, "n=%d bad=%v deg=%d seed=%d", n, bad, deg, seed)
	})
}
