package c03

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// TestShares: share verification against keyper, epoch and eon.
func TestShares(t *testing.T) {
	vh.Check(t, "a candidate share (genuine or from another keyper/epoch/eon, scaled, shifted, negated, infinity, random) checked against keyper i and an epoch; non-trivial: candidate is not genuine, or n>=2", vh.N(4500, 45000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 6).Draw(t, "n")
		th := rapid.IntRange(1, n).Draw(t, "t")
		k := kit.NewKeys(n, th, rapid.IntRange(1, 3).Draw(t, "dealers"), rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		i := rapid.IntRange(0, n-1).Draw(t, "keyper")
		eb := kit.EpochBytes(t, "epoch")
		id := shcrypto.ComputeEpochID(eb)
		// what keyper i's secret gives, without using the code under test for the product
		want := kit.Mul1((*blst.P1Affine)(id), (*big.Int)(k.SKS[i]))
		var cand *blst.P1Affine
		kind := rapid.SampledFrom([]string{"genuine", "genuine", "other keyper", "other epoch", "other eon", "scaled", "shifted", "negated", "infinity", "random", "epoch key", "epoch id"}).Draw(t, "kind")
		switch kind {
		case "genuine":
			cand = (*blst.P1Affine)(shcrypto.ComputeEpochSecretKeyShare(k.SKS[i], id))
			if kit.B1(cand) != kit.B1(want) {
				t.Fatalf("share computed for keyper %d is not secret*epoch id", i)
			}
		case "other keyper":
			cand = (*blst.P1Affine)(k.Shares([]int{rapid.IntRange(0, n-1).Draw(t, "keyper2")}, id)[0])
		case "other epoch":
			cand = (*blst.P1Affine)(k.Shares([]int{i}, shcrypto.ComputeEpochID(kit.EpochBytes(t, "epoch2")))[0])
		case "other eon":
			cand = (*blst.P1Affine)(kit.NewKeys(n, th, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys2")).Shares([]int{i}, id)[0])
		case "scaled":
			cand = kit.Mul1(want, kit.DrawScalar(t, "factor"))
		case "shifted":
			cand = kit.Add1(want, kit.G1(kit.DrawScalar(t, "shift")))
		case "negated":
			cand = kit.Mul1(want, new(big.Int).Sub(kit.Q, big.NewInt(1)))
		case "infinity":
			cand = kit.G1(big.NewInt(0))
		case "random":
			cand = kit.G1(kit.DrawScalar(t, "point"))
		case "epoch key":
			cand = (*blst.P1Affine)(k.EpochKey(id))
		case "epoch id":
			cand = (*blst.P1Affine)(id)
		}
		genuine := kit.B1(cand) == kit.B1(want)
		share := (*shcrypto.EpochSecretKeyShare)(cand)
		before := share.Marshal()
		for r := 0; r < 2; r++ {
			if got := shcrypto.VerifyEpochSecretKeyShare(share, k.PKS[i], id); got != genuine {
				t.Fatalf("%s: verification against keyper %d says %v, genuine=%v", kind, i, got, genuine)
			}
		}
		if !bytes.Equal(before, share.Marshal()) || kit.B1((*blst.P1Affine)(id)) != kit.B1((*blst.P1Affine)(shcrypto.ComputeEpochID(eb))) {
			t.Fatalf("verification changed its arguments")
		}
		ws := (*shcrypto.EpochSecretKeyShare)(want)
		if share.Equal(ws) != genuine || ws.Equal(share) != genuine {
			t.Fatalf("Equal=%v, encodings equal=%v", share.Equal(ws), genuine)
		}
		// against another keyper's public share and another epoch
		j := rapid.IntRange(0, n-1).Draw(t, "against")
		wantJ := kit.Mul1((*blst.P1Affine)(id), (*big.Int)(k.SKS[j]))
		if got := shcrypto.VerifyEpochSecretKeyShare(share, k.PKS[j], id); got != (kit.B1(cand) == kit.B1(wantJ)) {
			t.Fatalf("%s: verification against keyper %d says %v", kind, j, got)
		}
		c.Case(!genuine || n >= 2, "%s n=%d t=%d keyper=%d epoch=%x", kind, n, th, i, eb)
		c.Class(kind)
	})
}

// TestEpochKeys: epoch secret key verification.
func TestEpochKeys(t *testing.T) {
	vh.Check(t, "a candidate epoch key checked against eon key and epoch, with random and chosen challenge; non-trivial: candidate not genuine or n>=2", vh.N(1500, 15000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 5).Draw(t, "n")
		th := rapid.IntRange(1, n).Draw(t, "t")
		k := kit.NewKeys(n, th, rapid.IntRange(1, 2).Draw(t, "dealers"), rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		eb := kit.EpochBytes(t, "epoch")
		id := shcrypto.ComputeEpochID(eb)
		want := (*blst.P1Affine)(k.EpochKey(id))
		var cand *blst.P1Affine
		kind := rapid.SampledFrom([]string{"genuine", "genuine", "share", "other epoch", "epoch suffix", "other eon", "scaled", "shifted", "negated", "infinity", "random", "epoch id"}).Draw(t, "kind")
		switch kind {
		case "genuine":
			idx := kit.Subset(t, "subset", n, th)
			key, err := shcrypto.ComputeEpochSecretKey(idx, k.Shares(idx, id), uint64(th))
			if err != nil {
				t.Fatalf("%v", err)
			}
			cand = (*blst.P1Affine)(key)
		case "share":
			cand = (*blst.P1Affine)(k.Shares([]int{rapid.IntRange(0, n-1).Draw(t, "keyper")}, id)[0])
		case "other epoch":
			cand = (*blst.P1Affine)(k.EpochKey(shcrypto.ComputeEpochID(kit.EpochBytes(t, "epoch2"))))
		case "epoch suffix":
			cand = (*blst.P1Affine)(k.EpochKey(shcrypto.ComputeEpochID(append(append([]byte{}, eb...), 0))))
		case "other eon":
			cand = (*blst.P1Affine)(kit.NewKeys(n, th, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys2")).EpochKey(id))
		case "scaled":
			cand = kit.Mul1(want, kit.DrawScalar(t, "factor"))
		case "shifted":
			cand = kit.Add1(want, kit.G1(kit.DrawScalar(t, "shift")))
		case "negated":
			cand = kit.Mul1(want, new(big.Int).Sub(kit.Q, big.NewInt(1)))
		case "infinity":
			cand = kit.G1(big.NewInt(0))
		case "random":
			cand = kit.G1(kit.DrawScalar(t, "point"))
		case "epoch id":
			cand = (*blst.P1Affine)(id)
		}
		genuine := kit.B1(cand) == kit.B1(want)
		key := (*shcrypto.EpochSecretKey)(cand)
		got, err := shcrypto.VerifyEpochSecretKey(key, k.EonPK, eb)
		if err != nil || got != genuine {
			t.Fatalf("%s: verify=%v err=%v genuine=%v", kind, got, err, genuine)
		}
		msg := kit.Message(t, "challenge")
		got, err = shcrypto.VerifyEpochSecretKeyDeterministic(key, k.EonPK, eb, kit.Sigma(t, "sigma"), msg)
		if err != nil || got != genuine {
			t.Fatalf("%s: deterministic verify with challenge %x=%v err=%v genuine=%v", kind, msg, got, err, genuine)
		}
		if key.Equal((*shcrypto.EpochSecretKey)(want)) != genuine {
			t.Fatalf("Equal disagrees with encodings")
		}
		// another epoch must not be satisfied by the same key
		eb2 := kit.EpochBytes(t, "otherEpoch")
		if genuine && !bytes.Equal(eb, eb2) {
			got, err = shcrypto.VerifyEpochSecretKey(key, k.EonPK, eb2)
			if err != nil || got {
				t.Fatalf("key of epoch %x verifies for epoch %x (%v)", eb, eb2, err)
			}
		}
		c.Case(!genuine || n >= 2, "%s n=%d t=%d epoch=%x", kind, n, th, eb)
		c.Class(kind)
	})
}

// TestIDs: epoch ids are injective, deterministic group elements; Equal is encoding equality.
func TestIDs(t *testing.T) {
	vh.Check(t, "pairs of epoch identities (prefixes, suffixes, bit flips, long); non-trivial: identities differ", vh.N(9000, 90000), func(t *rapid.T, c *vh.C) {
		a := kit.EpochBytes(t, "a")
		var b []byte
		switch rapid.IntRange(0, 4).Draw(t, "rel") {
		case 0:
			b = append([]byte{}, a...)
		case 1:
			b = append(append([]byte{}, a...), byte(rapid.IntRange(0, 255).Draw(t, "tail")))
		case 2:
			b = append([]byte{byte(rapid.IntRange(0, 255).Draw(t, "head"))}, a...)
		case 3:
			b = append([]byte{}, a...)
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(t, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 4:
			b = kit.EpochBytes(t, "b")
		}
		back := make([]byte, len(a)+8)
		copy(back, a)
		ida, idb := shcrypto.ComputeEpochID(back[:len(a)]), shcrypto.ComputeEpochID(b)
		if !bytes.Equal(back, append(append([]byte{}, a...), make([]byte, 8)...)) {
			t.Fatalf("ComputeEpochID wrote into the caller's buffer")
		}
		eq := bytes.Equal(a, b)
		if ida.Equal(idb) != eq || bytes.Equal(ida.Marshal(), idb.Marshal()) != eq {
			t.Fatalf("ids of %x and %x: equal=%v", a, b, ida.Equal(idb))
		}
		if !(*blst.P1Affine)(ida).InG1() || kit.B1((*blst.P1Affine)(ida)) == kit.B1(kit.G1(big.NewInt(0))) {
			t.Fatalf("id of %x is not a proper group element", a)
		}
		// Equal on keys
		x, y := kit.DrawScalar(t, "x"), kit.DrawScalar(t, "y")
		e := x.Cmp(y) == 0
		if (*shcrypto.EonPublicKey)(kit.G2(x)).Equal((*shcrypto.EonPublicKey)(kit.G2(y))) != e ||
			(*shcrypto.EonPublicKeyShare)(kit.G2(x)).Equal((*shcrypto.EonPublicKeyShare)(kit.G2(y))) != e ||
			(*shcrypto.EpochSecretKey)(kit.G1(x)).Equal((*shcrypto.EpochSecretKey)(kit.G1(y))) != e ||
			(*shcrypto.EpochSecretKeyShare)(kit.G1(x)).Equal((*shcrypto.EpochSecretKeyShare)(kit.G1(y))) != e ||
			(*shcrypto.EpochID)(kit.G1(x)).Equal((*shcrypto.EpochID)(kit.G1(y))) != e ||
			(*shcrypto.EonSecretKeyShare)(x).Equal((*shcrypto.EonSecretKeyShare)(y)) != e {
			t.Fatalf("Equal for %v and %v disagrees", x, y)
		}
		if !(*shcrypto.EonPublicKey)(kit.G2(x)).Equal((*shcrypto.EonPublicKey)(kit.G2(x))) ||
			!(*shcrypto.EpochSecretKey)(kit.G1(x)).Equal((*shcrypto.EpochSecretKey)(kit.G1(x))) ||
			!(*shcrypto.EonPublicKeyShare)(kit.G2(x)).Equal((*shcrypto.EonPublicKeyShare)(kit.G2(x))) ||
			!(*shcrypto.EpochSecretKeyShare)(kit.G1(x)).Equal((*shcrypto.EpochSecretKeyShare)(kit.G1(x))) ||
			!(*shcrypto.EonSecretKeyShare)(x).Equal((*shcrypto.EonSecretKeyShare)(new(big.Int).Set(x))) {
			t.Fatalf("Equal is not reflexive for %v", x)
		}
		// sign matters
		if neg := new(big.Int).Mod(new(big.Int).Neg(x), kit.Q); neg.Cmp(x) != 0 {
			if (*shcrypto.EonPublicKey)(kit.G2(x)).Equal((*shcrypto.EonPublicKey)(kit.G2(neg))) || (*shcrypto.EpochSecretKey)(kit.G1(x)).Equal((*shcrypto.EpochSecretKey)(kit.G1(neg))) {
				t.Fatalf("a point equals its negative")
			}
		}
		c.Case(!eq, "a=%x b=%x", a, b)
	})
}
