package c08

import (
	"bytes"
	"math/big"
	"testing"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func drawSecret(t *rapid.T, label string) *shbls.SecretKey {
	v := new(big.Int).Mod(kit.DrawScalar(t, label), bn256.Order)
	if v.Sign() == 0 {
		v.SetInt64(1)
	}
	return (*shbls.SecretKey)(v)
}

// TestAggregates builds aggregates over a history of signers, then perturbs them.
func TestAggregates(t *testing.T) {
	vh.Check(t, "signer lists (with repetitions), messages, aggregation in several orders and groupings, then one alteration; non-trivial: two or more signers or an alteration", vh.N(1000, 20000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 5).Draw(t, "keys")
		sks := []*shbls.SecretKey{}
		pks := []*shbls.PublicKey{}
		for i := 0; i < n; i++ {
			sk := drawSecret(t, "sk")
			sks = append(sks, sk)
			pk := shbls.SecretToPublicKey(sk)
			// survive transport
			pk2 := new(shbls.PublicKey)
			if err := pk2.Unmarshal(pk.Marshal()); err != nil || !pk.Equal(pk2) {
				t.Fatalf("public key transport: %v", err)
			}
			pks = append(pks, pk2)
		}
		msg := kit.Message(t, "msg")
		msg2 := kit.Message(t, "msg2")
		if rapid.Bool().Draw(t, "similar") {
			msg2 = append(append([]byte{}, msg...), 0)
		}
		m := rapid.IntRange(1, 5).Draw(t, "signers")
		if vh.Pct(25).Draw(t, "many") {
			m = rapid.IntRange(6, 40).Draw(t, "many signers")
		}
		signers := []int{}
		for i := 0; i < m; i++ {
			signers = append(signers, rapid.IntRange(0, n-1).Draw(t, "signer"))
		}
		alter := rapid.SampledFrom([]string{"none", "none", "message", "drop signer", "extra signer", "swap key", "drop sig", "extra sig", "sig of other message", "sig of other key", "zero sig", "negate"}).Draw(t, "alter")
		sum := new(big.Int) // the aggregate secret, the oracle of what the aggregate is
		sigs := []*shbls.Signature{}
		keys := []*shbls.PublicKey{}
		verified := map[int]bool{}
		for _, s := range signers {
			sig := shbls.Sign(msg, sks[s])
			if !verified[s] && !shbls.Verify(sig, pks[s], msg) {
				t.Fatalf("own signature does not verify")
			}
			verified[s] = true
			sig2 := new(shbls.Signature)
			if err := sig2.Unmarshal(sig.Marshal()); err != nil || !sig.Equal(sig2) {
				t.Fatalf("signature transport: %v", err)
			}
			sigs = append(sigs, sig2)
			keys = append(keys, pks[s])
			sum.Add(sum, (*big.Int)(sks[s]))
		}
		sum.Mod(sum, bn256.Order)
		before := []string{}
		for i := range sigs {
			before = append(before, string(sigs[i].Marshal())+string(keys[i].Marshal()))
		}
		perm := kit.Subset(t, "order", m, m)
		sigsP, keysP := []*shbls.Signature{}, []*shbls.PublicKey{}
		for _, i := range perm {
			sigsP = append(sigsP, sigs[i])
			keysP = append(keysP, keys[i])
		}
		agg, aggK := shbls.AggregateSignatures(sigsP), shbls.AggregatePublicKeys(keys)
		// grouping does not matter
		cut := rapid.IntRange(0, m).Draw(t, "cut")
		nested := shbls.AggregateSignatures([]*shbls.Signature{shbls.AggregateSignatures(sigs[:cut]), shbls.AggregateSignatures(sigs[cut:])})
		nestedK := shbls.AggregatePublicKeys([]*shbls.PublicKey{shbls.AggregatePublicKeys(keysP[:cut]), shbls.AggregatePublicKeys(keysP[cut:])})
		if !nested.Equal(agg) || !nestedK.Equal(aggK) || !bytes.Equal(nested.Marshal(), agg.Marshal()) || !bytes.Equal(nestedK.Marshal(), aggK.Marshal()) {
			t.Fatalf("aggregation depends on order or grouping (%v, cut %d)", perm, cut)
		}
		if !aggK.Equal(shbls.SecretToPublicKey((*shbls.SecretKey)(sum))) || !agg.Equal(shbls.Sign(msg, (*shbls.SecretKey)(sum))) {
			t.Fatalf("aggregate is not the sum of its parts")
		}
		for i := range sigs {
			if before[i] != string(sigs[i].Marshal())+string(keys[i].Marshal()) {
				t.Fatalf("aggregation changed input %d", i)
			}
		}
		vmsg, vkey, vsig := msg, aggK, agg
		want := true
		other := rapid.IntRange(0, n-1).Draw(t, "other")
		switch alter {
		case "message":
			vmsg = msg2
			want = bytes.Equal(msg, msg2) || sum.Sign() == 0
		case "drop signer":
			vkey = shbls.AggregatePublicKeys(keys[1:])
			want = false
		case "extra signer":
			vkey = shbls.AggregatePublicKeys(append(append([]*shbls.PublicKey{}, keys...), pks[other]))
			want = false
		case "swap key":
			ks := append([]*shbls.PublicKey{}, keys...)
			ks[0] = pks[other]
			vkey = shbls.AggregatePublicKeys(ks)
			want = sks[other].Equal(sks[signers[0]])
		case "drop sig":
			vsig = shbls.AggregateSignatures(sigs[1:])
			want = false
		case "extra sig":
			vsig = shbls.AggregateSignatures(append(append([]*shbls.Signature{}, sigs...), shbls.Sign(msg, sks[other])))
			want = false
		case "sig of other message":
			ss := append([]*shbls.Signature{}, sigs...)
			ss[0] = shbls.Sign(msg2, sks[signers[0]])
			vsig = shbls.AggregateSignatures(ss)
			want = bytes.Equal(msg, msg2)
		case "sig of other key":
			ss := append([]*shbls.Signature{}, sigs...)
			ss[0] = shbls.Sign(msg, sks[other])
			vsig = shbls.AggregateSignatures(ss)
			want = sks[other].Equal(sks[signers[0]])
		case "zero sig":
			vsig = shbls.AggregateSignatures(nil)
			want = sum.Sign() == 0
		case "negate":
			vsig = shbls.Sign(msg, (*shbls.SecretKey)(new(big.Int).Mod(new(big.Int).Neg(sum), bn256.Order)))
			want = sum.Sign() == 0
		}
		if got := shbls.Verify(vsig, vkey, vmsg); got != want {
			t.Fatalf("%s: verify=%v want %v", alter, got, want)
		}
		if got := shbls.Verify(agg, aggK, msg); !got {
			t.Fatalf("aggregate does not verify")
		}
		c.Case(m >= 2 || alter != "none", "%s keys=%d signers=%v order=%v len=%d", alter, n, signers, perm, len(msg))
		c.Class(alter)
	})
}

// TestPairs: single signatures verify exactly for their key and message.
func TestPairs(t *testing.T) {
	vh.Check(t, "signature by key a over message m checked under key b and message m'; non-trivial: a!=b or m!=m'", vh.N(400, 9000), func(t *rapid.T, c *vh.C) {
		a, b := drawSecret(t, "a"), drawSecret(t, "b")
		if rapid.Bool().Draw(t, "samekey") {
			b = a
		}
		m := kit.Message(t, "m")
		m2 := append([]byte{}, m...)
		switch rapid.IntRange(0, 4).Draw(t, "rel") {
		case 0:
			m2 = kit.Message(t, "m2")
		case 1:
			m2 = append(m2, byte(rapid.IntRange(0, 255).Draw(t, "tail")))
		case 2:
			if len(m2) > 0 {
				m2[rapid.IntRange(0, len(m2)-1).Draw(t, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		}
		a0 := new(big.Int).Set((*big.Int)(a))
		want := a.Equal(b) && bytes.Equal(m, m2)
		if (a0.Cmp((*big.Int)(b)) == 0) != a.Equal(b) {
			t.Fatalf("Equal of secret keys")
		}
		if got := shbls.Verify(shbls.Sign(m, a), shbls.SecretToPublicKey(b), m2); got != want {
			t.Fatalf("verify=%v want %v", got, want)
		}
		if shbls.SecretToPublicKey(a).Equal(shbls.SecretToPublicKey(b)) != a.Equal(b) || shbls.Sign(m, a).Equal(shbls.Sign(m2, b)) != want {
			t.Fatalf("Equal on keys or signatures is wrong")
		}
		if a0.Cmp((*big.Int)(a)) != 0 {
			t.Fatalf("secret key was changed")
		}
		s := new(shbls.SecretKey)
		if err := s.Unmarshal(a.Marshal()); err != nil || !s.Equal(a) {
			t.Fatalf("secret key transport: %v", err)
		}
		// randomly generated pairs belong together
		rnd := kit.Expand(rapid.Uint64().Draw(t, "rand"), "rnd", 4096)
		sk, pk, err := shbls.RandomKeyPair(bytes.NewReader(rnd))
		if err != nil || !shbls.SecretToPublicKey(sk).Equal(pk) {
			t.Fatalf("random key pair does not match: %v", err)
		}
		c.Case(!want, "a=%x b=%x m=%x m2=%x", a.Marshal()[:6], b.Marshal()[:6], m, m2)
	})
}

// TestMalformed: encodings that are not keys or signatures are refused.
func TestMalformed(t *testing.T) {
	vh.Check(t, "encodings of wrong length, out of range, off curve; non-trivial: every case", vh.N(1500, 40000), func(t *rapid.T, c *vh.C) {
		sk := drawSecret(t, "sk")
		var enc []byte
		var dec func([]byte) error
		which := rapid.SampledFrom([]string{"secret", "public", "signature"}).Draw(t, "which")
		switch which {
		case "secret":
			enc, dec = sk.Marshal(), new(shbls.SecretKey).Unmarshal
		case "public":
			enc, dec = shbls.SecretToPublicKey(sk).Marshal(), new(shbls.PublicKey).Unmarshal
		case "signature":
			enc, dec = shbls.Sign([]byte{1}, sk).Marshal(), new(shbls.Signature).Unmarshal
		}
		kind := rapid.SampledFrom([]string{"short", "long", "big", "flip"}).Draw(t, "kind")
		switch kind {
		case "short":
			enc = enc[:rapid.IntRange(0, len(enc)-1).Draw(t, "len")]
		case "long":
			enc = append(enc, rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "extra")...)
		case "big":
			mod := bn256.P
			if which == "secret" {
				mod = bn256.Order
			}
			v := new(big.Int).Add(mod, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "excess"))))
			off := 32 * rapid.IntRange(0, len(enc)/32-1).Draw(t, "coord")
			v.FillBytes(enc[off : off+32])
		case "flip":
			if which == "secret" {
				kind = "big"
				for i := range enc {
					enc[i] = 0xff
				}
			} else {
				enc[rapid.IntRange(0, len(enc)-1).Draw(t, "i")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		}
		vh.NoPanic(t, which, func() {
			if dec(enc) == nil {
				t.Fatalf("%s: malformed encoding (%s) accepted: %x", which, kind, enc)
			}
		})
		c.Case(true, "%s %s %x", which, kind, enc)
		c.Class(which + " " + kind)
	})
}
