package c22

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math/big"
	"testing"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func scalar(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 9).Draw(t, "scalar kind") {
	case 0:
		return big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "small")))
	case 1:
		return new(big.Int).Sub(bn256.Order, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "from the top"))))
	}
	x := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "scalar"))
	return x.Mod(x, bn256.Order)
}

// dealt is an eon with secrets dealt in the open.
type dealt struct {
	n, threshold int
	poly         []*big.Int
	shares       []*big.Int
	public       *shcrypto.EonPublicKey
	publicShares []*shcrypto.EonPublicKeyShare
}

func eval(poly []*big.Int, x int64) *big.Int {
	r := new(big.Int)
	for i := len(poly) - 1; i >= 0; i-- {
		r.Mul(r, big.NewInt(x))
		r.Add(r, poly[i])
		r.Mod(r, bn256.Order)
	}
	return r
}

func g2(k *big.Int) []byte { return new(bn256.G2).ScalarBaseMult(k).Marshal() }

func deal(t *rapid.T) *dealt {
	d := &dealt{n: rapid.IntRange(1, 7).Draw(t, "keypers")}
	if rapid.IntRange(0, 19).Draw(t, "large") == 0 {
		d.n = rapid.IntRange(8, 40).Draw(t, "many keypers")
	}
	d.threshold = rapid.IntRange(1, min(d.n, 9)).Draw(t, "threshold")
	for i := 0; i < d.threshold; i++ {
		d.poly = append(d.poly, scalar(t))
	}
	d.finish()
	return d
}

// finish computes the shares and public keys.
func (d *dealt) finish() {
	d.public = new(shcrypto.EonPublicKey)
	vh.Harness(d.public.GobDecode(g2(d.poly[0])), "eon key")
	for i := 0; i < d.n; i++ {
		s := eval(d.poly, int64(i+1))
		d.shares = append(d.shares, s)
		p := new(shcrypto.EonPublicKeyShare)
		vh.Harness(p.GobDecode(g2(s)), "eon key share")
		d.publicShares = append(d.publicShares, p)
	}
}

func (d *dealt) result(keyper int) *puredkg.Result {
	sk := new(shcrypto.EonSecretKeyShare)
	b, err := d.shares[keyper].GobEncode()
	vh.Harness(err, "secret share")
	vh.Harness(sk.GobDecode(b), "secret share")
	return &puredkg.Result{
		Eon: 3, NumKeypers: uint64(d.n), Threshold: uint64(d.threshold), Keyper: uint64(keyper),
		SecretKeyShare: sk, PublicKey: d.public, PublicKeyShares: d.publicShares,
	}
}

// times is the point of the epoch multiplied with k.
func times(epoch uint64, k *big.Int) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], epoch)
	p := new(bn256.G1)
	_, err := p.Unmarshal(shcrypto.ComputeEpochID(b[:]).Marshal())
	vh.Harness(err, "epoch point")
	return new(bn256.G1).ScalarMult(p, k).Marshal()
}

func share(b []byte) *shcrypto.EpochSecretKeyShare {
	s := new(shcrypto.EpochSecretKeyShare)
	vh.Harness(s.GobDecode(b), "share")
	return s
}

// keyper is one receiver with what it should know.
type keyper struct {
	kg   *epochkg.EpochKG
	have map[uint64]map[int]bool
}

// degenerate tells whether a term of the interpolation equals the sum of others. That is the finding listed in
// known-findings.txt.
func (d *dealt) degenerate(from map[int]bool) bool {
	var terms []*big.Int
	for i := range from {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range from {
			if j != i {
				num.Mul(num, big.NewInt(int64(j+1)))
				den.Mul(den, big.NewInt(int64(j-i)))
			}
		}
		den.Mod(den, bn256.Order)
		term := num.Mul(num, den.ModInverse(den, bn256.Order))
		terms = append(terms, term.Mul(term, d.shares[i]).Mod(term, bn256.Order))
	}
	for i, term := range terms {
		for set := 1; set < 1<<len(terms); set++ {
			if set>>i&1 == 1 || term.Sign() == 0 {
				continue
			}
			sum := new(big.Int)
			for j := range terms {
				if set>>j&1 == 1 {
					sum.Add(sum, terms[j])
				}
			}
			if sum.Mod(sum, bn256.Order).Cmp(term) == 0 {
				return true
			}
		}
	}
	return false
}

// compare tells whether the finding has been met.
func (k *keyper) compare(t *rapid.T, d *dealt, epochs []uint64) bool {
	keys := 0
	for _, e := range epochs {
		key, ok := k.kg.SecretKeys[e]
		if want := len(k.have[e]) >= d.threshold; want != ok {
			t.Fatalf("epoch %d: verified shares of %v, threshold %d, key known: %v", e, k.have[e], d.threshold, ok)
		}
		if !ok {
			continue
		}
		keys++
		if key == nil || !bytes.Equal(key.Marshal(), times(e, d.poly[0])) {
			if key != nil && d.degenerate(k.have[e]) {
				return true
			}
			t.Fatalf("epoch %d: wrong key from the shares of %v", e, k.have[e])
		}
	}
	if len(k.kg.SecretKeys) != keys {
		t.Fatalf("%d keys, want %d", len(k.kg.SecretKeys), keys)
	}
	return false
}

// TestShares: any order of good, wrong, repeated shares of several epochs at several keypers.
func TestShares(t *testing.T) {
	vh.Check(t, "a key was found after a share was refused or repeated", vh.N(7200, 72000), func(t *rapid.T, c *vh.C) {
		d := deal(t)
		epochs := rapid.SliceOfNDistinct(vh.U64(), 1, 3, rapid.ID[uint64]).Draw(t, "epochs")
		var ks []*keyper
		for i := rapid.IntRange(1, 2).Draw(t, "receivers"); i > 0; i-- {
			at := rapid.IntRange(0, d.n-1).Draw(t, "receiver")
			k := &keyper{epochkg.NewEpochKG(d.result(at)), map[uint64]map[int]bool{}}
			for _, e := range epochs {
				k.have[e] = map[int]bool{}
			}
			e := rapid.SampledFrom(epochs).Draw(t, "own epoch")
			if got := k.kg.ComputeEpochSecretKeyShare(e); !bytes.Equal(got.Marshal(), times(e, d.shares[at])) {
				t.Fatalf("keyper %d computes a wrong share for epoch %d", at, e)
			}
			ks = append(ks, k)
		}
		var log []string
		refused, found := false, false
		for i := rapid.IntRange(1, 3*d.n+2).Draw(t, "shares"); i > 0; i-- {
			e := rapid.SampledFrom(epochs).Draw(t, "epoch")
			from := rapid.IntRange(0, d.n-1).Draw(t, "from")
			k := rapid.SampledFrom(ks).Draw(t, "to")
			good := times(e, d.shares[from])
			b := good
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			switch kind {
			case 6:
				b = times(e, d.shares[rapid.IntRange(0, d.n-1).Draw(t, "of")])
			case 7:
				b = times(rapid.SampledFrom(append([]uint64{e + 1, e - 1}, epochs...)).Draw(t, "other epoch"), d.shares[from])
			case 8:
				b = times(e, scalar(t))
			case 9:
				b = times(e, new(big.Int).Sub(bn256.Order, d.shares[from]))
			}
			ok := bytes.Equal(b, good)
			sender := uint64(from)
			known := k.have[e][from]
			done := len(k.have[e]) >= d.threshold
			var err error
			vh.NoPanic(t, "HandleEpochSecretKeyShare", func() {
				err = k.kg.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{Eon: 3, Epoch: e, Sender: sender, Share: share(b)})
			})
			log = append(log, fmt.Sprintf("%d:%d/%d", e, sender, kind))
			switch {
			case done: // nothing to be done any more, accepted or not
			case !ok:
				refused = true
				if err == nil {
					t.Fatalf("a wrong share of keyper %d for epoch %d is accepted", sender, e)
				}
			case known:
				refused = true
			case err != nil:
				t.Fatalf("the share of keyper %d for epoch %d is refused: %v", sender, e, err)
			default:
				k.have[e][from] = true
				found = found || refused && len(k.have[e]) == d.threshold
			}
			if k.compare(t, d, epochs) {
				c.Class("stopped at the finding")
				return
			}
			if rapid.IntRange(0, 7).Draw(t, "stored") == 0 {
				var buf bytes.Buffer
				if err := gob.NewEncoder(&buf).Encode(k.kg); err != nil {
					t.Fatalf("store: %v", err)
				}
				k.kg = &epochkg.EpochKG{}
				if err := gob.NewDecoder(&buf).Decode(k.kg); err != nil {
					t.Fatalf("load: %v", err)
				}
				if k.kg.SecretShares == nil { // empty maps of loaded structs are made by the loading keyper
					k.kg.SecretShares = map[uint64][]*epochkg.EpochSecretKeyShare{}
				}
				if k.kg.SecretKeys == nil {
					k.kg.SecretKeys = map[uint64]*shcrypto.EpochSecretKey{}
				}
			}
		}
		for i, k := range ks {
			if i > 0 && !bytes.Equal(k.kg.PublicKey.Marshal(), ks[0].kg.PublicKey.Marshal()) {
				t.Fatalf("different eon keys")
			}
		}
		c.Class(fmt.Sprintf("%d of %d", d.threshold, d.n))
		c.Case(found, "%d of %d: %v", d.threshold, d.n, log)
	})
}
