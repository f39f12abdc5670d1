// Package kit has generators and independent arithmetic shared by the shlib properties.
package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"
)

// Q is the group order of BLS12-381.
var Q, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)

// Expand derives n pseudo random bytes from a drawn seed.
func Expand(seed uint64, label string, n int) []byte {
	out := []byte{}
	for ctr := uint64(0); len(out) < n; ctr++ {
		h := sha256.New()
		_ = binary.Write(h, binary.BigEndian, []uint64{seed, ctr})
		h.Write([]byte(label))
		out = h.Sum(out)
	}
	return out[:n]
}

// Scalar derives a field element.
func Scalar(seed uint64, label string) *big.Int {
	v := new(big.Int).SetBytes(Expand(seed, label, 48))
	return v.Mod(v, Q)
}

// DrawScalar draws a field element, with boundary values now and then.
func DrawScalar(t *rapid.T, label string) *big.Int {
	switch rapid.IntRange(0, 11).Draw(t, label+".kind") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label)))
	case 2:
		return new(big.Int).Sub(Q, big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label))))
	}
	return Scalar(rapid.Uint64().Draw(t, label), "scalar")
}

func scalar(v *big.Int) *blst.Scalar {
	b := make([]byte, 32)
	new(big.Int).Mod(v, Q).FillBytes(b)
	s := new(blst.Scalar)
	s.FromBEndian(b) // reports zero as an error but sets it
	return s
}

// G1 returns v times the generator.
func G1(v *big.Int) *blst.P1Affine { return blst.P1Generator().Mult(scalar(v)).ToAffine() }

// G2 returns v times the generator.
func G2(v *big.Int) *blst.P2Affine { return blst.P2Generator().Mult(scalar(v)).ToAffine() }

// Mul1 multiplies a point.
func Mul1(p *blst.P1Affine, v *big.Int) *blst.P1Affine {
	x := new(blst.P1)
	x.FromAffine(p)
	return x.Mult(scalar(v)).ToAffine()
}

// Mul2 multiplies a point.
func Mul2(p *blst.P2Affine, v *big.Int) *blst.P2Affine {
	x := new(blst.P2)
	x.FromAffine(p)
	return x.Mult(scalar(v)).ToAffine()
}

// Add2 adds points.
func Add2(p, q *blst.P2Affine) *blst.P2Affine {
	x := new(blst.P2)
	x.FromAffine(p)
	y := new(blst.P2)
	y.FromAffine(q)
	x.AddAssign(y)
	return x.ToAffine()
}

// Add1 adds points.
func Add1(p, q *blst.P1Affine) *blst.P1Affine {
	x := new(blst.P1)
	x.FromAffine(p)
	y := new(blst.P1)
	y.FromAffine(q)
	x.AddAssign(y)
	return x.ToAffine()
}

// B1 and B2 are canonical byte forms used as map keys and for comparison.
func B1(p *blst.P1Affine) string { return fmt.Sprintf("%x", p.Compress()) }
func B2(p *blst.P2Affine) string { return fmt.Sprintf("%x", p.Compress()) }

// Horner evaluates a polynomial independently of the code under test (power sum).
func Poly(cs []*big.Int, x *big.Int) *big.Int {
	res := new(big.Int)
	pow := big.NewInt(1)
	for _, c := range cs {
		res.Add(res, new(big.Int).Mul(c, pow))
		pow.Mul(pow, x)
		pow.Mod(pow, Q)
	}
	return res.Mod(res, Q)
}

// Lagrange returns the coefficients interpolating at zero for the given distinct x values.
func Lagrange(xs []*big.Int) []*big.Int {
	ls := make([]*big.Int, len(xs))
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i == j {
				continue
			}
			num.Mul(num, xs[j]).Mod(num, Q)
			den.Mul(den, new(big.Int).Sub(xs[j], xs[i])).Mod(den, Q)
		}
		ls[i] = num.Mul(num, den.ModInverse(den, Q)).Mod(num, Q)
	}
	return ls
}

// Keys is a complete distributed key set made directly from polynomials.
type Keys struct {
	N, T   int
	Coeffs [][]*big.Int
	Polys  []*shcrypto.Polynomial
	Gammas []*shcrypto.Gammas
	Secret *big.Int
	EonPK  *shcrypto.EonPublicKey
	SKS    []*shcrypto.EonSecretKeyShare
	PKS    []*shcrypto.EonPublicKeyShare
}

// NewKeys builds the keys of n keypers with threshold th out of dealers' coefficients.
func NewKeys(n, th, dealers int, seed uint64) *Keys {
	k := &Keys{N: n, T: th, Secret: new(big.Int)}
	for d := 0; d < dealers; d++ {
		cs := []*big.Int{}
		for c := 0; c < th; c++ {
			cs = append(cs, Scalar(seed, fmt.Sprintf("poly %d %d", d, c)))
		}
		k.Coeffs = append(k.Coeffs, cs)
		k.Secret.Add(k.Secret, cs[0]).Mod(k.Secret, Q)
		p, err := shcrypto.NewPolynomial(cs)
		if err != nil {
			panic(err)
		}
		k.Polys = append(k.Polys, p)
		k.Gammas = append(k.Gammas, p.Gammas())
	}
	k.EonPK = shcrypto.ComputeEonPublicKey(k.Gammas)
	for i := 0; i < n; i++ {
		evals := []*big.Int{}
		for d := range k.Polys {
			evals = append(evals, k.Polys[d].EvalForKeyper(i))
		}
		k.SKS = append(k.SKS, shcrypto.ComputeEonSecretKeyShare(evals))
		k.PKS = append(k.PKS, shcrypto.ComputeEonPublicKeyShare(i, k.Gammas))
	}
	return k
}

// Shares computes the epoch shares of the given keypers.
func (k *Keys) Shares(idx []int, id *shcrypto.EpochID) []*shcrypto.EpochSecretKeyShare {
	out := []*shcrypto.EpochSecretKeyShare{}
	for _, i := range idx {
		out = append(out, shcrypto.ComputeEpochSecretKeyShare(k.SKS[i], id))
	}
	return out
}

// EpochKey is the genuine key, computed without the shares.
func (k *Keys) EpochKey(id *shcrypto.EpochID) *shcrypto.EpochSecretKey {
	return (*shcrypto.EpochSecretKey)(Mul1((*blst.P1Affine)(id), k.Secret))
}

// Subset draws a k-element subset of [0,n) in random order.
func Subset(t *rapid.T, label string, n, k int) []int {
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	return rapid.Permutation(all).Draw(t, label)[:k]
}

// Message draws a message, favouring the lengths around block boundaries.
func Message(t *rapid.T, label string) []byte {
	n := rapid.OneOf(
		rapid.SampledFrom([]int{0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 95, 96, 97}),
		rapid.IntRange(0, 200),
	).Draw(t, label+".len")
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0: // looks like padding
		b := byte(rapid.IntRange(0, 33).Draw(t, label+".byte"))
		m := make([]byte, n)
		for i := range m {
			m[i] = b
		}
		return m
	case 1:
		return make([]byte, n)
	}
	return Expand(rapid.Uint64().Draw(t, label+".seed"), "msg", n)
}

// EpochBytes draws the byte form of an epoch id.
func EpochBytes(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 2).Draw(t, label+".kind") {
	case 0:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, rapid.OneOf(rapid.Uint64Range(0, 10), rapid.SampledFrom([]uint64{1<<64 - 1, 1 << 63, 256, 255}), rapid.Uint64()).Draw(t, label))
		return b
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, label)
	}
	return rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, label)
}

// Sigma draws a sigma block.
func Sigma(t *rapid.T, label string) shcrypto.Block {
	var b shcrypto.Block
	if rapid.IntRange(0, 9).Draw(t, label+".kind") == 0 {
		return b
	}
	copy(b[:], Expand(rapid.Uint64().Draw(t, label), "sigma", 32))
	return b
}
