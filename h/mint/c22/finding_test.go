//go:build findings

package c22

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
)

// TestSum shows the finding listed for C22 in known-findings.txt: go test -tags findings -run TestSum ./c22
func TestSum(t *testing.T) {
	// the secret polynomial x*x+3: shares 4, 7, 12; terms of the interpolation 12, -21, 12
	d := &dealt{n: 3, threshold: 3, poly: []*big.Int{big.NewInt(3), big.NewInt(0), big.NewInt(1)}}
	d.finish()
	kg := epochkg.NewEpochKG(d.result(0))
	for _, i := range []int{2, 0, 1} {
		if err := kg.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{Eon: 3, Sender: uint64(i), Share: share(times(0, d.shares[i]))}); err != nil {
			t.Fatal(err)
		}
	}
	if !bytes.Equal(kg.SecretKeys[0].Marshal(), times(0, d.poly[0])) {
		t.Fatal("wrong epoch secret key")
	}
}
