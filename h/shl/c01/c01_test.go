package c01

import (
	"bytes"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func sk(k *shcrypto.EpochSecretKey) string { return kit.B1((*blst.P1Affine)(k)) }

// TestThresholdRoundTrip: encrypt, combine shares of two arbitrary subsets, decrypt.
func TestThresholdRoundTrip(t *testing.T) {
	vh.Check(t, "keyper set, threshold, two share subsets in random order, message in an oversized buffer; non-trivial: n>=2 keypers", vh.N(2400, 24000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 9).Draw(t, "n")
		if rapid.IntRange(0, 19).Draw(t, "big") == 0 {
			n = rapid.IntRange(10, 40).Draw(t, "nbig")
		}
		th := rapid.IntRange(1, n).Draw(t, "t")
		if rapid.IntRange(0, 32).Draw(t, "huge") == 0 {
			n = rapid.IntRange(250, 700).Draw(t, "nhuge")
			th = rapid.IntRange(1, 5).Draw(t, "thuge")
		}
		dealers := rapid.IntRange(1, 3).Draw(t, "dealers")
		k := kit.NewKeys(n, th, dealers, rapid.Uint64().Draw(t, "keys"))
		epoch := kit.EpochBytes(t, "epoch")
		id := shcrypto.ComputeEpochID(epoch)
		msg := kit.Message(t, "msg")
		if rapid.IntRange(0, 24).Draw(t, "long") == 0 {
			msg = kit.Expand(rapid.Uint64().Draw(t, "longseed"), "long", rapid.IntRange(8000, 17000).Draw(t, "longlen"))
			c.Class("more than 255 blocks")
		}
		sigma := kit.Sigma(t, "sigma")
		sigma0 := sigma

		// the message sits inside a larger buffer that belongs to the caller
		slack := rapid.IntRange(0, 70).Draw(t, "slack")
		buf := make([]byte, len(msg)+slack)
		copy(buf, msg)
		for i := len(msg); i < len(buf); i++ {
			buf[i] = 0xA5
		}
		before := append([]byte{}, buf...)
		idBytes := (*blst.P1Affine)(id).Compress()
		epoch0 := append([]byte{}, epoch...)

		ct := shcrypto.Encrypt(buf[:len(msg)], k.EonPK, id, sigma)
		if !bytes.Equal(buf, before) {
			t.Fatalf("Encrypt changed the caller's buffer: %x -> %x", before, buf)
		}
		if sigma != sigma0 || !bytes.Equal(idBytes, (*blst.P1Affine)(id).Compress()) || !bytes.Equal(epoch, epoch0) {
			t.Fatalf("Encrypt changed its other arguments")
		}
		enc := ct.Marshal()

		want := sk(k.EpochKey(id))
		for s := 0; s < 2; s++ {
			idx := kit.Subset(t, "subset", n, th)
			idx0 := append([]int{}, idx...)
			shares := k.Shares(idx, id)
			key, err := shcrypto.ComputeEpochSecretKey(idx, shares, uint64(th))
			if err != nil {
				t.Fatalf("combining %d shares: %v", th, err)
			}
			if sk(key) != want {
				t.Fatalf("keypers %v produced a different epoch key", idx)
			}
			key2, err := shcrypto.NewLagrangeCoeffs(idx).ComputeEpochSecretKey(shares)
			if err != nil || sk(key2) != want {
				t.Fatalf("precomputed coefficients disagree: %v", err)
			}
			for i := range idx {
				if idx[i] != idx0[i] {
					t.Fatalf("index list was changed")
				}
			}
			if sh := k.Shares(idx, id); !sh[0].Equal(shares[0]) {
				t.Fatalf("share was changed or is not deterministic")
			}
			for r := 0; r < 2; r++ {
				got, err := ct.Decrypt(key)
				if err != nil {
					t.Fatalf("decrypting with the key of keypers %v: %v", idx, err)
				}
				if !bytes.Equal(got, msg) {
					t.Fatalf("decrypted %x, want %x", got, msg)
				}
				if len(got) > 0 && r == 0 { // the result belongs to the caller
					got[0] ^= 0xff
				}
			}
			if !bytes.Equal(enc, ct.Marshal()) {
				t.Fatalf("decryption changed the ciphertext")
			}
			if sk(key) != want {
				t.Fatalf("decryption changed the key")
			}
		}
		// the ciphertext survives transport
		ct2 := new(shcrypto.EncryptedMessage)
		if err := ct2.Unmarshal(enc); err != nil {
			t.Fatalf("unmarshal: %v", err)
		}
		if got, err := ct2.Decrypt(k.EpochKey(id)); err != nil || !bytes.Equal(got, msg) {
			t.Fatalf("transported ciphertext: %x %v", got, err)
		}
		c.Case(n >= 2, "n=%d t=%d dealers=%d epoch=%x len=%d slack=%d sigma=%x", n, th, dealers, epoch, len(msg), slack, sigma[:4])
		if len(msg)%32 == 0 {
			c.Class("message fills its blocks")
		}
		if slack > 0 {
			c.Class("spare capacity behind message")
		}
	})
}

// TestWrongCounts: any other number of shares is refused.
func TestWrongCounts(t *testing.T) {
	vh.Check(t, "share and index lists whose lengths differ from the threshold or each other; non-trivial: a wrong count", vh.N(4200, 42000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 9).Draw(t, "n")
		th := rapid.IntRange(1, n).Draw(t, "t")
		k := kit.NewKeys(n, th, 1, rapid.Uint64().Draw(t, "keys"))
		id := shcrypto.ComputeEpochID(kit.EpochBytes(t, "epoch"))
		nidx := rapid.IntRange(0, n).Draw(t, "nidx")
		nsh := nidx
		if rapid.Bool().Draw(t, "mismatch") {
			nsh = rapid.IntRange(0, n).Draw(t, "nsh")
		}
		idx := kit.Subset(t, "idx", n, nidx)
		shares := k.Shares(kit.Subset(t, "sh", n, nsh), id)
		if nidx == nsh {
			shares = k.Shares(idx, id)
		}
		var key *shcrypto.EpochSecretKey
		var err error
		vh.NoPanic(t, "ComputeEpochSecretKey", func() {
			key, err = shcrypto.ComputeEpochSecretKey(idx, shares, uint64(th))
		})
		ok := nidx == th && nsh == th
		if ok {
			if err != nil || sk(key) != sk(k.EpochKey(id)) {
				t.Fatalf("genuine shares refused or wrong: %v", err)
			}
		} else if err == nil || key != nil {
			t.Fatalf("t=%d: %d indices with %d shares gave a key (err=%v)", th, nidx, nsh, err)
		}
		if nidx != nsh {
			vh.NoPanic(t, "LagrangeCoeffs", func() {
				_, err = shcrypto.NewLagrangeCoeffs(idx).ComputeEpochSecretKey(shares)
			})
			if err == nil {
				t.Fatalf("coefficients for %d keypers accepted %d shares", nidx, nsh)
			}
		}
		// fewer shares than the polynomial's degree demands never yield the real key
		if nidx == nsh && nidx < th && nidx > 0 {
			key, err = shcrypto.ComputeEpochSecretKey(idx, shares, uint64(nidx))
			if err == nil && sk(key) == sk(k.EpochKey(id)) {
				t.Fatalf("%d of %d shares gave the epoch key", nidx, th)
			}
			c.Class("below threshold")
		}
		c.Case(!ok, "n=%d t=%d idx=%v shares=%d", n, th, idx, nsh)
	})
}
