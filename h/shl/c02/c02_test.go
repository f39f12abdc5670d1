package c02

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func clone(m *shcrypto.EncryptedMessage) *shcrypto.EncryptedMessage {
	p := *m.C1
	return &shcrypto.EncryptedMessage{C1: &p, C2: m.C2, C3: append([]shcrypto.Block{}, m.C3...)}
}

func same(a, b *shcrypto.EncryptedMessage) bool {
	if kit.B2(a.C1) != kit.B2(b.C1) || a.C2 != b.C2 || len(a.C3) != len(b.C3) {
		return false
	}
	for i := range a.C3 {
		if a.C3[i] != b.C3[i] {
			return false
		}
	}
	return true
}

func decrypt(t *rapid.T, m *shcrypto.EncryptedMessage, key *shcrypto.EpochSecretKey) (msg []byte, err error) {
	vh.NoPanic(t, "Decrypt", func() { msg, err = m.Decrypt(key) })
	return
}

func rejected(t *rapid.T, what string, msg []byte, err error) {
	if err == nil {
		t.Fatalf("%s decrypted without error to %x", what, msg)
	}
	if len(msg) != 0 {
		t.Fatalf("%s: plaintext %x returned next to error %v", what, msg, err)
	}
}

// TestAltered mutates ciphertexts.
func TestAltered(t *testing.T) {
	vh.Check(t, "genuine ciphertext plus 1-2 mutations of c1/c2/c3 (bit flips, drops, swaps, appends, mixes, re-keying with known sigma, padding edits); non-trivial: mutated ciphertext differs from the original", vh.N(1500, 40000), func(t *rapid.T, c *vh.C) {
		k := kit.NewKeys(2, 2, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		epoch := kit.EpochBytes(t, "epoch")
		id := shcrypto.ComputeEpochID(epoch)
		key := k.EpochKey(id)
		msg := kit.Message(t, "msg")
		sigma := kit.Sigma(t, "sigma")
		orig := shcrypto.Encrypt(msg, k.EonPK, id, sigma)
		msg2 := kit.Message(t, "msg2")
		other := shcrypto.Encrypt(msg2, k.EonPK, id, kit.Sigma(t, "sigma2"))
		m := clone(orig)
		what := ""
		for i := rapid.IntRange(1, 2).Draw(t, "mutations"); i > 0; i-- {
			kind := rapid.SampledFrom([]string{
				"c1 bit", "c1 other", "c1 neg", "c1 zero", "c1 gen", "c1 add", "c1 scale",
				"c2 bit", "c2 other", "c2 zero", "c3 bit", "c3 drop", "c3 drop all", "c3 append", "c3 dup", "c3 swap", "c3 other", "c3 xor blocks",
				"rekey same message", "same sigma other message", "padding byte", "pad byte to other length", "extend by padded block",
			}).Draw(t, "kind")
			what += kind + ";"
			switch kind {
			case "c1 bit":
				b := m.C1.Compress()
				b[rapid.IntRange(0, 95).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				if p := new(blst.P2Affine).Uncompress(b); p != nil {
					m.C1 = p
				}
			case "c1 other":
				m.C1 = other.C1
			case "c1 neg":
				m.C1 = kit.Mul2(m.C1, new(big.Int).Sub(kit.Q, big.NewInt(1)))
			case "c1 zero":
				m.C1 = kit.G2(big.NewInt(0))
			case "c1 gen":
				m.C1 = kit.G2(big.NewInt(1))
			case "c1 add":
				m.C1 = kit.Add2(m.C1, kit.G2(kit.DrawScalar(t, "add")))
			case "c1 scale":
				m.C1 = kit.Mul2(m.C1, kit.DrawScalar(t, "scale"))
			case "c2 bit":
				m.C2[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case "c2 other":
				m.C2 = other.C2
			case "c2 zero":
				m.C2 = shcrypto.Block{}
			case "c3 bit":
				if len(m.C3) > 0 {
					m.C3[rapid.IntRange(0, len(m.C3)-1).Draw(t, "block")][rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				}
			case "c3 drop":
				if len(m.C3) > 0 {
					j := rapid.IntRange(0, len(m.C3)-1).Draw(t, "block")
					m.C3 = append(m.C3[:j:j], m.C3[j+1:]...)
				}
			case "c3 drop all":
				m.C3 = nil
			case "c3 append":
				m.C3 = append(m.C3, kit.Sigma(t, "appended"))
			case "c3 dup":
				if len(m.C3) > 0 {
					m.C3 = append(m.C3, m.C3[rapid.IntRange(0, len(m.C3)-1).Draw(t, "block")])
				}
			case "c3 swap":
				if len(m.C3) > 1 {
					i, j := rapid.IntRange(0, len(m.C3)-1).Draw(t, "i"), rapid.IntRange(0, len(m.C3)-1).Draw(t, "j")
					m.C3[i], m.C3[j] = m.C3[j], m.C3[i]
				}
			case "c3 other":
				m.C3 = append([]shcrypto.Block{}, other.C3...)
			case "c3 xor blocks":
				if len(m.C3) > 1 {
					m.C3[0] = shcrypto.XORBlocks(m.C3[0], m.C3[1])
				}
			case "rekey same message":
				// somebody who knows the key derives another sigma and re-encrypts the blocks
				var d shcrypto.Block
				d[rapid.IntRange(0, 31).Draw(t, "byte")] = byte(rapid.IntRange(1, 255).Draw(t, "delta"))
				s := shcrypto.XORBlocks(m.Sigma(key), d)
				m.C2 = shcrypto.XORBlocks(m.C2, d)
				m.C3 = shcrypto.DecryptBlocks(shcrypto.PadMessage(msg), s)
			case "same sigma other message":
				m.C3 = shcrypto.DecryptBlocks(shcrypto.PadMessage(msg2), m.Sigma(key))
			case "padding byte":
				bs := shcrypto.PadMessage(msg)
				p := int(bs[len(bs)-1][31])
				if p > 1 && len(m.C3) == len(bs) {
					m.C3[len(bs)-1][rapid.IntRange(32-p, 30).Draw(t, "pos")] ^= byte(rapid.IntRange(1, 255).Draw(t, "delta"))
				}
			case "pad byte to other length":
				if len(m.C3) > 0 {
					bs := shcrypto.DecryptBlocks(m.C3, m.Sigma(key))
					bs[len(bs)-1][31] = byte(rapid.IntRange(0, 255).Draw(t, "pad"))
					m.C3 = shcrypto.DecryptBlocks(bs, m.Sigma(key))
				}
			case "extend by padded block":
				bs := shcrypto.DecryptBlocks(m.C3, m.Sigma(key))
				var b shcrypto.Block
				for i := range b {
					b[i] = 32
				}
				m.C3 = shcrypto.DecryptBlocks(append(bs, b), m.Sigma(key))
			}
		}
		changed := !same(m, orig) && !same(m, other)
		c.Case(changed, "%s len=%d/%d epoch=%x", what, len(msg), len(msg2), epoch)
		c.Class(what)
		got, err := decrypt(t, m, key)
		switch {
		case same(m, orig):
			if err != nil || !bytes.Equal(got, msg) {
				t.Fatalf("unchanged ciphertext: %x %v", got, err)
			}
		case same(m, other):
			if err != nil || !bytes.Equal(got, msg2) {
				t.Fatalf("unchanged other ciphertext: %x %v", got, err)
			}
		default:
			rejected(t, "altered ciphertext ("+what+")", got, err)
		}
	})
}

// TestWrongKey decrypts with keys that are not the epoch's.
func TestWrongKey(t *testing.T) {
	vh.Check(t, "genuine ciphertext and a key of another epoch/eon, a share, a multiple, a sum or the point at infinity; non-trivial: key differs from the genuine one", vh.N(1200, 30000), func(t *rapid.T, c *vh.C) {
		k := kit.NewKeys(3, 2, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		epoch := kit.EpochBytes(t, "epoch")
		id := shcrypto.ComputeEpochID(epoch)
		key := k.EpochKey(id)
		msg := kit.Message(t, "msg")
		ct := shcrypto.Encrypt(msg, k.EonPK, id, kit.Sigma(t, "sigma"))
		var wrong *blst.P1Affine
		kind := rapid.SampledFrom([]string{"other epoch", "other eon", "share", "scaled", "added", "zero", "random", "wrong threshold", "id"}).Draw(t, "kind")
		switch kind {
		case "other epoch":
			wrong = (*blst.P1Affine)(k.EpochKey(shcrypto.ComputeEpochID(kit.EpochBytes(t, "epoch2"))))
		case "other eon":
			wrong = (*blst.P1Affine)(kit.NewKeys(1, 1, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys2")).EpochKey(id))
		case "share":
			wrong = (*blst.P1Affine)(k.Shares([]int{rapid.IntRange(0, 2).Draw(t, "keyper")}, id)[0])
		case "scaled":
			wrong = kit.Mul1((*blst.P1Affine)(key), kit.DrawScalar(t, "factor"))
		case "added":
			wrong = kit.Add1((*blst.P1Affine)(key), kit.G1(kit.DrawScalar(t, "summand")))
		case "zero":
			wrong = kit.G1(big.NewInt(0))
		case "random":
			wrong = kit.G1(kit.DrawScalar(t, "point"))
		case "wrong threshold":
			w, err := shcrypto.ComputeEpochSecretKey([]int{0, 1, 2}, k.Shares([]int{0, 2, 1}, id), 3)
			if err != nil {
				t.Fatalf("%v", err)
			}
			wrong = (*blst.P1Affine)(w)
		case "id":
			wrong = (*blst.P1Affine)(id)
		}
		genuine := kit.B1(wrong) == kit.B1((*blst.P1Affine)(key))
		c.Case(!genuine, "%s epoch=%x len=%d", kind, epoch, len(msg))
		c.Class(kind)
		got, err := decrypt(t, ct, (*shcrypto.EpochSecretKey)(wrong))
		if genuine {
			if err != nil || !bytes.Equal(got, msg) {
				t.Fatalf("genuine key: %x %v", got, err)
			}
			return
		}
		rejected(t, "wrong key ("+kind+")", got, err)
	})
}

// TestFunction: the ciphertext is determined by, and depends on, all four inputs.
func TestFunction(t *testing.T) {
	vh.Check(t, "pairs of inputs that differ in exactly one of message, eon key, epoch, sigma (also by one bit or by trailing bytes); non-trivial: they differ", vh.N(800, 20000), func(t *rapid.T, c *vh.C) {
		k := kit.NewKeys(1, 1, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		k2 := k
		epoch := kit.EpochBytes(t, "epoch")
		epoch2 := epoch
		msg := kit.Message(t, "msg")
		msg2 := append([]byte{}, msg...)
		sigma := kit.Sigma(t, "sigma")
		sigma2 := sigma
		kind := rapid.SampledFrom([]string{"same", "message bit", "message longer", "message shorter", "eon", "epoch", "epoch bit", "epoch zero suffix", "epoch zero prefix", "sigma bit"}).Draw(t, "kind")
		differ := true
		switch kind {
		case "same":
			differ = false
		case "message bit":
			if len(msg2) > 0 {
				msg2[rapid.IntRange(0, len(msg2)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case "message longer":
			msg2 = append(msg2, byte(rapid.IntRange(0, 255).Draw(t, "tail")))
		case "message shorter":
			if len(msg2) > 0 {
				msg2 = msg2[:len(msg2)-1]
			}
		case "eon":
			k2 = kit.NewKeys(1, 1, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys2"))
		case "epoch":
			epoch2 = kit.EpochBytes(t, "epoch2")
		case "epoch bit":
			if len(epoch) > 0 {
				epoch2 = append([]byte{}, epoch...)
				epoch2[rapid.IntRange(0, len(epoch2)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case "epoch zero suffix":
			epoch2 = append(append([]byte{}, epoch...), 0)
		case "epoch zero prefix":
			epoch2 = append([]byte{0}, epoch...)
		case "sigma bit":
			sigma2[rapid.IntRange(0, 31).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		if bytes.Equal(msg, msg2) && k.Secret.Cmp(k2.Secret) == 0 && bytes.Equal(epoch, epoch2) && sigma == sigma2 {
			differ = false
		}
		a := shcrypto.Encrypt(msg, k.EonPK, shcrypto.ComputeEpochID(epoch), sigma)
		b := shcrypto.Encrypt(msg2, k2.EonPK, shcrypto.ComputeEpochID(epoch2), sigma2)
		if same(a, b) == differ {
			t.Fatalf("%s: ciphertexts same=%v although inputs differ=%v", kind, same(a, b), differ)
		}
		if kind == "sigma bit" && (kit.B2(a.C1) == kit.B2(b.C1) || a.C2 == b.C2) {
			t.Fatalf("sigma does not enter c1 and c2")
		}
		if differ && !bytes.Equal(msg, msg2) && kit.B2(a.C1) == kit.B2(b.C1) {
			t.Fatalf("message does not enter c1")
		}
		if differ && (kind == "eon" || kind[:5] == "epoch") && a.C2 == b.C2 {
			t.Fatalf("%s does not enter c2", kind)
		}
		c.Case(differ, "%s %s", kind, fmt.Sprintf("len=%d epoch=%x/%x", len(msg), epoch, epoch2))
		c.Class(kind)
	})
}

// TestBlocksDistinct: every block of one message is masked with its own key stream.
func TestBlocksDistinct(t *testing.T) {
	vh.Check(t, "sigma and block counts up to several hundred; non-trivial: more than one block", vh.N(150, 3000), func(t *rapid.T, c *vh.C) {
		sigma := kit.Sigma(t, "sigma")
		n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(250, 600)).Draw(t, "blocks")
		ks := shcrypto.DecryptBlocks(make([]shcrypto.Block, n), sigma)
		seen := map[shcrypto.Block]int{}
		for i, b := range ks {
			if j, ok := seen[b]; ok {
				t.Fatalf("blocks %d and %d use the same key stream", i, j)
			}
			seen[b] = i
		}
		c.Case(n > 1, "blocks=%d sigma=%x", n, sigma[:6])
	})
}

// TestLong alters long ciphertexts at one place, preferring their far ends.
func TestLong(t *testing.T) {
	vh.Check(t, "ciphertexts of 1 kB to 100 kB altered in one block, or whose messages differ in one byte; non-trivial: altered block is not the first", vh.N(700, 15000), func(t *rapid.T, c *vh.C) {
		k := kit.NewKeys(1, 1, 1, rapid.Uint64Range(0, 1<<40).Draw(t, "keys"))
		id := shcrypto.ComputeEpochID(kit.EpochBytes(t, "epoch"))
		key := k.EpochKey(id)
		n := rapid.OneOf(rapid.IntRange(1000, 3000), rapid.IntRange(3000, 12000), rapid.IntRange(12000, 100000)).Draw(t, "len")
		msg := kit.Expand(rapid.Uint64().Draw(t, "seed"), "long", n)
		sigma := kit.Sigma(t, "sigma")
		orig := shcrypto.Encrypt(msg, k.EonPK, id, sigma)
		got, err := decrypt(t, clone(orig), key)
		if err != nil || !bytes.Equal(got, msg) {
			t.Fatalf("message of %d bytes does not decrypt: %v", n, err)
		}
		pos := rapid.IntRange(0, n-1).Draw(t, "pos")
		if rapid.Bool().Draw(t, "late") {
			pos = n - 1 - rapid.IntRange(0, 40).Draw(t, "fromEnd")
		}
		d := byte(rapid.IntRange(1, 255).Draw(t, "delta"))
		m := clone(orig)
		kind := rapid.SampledFrom([]string{"flip", "swap", "drop", "other message"}).Draw(t, "kind")
		blk := pos / shcrypto.BlockSize
		switch kind {
		case "flip":
			m.C3[blk][pos%shcrypto.BlockSize] ^= d
		case "swap":
			if blk > 0 {
				m.C3[blk], m.C3[blk-1] = m.C3[blk-1], m.C3[blk]
			}
		case "drop":
			m.C3 = append(m.C3[:blk:blk], m.C3[blk+1:]...)
		case "other message":
			msg2 := append([]byte{}, msg...)
			msg2[pos] ^= d
			e := shcrypto.Encrypt(msg2, k.EonPK, id, sigma)
			if kit.B2(e.C1) == kit.B2(orig.C1) {
				t.Fatalf("messages of %d bytes that differ at %d have the same c1", n, pos)
			}
			m.C3 = e.C3
		}
		c.Case(blk > 0, "%s len=%d block=%d", kind, n, blk)
		c.Class(kind)
		if same(m, orig) {
			return
		}
		got, err = decrypt(t, m, key)
		if err == nil {
			t.Fatalf("%s in block %d of a %d byte message: decrypted without error to %d bytes", kind, blk, n, len(got))
		}
	})
}
