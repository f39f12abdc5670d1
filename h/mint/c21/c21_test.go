package c21

import (
	"bytes"
	"math/big"
	"reflect"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func addresses(t *rapid.T) []common.Address {
	n := rapid.IntRange(0, 4).Draw(t, "addresses")
	return ak.Addrs(rapid.Permutation([]int{0, 1, 2, 3, 4, 5}).Draw(t, "who")[:n])
}

func u64(t *rapid.T, l string) uint64 { return vh.U64().Draw(t, l) }

func blob(t *rapid.T, max int) []byte { return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, "bytes") }

func blobs(t *rapid.T, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, blob(t, 40))
	}
	return r
}

func ints(t *rapid.T, n int) []*big.Int {
	var r []*big.Int
	for i := 0; i < n; i++ {
		r = append(r, new(big.Int).SetBytes(blob(t, 40)))
	}
	return r
}

func gammas(t *rapid.T) *shcrypto.Gammas {
	g := shcrypto.Gammas{}
	for i := rapid.IntRange(0, 3).Draw(t, "gammas"); i > 0; i-- {
		p := new(bn256.G2)
		_, err := p.Unmarshal(ak.G2(rapid.IntRange(0, 20).Draw(t, "point")))
		vh.Harness(err, "point")
		g = append(g, p)
	}
	return &g
}

func share(t *rapid.T) *shcrypto.EpochSecretKeyShare {
	s := new(shcrypto.EpochSecretKeyShare)
	vh.Harness(s.GobDecode(ak.G1(rapid.IntRange(0, 20).Draw(t, "point"))), "share")
	return s
}

// made is a message with a function that compares what the parsers of the application make of its decoded form.
type made struct {
	msg   *shmsg.Message
	check func(t *rapid.T, m *shmsg.Message)
}

func same(t *rapid.T, err error, got, want interface{}) {
	if err != nil {
		t.Fatalf("parsing: %v, want %+v", err, want)
	}
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("parsed %+v, want %+v", got, want)
	}
}

func construct(t *rapid.T) made {
	me := ak.Addr(9)
	nonil := func(a []common.Address) []common.Address {
		if a == nil {
			return []common.Address{}
		}
		return a
	}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0:
		bc := shutterevents.BatchConfig{
			StartBatchIndex: u64(t, "start"), Keypers: addresses(t), Threshold: u64(t, "threshold"),
			ConfigContractAddress: common.BytesToAddress(blob(t, 20)), ConfigIndex: u64(t, "index"),
			Started: rapid.Bool().Draw(t, "started"), ValidatorsUpdated: rapid.Bool().Draw(t, "updated"),
		}
		if len(bc.Keypers) == 0 {
			bc.Keypers = nil
		}
		return made{
			shmsg.NewBatchConfig(bc.StartBatchIndex, bc.Keypers, bc.Threshold, bc.ConfigContractAddress, bc.ConfigIndex, bc.Started, bc.ValidatorsUpdated),
			func(t *rapid.T, m *shmsg.Message) {
				got, err := shutterevents.BatchConfigFromMessage(m.GetBatchConfig())
				same(t, err, got, bc)
			},
		}
	case 1:
		i, sig := u64(t, "batch"), blob(t, 70)
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			sig = append(bytes.Repeat([]byte{0x5a}, rapid.SampledFrom([]int{100, 200, 500, 1000, 2000, 5000, 70000}).Draw(t, "length")), sig...)
		}
		return made{shmsg.NewDecryptionSignature(i, sig), func(t *rapid.T, m *shmsg.Message) {
			d := m.GetDecryptionSignature()
			if d.GetBatchIndex() != i || !bytes.Equal(d.GetSignature(), sig) {
				t.Fatalf("decryption signature %d %x became %v", i, sig, d)
			}
		}}
	case 2:
		eon, as := u64(t, "eon"), addresses(t)
		es := ints(t, len(as))
		return made{shmsg.NewApology(eon, as, es), func(t *rapid.T, m *shmsg.Message) {
			got, err := app.ParseApologyMsg(m.GetApology(), me)
			if err != nil || got.Eon != eon || got.Sender != me || !reflect.DeepEqual(got.Accusers, nonil(as)) || len(got.PolyEval) != len(es) {
				t.Fatalf("apology %d %v %v became %+v %v", eon, as, es, got, err)
			}
			for i := range es {
				if es[i].Cmp(got.PolyEval[i]) != 0 {
					t.Fatalf("apology %d %v %v became %+v", eon, as, es, got)
				}
			}
		}}
	case 3:
		eon, as := u64(t, "eon"), addresses(t)
		return made{shmsg.NewAccusation(eon, as), func(t *rapid.T, m *shmsg.Message) {
			got, err := app.ParseAccusationMsg(m.GetAccusation(), me)
			same(t, err, got, &shutterevents.Accusation{Eon: eon, Sender: me, Accused: nonil(as)})
		}}
	case 4:
		eon, g := u64(t, "eon"), gammas(t)
		return made{shmsg.NewPolyCommitment(eon, g), func(t *rapid.T, m *shmsg.Message) {
			got, err := app.ParsePolyCommitmentMsg(m.GetPolyCommitment(), me)
			if err != nil {
				t.Fatalf("poly commitment: %v", err)
			}
			want := &shutterevents.PolyCommitment{Eon: eon, Sender: me, Gammas: g}
			if ak.Show(got) != ak.Show(want) {
				t.Fatalf("%s became %s", ak.Show(want), ak.Show(got))
			}
		}}
	case 5:
		eon, as := u64(t, "eon"), addresses(t)
		es := blobs(t, len(as))
		return made{shmsg.NewPolyEval(eon, as, es), func(t *rapid.T, m *shmsg.Message) {
			got, err := app.ParsePolyEvalMsg(m.GetPolyEval(), me)
			if err != nil {
				t.Fatalf("poly eval: %v", err)
			}
			want := &shutterevents.PolyEval{Eon: eon, Sender: me, Receivers: as, EncryptedEvals: es}
			if ak.Show(got) != ak.Show(want) {
				t.Fatalf("%s became %s", ak.Show(want), ak.Show(got))
			}
		}}
	case 6:
		i := u64(t, "batch")
		return made{shmsg.NewEonStartVote(i), func(t *rapid.T, m *shmsg.Message) {
			if m.GetEonStartVote() == nil || m.GetEonStartVote().StartBatchIndex != i {
				t.Fatalf("eon start vote %d became %v", i, m)
			}
		}}
	case 7:
		i := u64(t, "index")
		return made{shmsg.NewBatchConfigStarted(i), func(t *rapid.T, m *shmsg.Message) {
			if m.GetBatchConfigStarted() == nil || m.GetBatchConfigStarted().BatchConfigIndex != i {
				t.Fatalf("config started %d became %v", i, m)
			}
		}}
	case 8:
		k := &ak.Key(rapid.IntRange(0, 40).Draw(t, "key")).PublicKey
		v := blob(t, 40)
		return made{shmsg.NewCheckIn(v, ecies.ImportECDSAPublic(k)), func(t *rapid.T, m *shmsg.Message) {
			p, err := crypto.DecompressPubkey(m.GetCheckIn().GetEncryptionPublicKey())
			if err != nil || !p.Equal(k) || !bytes.Equal(m.GetCheckIn().GetValidatorPublicKey(), v) {
				t.Fatalf("check-in %x %v became %v (%v)", v, k, m, err)
			}
		}}
	}
	eon, epoch, s := u64(t, "eon"), u64(t, "epoch"), share(t)
	return made{shmsg.NewEpochSecretKeyShare(eon, epoch, s), func(t *rapid.T, m *shmsg.Message) {
		got, err := app.ParseEpochSecretKeyShareMsg(m.GetEpochSecretKeyShare(), me)
		if err != nil {
			t.Fatalf("share: %v", err)
		}
		want := &shutterevents.EpochSecretKeyShare{Eon: eon, Epoch: epoch, Sender: me, Share: s}
		if ak.Show(got) != ak.Show(want) {
			t.Fatalf("%s became %s", ak.Show(want), ak.Show(got))
		}
	}}
}

// TestRoundTrip: constructors, signing, decoding and parsing.
func TestRoundTrip(t *testing.T) {
	vh.Check(t, "every generated message", vh.N(20000, 500000), func(t *rapid.T, c *vh.C) {
		m := construct(t)
		k := rapid.IntRange(0, 9).Draw(t, "signer")
		w := &shmsg.MessageWithNonce{Msg: m.msg, ChainId: blob(t, 30), RandomNonce: u64(t, "nonce")}
		raw, err := shmsg.SignMessage(w, ak.Key(k))
		if err != nil {
			t.Fatalf("signing %v: %v", w, err)
		}
		signer, err := shmsg.GetSigner(raw)
		if err != nil || signer != ak.Addr(k) {
			t.Fatalf("signer of %v: %s, %v", w, signer.Hex(), err)
		}
		if a, x, ok := ak.DecodeRaw(raw); !ok || a != signer || !proto.Equal(x, w) {
			t.Fatalf("%x is not the documented encoding of %v", raw, w)
		}
		got, err := shmsg.GetMessage(raw)
		if err != nil || !proto.Equal(got, w) {
			t.Fatalf("%v became %v, %v", w, got, err)
		}
		m.check(t, got.Msg)
		// the form in which pending messages are stored
		b, err := m.msg.GobEncode()
		if err != nil {
			t.Fatalf("GobEncode: %v", err)
		}
		var x shmsg.Message
		if err := x.GobDecode(b); err != nil || !proto.Equal(&x, m.msg) {
			t.Fatalf("gob: %v became %v, %v", m.msg, &x, err)
		}
		c.Case(true, "%v", w)
	})
}

// TestAltered: bytes changed, cut, added, exchanged with those of other messages.
func TestAltered(t *testing.T) {
	vh.Check(t, "the bytes were changed", vh.N(24000, 500000), func(t *rapid.T, c *vh.C) {
		sign := func() ([]byte, *shmsg.MessageWithNonce, common.Address) {
			k := rapid.IntRange(0, 3).Draw(t, "signer")
			w := &shmsg.MessageWithNonce{Msg: construct(t).msg, ChainId: blob(t, 10), RandomNonce: u64(t, "nonce")}
			raw, err := shmsg.SignMessage(w, ak.Key(k))
			vh.Harness(err, "sign")
			return raw, w, ak.Addr(k)
		}
		raw, w, addr := sign()
		b := append([]byte{}, raw...)
		n := rapid.IntRange(1, 3).Draw(t, "changes")
		for i := 0; i < n && len(b) > 0; i++ {
			at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "in front") && len(b) > 66 {
				at = rapid.IntRange(0, 66).Draw(t, "at")
			}
			switch rapid.IntRange(0, 5).Draw(t, "change") {
			case 0:
				b[at] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
			case 1:
				b[at] = rapid.Byte().Draw(t, "byte")
			case 2:
				b = b[:at]
			case 3:
				b = append(b, blob(t, 5)...)
			case 4:
				b = append(b[:at:at], b[at+1:]...)
			case 5:
				other, _, _ := sign()
				b = append(append([]byte{}, b[:min(at, len(b))]...), other[min(at, len(other)):]...)
			}
		}
		vh.NoPanic(t, "decoding", func() {
			signer, err := shmsg.GetSigner(b)
			got, err2 := shmsg.GetMessage(b)
			switch {
			case err != nil || err2 != nil:
				c.Class("error")
			case signer != addr:
				c.Class("other signer")
			default:
				c.Class("same signer")
				if !proto.Equal(got, w) && !bytes.Equal(b[65:], raw[65:]) {
					// nothing but a message signed by that key: one of the others generated above may be
					if x, y, ok := ak.DecodeRaw(b); !ok || x != addr || !spliced(t, b, y) {
						t.Fatalf("%x signed for %v is taken for %v", b, w, got)
					}
				}
			}
		})
		c.Case(!bytes.Equal(b, raw), "%x", b)
	})
}

// spliced: a splice at byte 0 is the whole other message.
func spliced(t *rapid.T, b []byte, w *shmsg.MessageWithNonce) bool {
	for k := 0; k < 4; k++ {
		x, err := shmsg.SignMessage(w, ak.Key(k))
		if err == nil && bytes.Equal(x, b) {
			return true
		}
	}
	return false
}

// TestBytes: arbitrary byte strings.
func TestBytes(t *testing.T) {
	vh.Check(t, "long enough for a signature", vh.N(80000, 2000000), func(t *rapid.T, c *vh.C) {
		b := blob(t, 140)
		if rapid.Bool().Draw(t, "signed") {
			b = ak.SignBytes(ak.Key(0), b)
		}
		if rapid.IntRange(0, 3).Draw(t, "cut") == 0 && len(b) > 0 {
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "length")]
		}
		vh.NoPanic(t, "GetSigner", func() { _, _ = shmsg.GetSigner(b) })
		vh.NoPanic(t, "GetMessage", func() {
			m, err := shmsg.GetMessage(b)
			if err == nil && m == nil {
				t.Fatalf("GetMessage(%x) is nothing", b)
			}
		})
		vh.NoPanic(t, "GobDecode", func() { _ = new(shmsg.Message).GobDecode(b) })
		c.Case(len(b) >= 65, "%x", b)
	})
}

// TestPoints: the group element types.
func TestPoints(t *testing.T) {
	vh.Check(t, "every generated scalar", vh.N(2000, 20000), func(t *rapid.T, c *vh.C) {
		k := new(big.Int).SetBytes(blob(t, 33))
		g1, g2 := new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(k)
		gt := bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(3)), new(bn256.G2).ScalarBaseMult(k))
		var a shmsg.G1
		var b shmsg.G2
		var d shmsg.GT
		a.Set(g1)
		b.Set(g2)
		d.Set(gt)
		x, e1 := a.Get()
		y, e2 := b.Get()
		z, e3 := d.Get()
		if e1 != nil || e2 != nil || e3 != nil {
			t.Fatalf("scalar %v: %v %v %v", k, e1, e2, e3)
		}
		if !bytes.Equal(x.Marshal(), g1.Marshal()) || !bytes.Equal(y.Marshal(), g2.Marshal()) || !bytes.Equal(z.Marshal(), gt.Marshal()) {
			t.Fatalf("scalar %v does not survive", k)
		}
		junk := blob(t, 400)
		vh.NoPanic(t, "Get", func() {
			_, _ = (&shmsg.G1{G1Bytes: junk}).Get()
			_, _ = (&shmsg.G2{G2Bytes: junk}).Get()
			_, _ = (&shmsg.GT{Gtbytes: junk}).Get()
		})
		c.Case(true, "%v", k)
	})
}
