package c20

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents/evtype"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func address(t *rapid.T) common.Address {
	switch rapid.IntRange(0, 3).Draw(t, "address kind") {
	case 0:
		return common.Address{}
	case 1:
		return common.BytesToAddress(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "address"))
	}
	return ak.Addr(rapid.IntRange(0, 9).Draw(t, "key"))
}

func addresses(t *rapid.T) []common.Address {
	var r []common.Address
	for i := rapid.IntRange(0, 4).Draw(t, "addresses"); i > 0; i-- {
		r = append(r, address(t))
	}
	return r
}

func u64(t *rapid.T, l string) uint64 { return vh.U64().Draw(t, l) }

func point2(t *rapid.T) *bn256.G2 {
	b := ak.G2(rapid.IntRange(0, 9).Draw(t, "point"))
	if rapid.IntRange(0, 9).Draw(t, "infinity") == 9 {
		b = make([]byte, 128)
	}
	p := new(bn256.G2)
	_, err := p.Unmarshal(b)
	vh.Harness(err, "point")
	return p
}

func event(t *rapid.T, h int64) shutterevents.IEvent {
	switch rapid.IntRange(0, 8).Draw(t, "type") {
	case 0:
		return &shutterevents.Accusation{Height: h, Eon: u64(t, "eon"), Sender: address(t), Accused: addresses(t)}
	case 1:
		e := &shutterevents.Apology{Height: h, Eon: u64(t, "eon"), Sender: address(t), Accusers: addresses(t)}
		for range e.Accusers {
			e.PolyEval = append(e.PolyEval, new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "eval")))
		}
		return e
	case 2:
		return &shutterevents.BatchConfig{Height: h, Keypers: addresses(t), StartBatchIndex: u64(t, "start"), Threshold: u64(t, "threshold"), ConfigIndex: u64(t, "index")}
	case 3:
		return &shutterevents.CheckIn{Height: h, Sender: address(t), EncryptionPublicKey: ecies.ImportECDSAPublic(&ak.Key(rapid.IntRange(0, 20).Draw(t, "key")).PublicKey)}
	case 4:
		return &shutterevents.DecryptionSignature{Height: h, BatchIndex: u64(t, "batch"), Sender: address(t), Signature: rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "signature")}
	case 5:
		return &shutterevents.EonStarted{Height: h, Eon: u64(t, "eon"), BatchIndex: u64(t, "batch")}
	case 6:
		g := shcrypto.Gammas{}
		for i := rapid.IntRange(0, 3).Draw(t, "gammas"); i > 0; i-- {
			g = append(g, point2(t))
		}
		return &shutterevents.PolyCommitment{Height: h, Eon: u64(t, "eon"), Sender: address(t), Gammas: &g}
	case 7:
		e := &shutterevents.PolyEval{Height: h, Eon: u64(t, "eon"), Sender: address(t), Receivers: addresses(t)}
		for range e.Receivers {
			e.EncryptedEvals = append(e.EncryptedEvals, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "eval"))
		}
		return e
	}
	s := new(shcrypto.EpochSecretKeyShare)
	b := ak.G1(rapid.IntRange(0, 9).Draw(t, "share"))
	if rapid.IntRange(0, 9).Draw(t, "infinity") == 9 {
		b = make([]byte, 64)
	}
	vh.Harness(s.GobDecode(b), "share")
	return &shutterevents.EpochSecretKeyShare{Height: h, Eon: u64(t, "eon"), Epoch: u64(t, "epoch"), Sender: address(t), Share: s}
}

func heightOf(e shutterevents.IEvent) int64 {
	return reflect.ValueOf(e).Elem().FieldByName("Height").Int()
}

// travel sends an event through the encodings Tendermint uses on the way to a keyper.
func travel(t *rapid.T, ev abcitypes.Event) abcitypes.Event {
	b, err := ev.Marshal()
	vh.Harness(err, "marshal event")
	var p abcitypes.Event
	vh.Harness(p.Unmarshal(b), "unmarshal event")
	if rapid.Bool().Draw(t, "json") {
		j, err := json.Marshal(p)
		vh.Harness(err, "marshal event")
		p = abcitypes.Event{}
		vh.Harness(json.Unmarshal(j, &p), "unmarshal event")
	}
	return p
}

// TestRoundTrip: every event of the application reaches the keyper as it was.
func TestRoundTrip(t *testing.T) {
	vh.Check(t, "every generated event", vh.N(24000, 600000), func(t *rapid.T, c *vh.C) {
		h := rapid.Int64().Draw(t, "height")
		e := event(t, h)
		ev := travel(t, e.MakeABCIEvent())
		vh.NoPanic(t, "MakeEvent", func() {
			got, err := shutterevents.MakeEvent(ev, h)
			if err != nil {
				t.Fatalf("%s: %v", ak.Show(e), err)
			}
			if reflect.TypeOf(got) != reflect.TypeOf(e) || ak.Show(got) != ak.Show(e) || heightOf(got) != h {
				t.Fatalf("%s at %d became %s at %d", ak.Show(e), h, ak.Show(got), heightOf(got))
			}
			if again := travel(t, got.MakeABCIEvent()); !ak.SameEvents([]abcitypes.Event{ev}, []abcitypes.Event{again}) {
				t.Fatalf("encoded again: %v instead of %v", again, ev)
			}
		})
		c.Class(ev.Type)
		c.Case(true, "%s", ak.Show(e))
	})
}

var types = []string{
	evtype.Accusation, evtype.Apology, evtype.BatchConfig, evtype.CheckIn, evtype.DecryptionSignature,
	evtype.EonStarted, evtype.PolyCommitment, evtype.PolyEval, evtype.EpochSecretKeyShare, "", "shutter.unknown",
}

func noise(t *rapid.T, old []byte) []byte {
	b := append([]byte{}, old...)
	switch rapid.IntRange(0, 8).Draw(t, "noise") {
	case 0:
		return nil
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(t, "bytes")
	case 2:
		return []byte(rapid.SampledFrom([]string{"0x", ",", "0x,0x", "-1", "18446744073709551616", "+5", "0", " 1", "1 ", "1e3", "0x10", "1_0", "0x0", "zz", ",,", "=", "0x1"}).Draw(t, "text"))
	case 3:
		if len(b) > 0 {
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")]
		}
	case 4:
		b = append(b, rapid.SampledFrom([]string{",", " ", "0", "0x", "\n", "ab", ",0x00", "="}).Draw(t, "suffix")...)
	case 5:
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.SampledFrom([]byte("0123456789abcdefABCDEFxX,-_ \x00\xff")).Draw(t, "char")
		}
	case 6:
		b = []byte(strings.ToUpper(string(b)))
	case 7:
		b = []byte(strings.ToLower(string(b)))
	case 8:
		b = append([]byte(rapid.SampledFrom([]string{"0", " ", ",", "0x"}).Draw(t, "prefix")), b...)
	}
	return b
}

// agrees tells whether the value of an attribute says the same as the canonical one.
func agrees(key, got, canonical string) bool {
	norm := func(s string) string { return strings.ToLower(s) }
	switch key {
	case "Eon", "Epoch", "BatchIndex", "StartBatchIndex", "Threshold", "ConfigIndex":
		x, ok := new(big.Int).SetString(got, 10)
		return ok && x.String() == canonical
	case "Signature", "EncryptionPublicKey":
		a, err := base64.RawURLEncoding.DecodeString(got)
		b, _ := base64.RawURLEncoding.DecodeString(canonical)
		return err == nil && string(a) == string(b)
	case "Gammas", "Share", "Accused", "Accusers", "Keypers", "Receivers", "Sender", "EncryptedEvals", "PolyEvals":
		as, bs := strings.Split(norm(got), ","), strings.Split(norm(canonical), ",")
		if len(as) != len(bs) {
			return false
		}
		for i := range as {
			a, b := strings.TrimPrefix(as[i], "0x"), strings.TrimPrefix(bs[i], "0x")
			switch key {
			case "Gammas", "Share": // a point may be followed by something
				if !strings.HasPrefix(a, b) {
					return false
				}
			case "PolyEvals": // a number
				if strings.TrimLeft(a, "0") != strings.TrimLeft(b, "0") {
					return false
				}
			default:
				if a != b {
					return false
				}
			}
		}
		return true
	}
	return false
}

// TestHostile: events with altered attributes.
func TestHostile(t *testing.T) {
	vh.Check(t, "the event was altered and has a known type", vh.N(48000, 1000000), func(t *rapid.T, c *vh.C) {
		ev := event(t, 0).MakeABCIEvent()
		k := rapid.IntRange(0, 3).Draw(t, "changes")
		for i := 0; i < k; i++ {
			n := len(ev.Attributes)
			at := 0
			if n > 0 {
				at = rapid.IntRange(0, n-1).Draw(t, "attribute")
			}
			switch rapid.IntRange(0, 7).Draw(t, "change") {
			case 0:
				if n > 0 {
					ev.Attributes = append(append([]abcitypes.EventAttribute{}, ev.Attributes[:at]...), ev.Attributes[at+1:]...)
				}
			case 1:
				if n > 0 {
					a := ev.Attributes[at]
					j := rapid.IntRange(0, n).Draw(t, "to")
					ev.Attributes = append(append(append([]abcitypes.EventAttribute{}, ev.Attributes[:j]...), a), ev.Attributes[j:]...)
				}
			case 2:
				if n > 0 {
					j := rapid.IntRange(0, n-1).Draw(t, "with")
					ev.Attributes[at], ev.Attributes[j] = ev.Attributes[j], ev.Attributes[at]
				}
			case 3:
				if n > 0 {
					ev.Attributes[at].Key = noise(t, ev.Attributes[at].Key)
				}
			case 4, 5, 6:
				if n > 0 {
					ev.Attributes[at].Value = noise(t, ev.Attributes[at].Value)
				}
			case 7:
				ev.Type = rapid.SampledFrom(types).Draw(t, "type")
			}
		}
		desc := ""
		for _, a := range ev.Attributes {
			desc += fmt.Sprintf(" %q=%q", a.Key, a.Value)
		}
		known := false
		for _, x := range types[:9] {
			known = known || x == ev.Type
		}
		vh.NoPanic(t, "MakeEvent", func() {
			e, err := shutterevents.MakeEvent(ev, 7)
			if err != nil {
				c.Class("rejected")
				return
			}
			if e == nil || reflect.ValueOf(e).IsNil() {
				t.Fatalf("no error and no event from %s%s", ev.Type, desc)
			}
			if heightOf(e) != 7 {
				t.Fatalf("height %d from %s%s", heightOf(e), ev.Type, desc)
			}
			c.Class("parsed")
			canonical := e.MakeABCIEvent()
			if canonical.Type != ev.Type || len(ev.Attributes) < len(canonical.Attributes) {
				t.Fatalf("%s%s became %s", ev.Type, desc, ak.Show(e))
			}
			for i, a := range canonical.Attributes {
				if string(ev.Attributes[i].Key) != string(a.Key) || !agrees(string(a.Key), string(ev.Attributes[i].Value), string(a.Value)) {
					t.Fatalf("%s%s became %s", ev.Type, desc, ak.Show(e))
				}
			}
			again, err := shutterevents.MakeEvent(canonical, 7)
			if err != nil || ak.Show(again) != ak.Show(e) {
				t.Fatalf("%s does not survive encoding: %v", ak.Show(e), err)
			}
		})
		c.Case(k > 0 && known, "%s%s", ev.Type, desc)
	})
}
