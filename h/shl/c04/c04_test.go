package c04

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shlib/shcrypto/shbls"
	blst "github.com/supranational/blst/bindings/go"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// object describes one encodable type.
type object struct {
	name string
	size int // of the encoding; 0: multiple of unit
	unit int // element size for sequences
	head int
	gen  func(t *rapid.T) interface{}
	neu  func() interface{}
	bin  bool
	text bool
	gob  bool
	eq   func(a, b interface{}) bool
	// validPoint tells which parts of an encoding are compressed points
}

type (
	marshaler interface{ Marshal() []byte }
	unmarsh   interface{ Unmarshal([]byte) error }
	textM     interface{ MarshalText() ([]byte, error) }
	textU     interface{ UnmarshalText([]byte) error }
)

func drawGammas(t *rapid.T) *shcrypto.Gammas {
	g := shcrypto.Gammas{}
	for i := rapid.IntRange(0, 4).Draw(t, "len"); i > 0; i-- {
		g = append(g, kit.G2(kit.DrawScalar(t, "gamma")))
	}
	return &g
}

func drawMsg(t *rapid.T) *shcrypto.EncryptedMessage {
	m := &shcrypto.EncryptedMessage{C1: kit.G2(kit.DrawScalar(t, "c1")), C2: kit.Sigma(t, "c2")}
	for i := rapid.IntRange(1, 4).Draw(t, "blocks"); i > 0; i-- {
		m.C3 = append(m.C3, kit.Sigma(t, "c3"))
	}
	return m
}

func objects() []object {
	return []object{
		{name: "EonSecretKeyShare", size: -1, bin: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EonSecretKeyShare)(kit.DrawScalar(t, "v")) },
			neu: func() interface{} { return new(shcrypto.EonSecretKeyShare) },
			eq: func(a, b interface{}) bool {
				return a.(*shcrypto.EonSecretKeyShare).Equal(b.(*shcrypto.EonSecretKeyShare))
			}},
		{name: "EonPublicKeyShare", size: 96, unit: 96, bin: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EonPublicKeyShare)(kit.G2(kit.DrawScalar(t, "v"))) },
			neu: func() interface{} { return new(shcrypto.EonPublicKeyShare) },
			eq: func(a, b interface{}) bool {
				return a.(*shcrypto.EonPublicKeyShare).Equal(b.(*shcrypto.EonPublicKeyShare))
			}},
		{name: "EonPublicKey", size: 96, unit: 96, bin: true, text: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EonPublicKey)(kit.G2(kit.DrawScalar(t, "v"))) },
			neu: func() interface{} { return new(shcrypto.EonPublicKey) },
			eq:  func(a, b interface{}) bool { return a.(*shcrypto.EonPublicKey).Equal(b.(*shcrypto.EonPublicKey)) }},
		{name: "EpochID", size: 48, unit: 48, bin: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EpochID)(kit.G1(kit.DrawScalar(t, "v"))) },
			neu: func() interface{} { return new(shcrypto.EpochID) },
			eq:  func(a, b interface{}) bool { return a.(*shcrypto.EpochID).Equal(b.(*shcrypto.EpochID)) }},
		{name: "EpochSecretKeyShare", size: 48, unit: 48, bin: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EpochSecretKeyShare)(kit.G1(kit.DrawScalar(t, "v"))) },
			neu: func() interface{} { return new(shcrypto.EpochSecretKeyShare) },
			eq: func(a, b interface{}) bool {
				return a.(*shcrypto.EpochSecretKeyShare).Equal(b.(*shcrypto.EpochSecretKeyShare))
			}},
		{name: "EpochSecretKey", size: 48, unit: 48, bin: true, text: true, gob: true,
			gen: func(t *rapid.T) interface{} { return (*shcrypto.EpochSecretKey)(kit.G1(kit.DrawScalar(t, "v"))) },
			neu: func() interface{} { return new(shcrypto.EpochSecretKey) },
			eq:  func(a, b interface{}) bool { return a.(*shcrypto.EpochSecretKey).Equal(b.(*shcrypto.EpochSecretKey)) }},
		{name: "Gammas", size: 0, unit: 96, bin: true, text: true, gob: true,
			gen: func(t *rapid.T) interface{} { return drawGammas(t) },
			neu: func() interface{} { return new(shcrypto.Gammas) },
			eq:  func(a, b interface{}) bool { return a.(*shcrypto.Gammas).Equal(*b.(*shcrypto.Gammas)) }},
		{name: "Block", size: 32, text: true,
			gen: func(t *rapid.T) interface{} { b := kit.Sigma(t, "v"); return &b },
			neu: func() interface{} { return new(shcrypto.Block) },
			eq:  func(a, b interface{}) bool { return *a.(*shcrypto.Block) == *b.(*shcrypto.Block) }},
		{name: "EncryptedMessage", size: 0, unit: 32, head: 1 + 96 + 32, bin: true, text: true,
			gen: func(t *rapid.T) interface{} { return drawMsg(t) },
			neu: func() interface{} { return new(shcrypto.EncryptedMessage) },
			eq: func(a, b interface{}) bool {
				x, y := a.(*shcrypto.EncryptedMessage), b.(*shcrypto.EncryptedMessage)
				if !x.C1.Equals(y.C1) || x.C2 != y.C2 || len(x.C3) != len(y.C3) {
					return false
				}
				for i := range x.C3 {
					if x.C3[i] != y.C3[i] {
						return false
					}
				}
				return true
			}},
		{name: "shbls.SecretKey", size: 32, bin: true,
			gen: func(t *rapid.T) interface{} {
				return (*shbls.SecretKey)(new(big.Int).Mod(kit.DrawScalar(t, "v"), bn256.Order))
			},
			neu: func() interface{} { return new(shbls.SecretKey) },
			eq:  func(a, b interface{}) bool { return a.(*shbls.SecretKey).Equal(b.(*shbls.SecretKey)) }},
		{name: "shbls.PublicKey", size: 64, bin: true,
			gen: func(t *rapid.T) interface{} {
				return shbls.SecretToPublicKey((*shbls.SecretKey)(new(big.Int).Mod(kit.DrawScalar(t, "v"), bn256.Order)))
			},
			neu: func() interface{} { return new(shbls.PublicKey) },
			eq:  func(a, b interface{}) bool { return a.(*shbls.PublicKey).Equal(b.(*shbls.PublicKey)) }},
		{name: "shbls.Signature", size: 128, bin: true,
			gen: func(t *rapid.T) interface{} {
				return shbls.Sign(kit.Message(t, "m"), (*shbls.SecretKey)(new(big.Int).Mod(kit.DrawScalar(t, "v"), bn256.Order)))
			},
			neu: func() interface{} { return new(shbls.Signature) },
			eq:  func(a, b interface{}) bool { return a.(*shbls.Signature).Equal(b.(*shbls.Signature)) }},
	}
}

func marshal(o object, x interface{}) []byte {
	if o.bin {
		return x.(marshaler).Marshal()
	}
	b := x.(*shcrypto.Block)
	return append([]byte{}, b[:]...)
}

func toText(x interface{}) ([]byte, error) {
	switch v := x.(type) { // value receivers
	case *shcrypto.Block:
		return v.MarshalText()
	case textM:
		return v.MarshalText()
	}
	return nil, fmt.Errorf("no text form")
}

func gobRT(t *rapid.T, x, into interface{}) error {
	buf := bytes.Buffer{}
	if err := gob.NewEncoder(&buf).Encode(x); err != nil {
		t.Fatalf("gob encode: %v", err)
	}
	return gob.NewDecoder(&buf).Decode(into)
}

func drawObject(t *rapid.T) object {
	os := objects()
	return os[rapid.IntRange(0, len(os)-1).Draw(t, "type")]
}

// TestRoundTrip: binary, text, JSON and gob, into fresh and used objects.
func TestRoundTrip(t *testing.T) {
	vh.Check(t, "object of a random type (incl. infinity, zero, boundary scalars, empty sequences) through each codec into fresh and used receivers; non-trivial: every case (distinct by type and encoding)", vh.N(30000, 300000), func(t *rapid.T, c *vh.C) {
		o := drawObject(t)
		x := o.gen(t)
		want := marshal(o, x)
		used := func() interface{} { return o.gen(t) }
		check := func(codec string, y interface{}, err error) {
			if err != nil {
				t.Fatalf("%s %s of %x: %v", o.name, codec, want, err)
			}
			if !o.eq(x, y) || !o.eq(y, x) {
				t.Fatalf("%s %s of %x: decoded object differs", o.name, codec, want)
			}
			if got := marshal(o, y); !bytes.Equal(got, want) {
				t.Fatalf("%s %s: %x became %x", o.name, codec, want, got)
			}
		}
		if o.size > 0 && len(want) != o.size {
			t.Fatalf("%s: encoding has %d bytes", o.name, len(want))
		}
		for i, fresh := range []bool{true, false} {
			target := func() interface{} {
				if fresh {
					return o.neu()
				}
				return used()
			}
			if o.bin {
				y := target()
				in := append([]byte{}, want...)
				vh.NoPanic(t, o.name, func() { check(fmt.Sprintf("binary %d", i), y, y.(unmarsh).Unmarshal(in)) })
				for j := range in { // the object must not alias the input
					in[j] ^= 0xff
				}
				check("binary after input reuse", y, nil)
			}
			if o.text {
				txt, err := toText(x)
				if err != nil {
					t.Fatalf("%s: %v", o.name, err)
				}
				y := target()
				vh.NoPanic(t, o.name, func() { check("text", y, y.(textU).UnmarshalText(txt)) })
				js, err := json.Marshal(x)
				if err != nil {
					t.Fatalf("%s json: %v", o.name, err)
				}
				y = target()
				vh.NoPanic(t, o.name, func() { check("json", y, json.Unmarshal(js, y)) })
			}
			if o.gob {
				y := target()
				vh.NoPanic(t, o.name, func() { check("gob stream", y, gobRT(t, x, y)) })
				b, err := x.(gob.GobEncoder).GobEncode()
				if err != nil {
					t.Fatalf("%s: %v", o.name, err)
				}
				y = target()
				vh.NoPanic(t, o.name, func() { check("gob direct", y, y.(gob.GobDecoder).GobDecode(b)) })
			}
		}
		c.Case(true, "%s %x", o.name, want)
		c.Class(o.name)
	})
}

// corrupt produces a byte string that is certainly not a valid encoding of o.
func corrupt(t *rapid.T, o object, enc []byte) ([]byte, string) {
	b := append([]byte{}, enc...)
	kinds := []string{"shorter", "longer", "empty"}
	if o.unit >= 48 || o.head > 0 {
		kinds = append(kinds, "no compression flag", "infinity with junk", "random point", "x too large", "off subgroup")
	}
	if o.head > 0 {
		kinds = append(kinds, "version")
	}
	switch o.name {
	case "EonSecretKeyShare", "shbls.SecretKey":
		kinds = []string{"out of range", "longer"}
		if o.name == "shbls.SecretKey" {
			kinds = append(kinds, "shorter", "empty")
		}
	case "shbls.PublicKey", "shbls.Signature":
		kinds = append(kinds, "off curve", "coordinate too large")
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "corruption")
	// position and size of one compressed point inside
	pos, sz := 0, o.unit
	if o.head > 0 {
		pos, sz = 1, 96
	} else if o.size == 0 && len(b) > 0 {
		pos = o.unit * rapid.IntRange(0, len(b)/o.unit-1).Draw(t, "element")
	}
	if o.size == 0 && o.head == 0 && len(b) == 0 && kind != "shorter" && kind != "empty" {
		b = append(b, make([]byte, o.unit)...)
		b[0] = 0xc0
	}
	switch kind {
	case "empty":
		if o.name == "Gammas" { // an empty list is valid
			return []byte{0xc0}, kind
		}
		return []byte{}, kind
	case "shorter":
		n := rapid.IntRange(1, 47).Draw(t, "cut")
		if n > len(b) {
			n = len(b)
		}
		b = b[:len(b)-n]
		if (o.size == 0 && (len(b)-o.head)%o.unit == 0 && len(b) >= o.head) || len(b) == len(enc) {
			b = append(b, 0)
		}
		return b, kind
	case "longer":
		n := rapid.IntRange(1, 40).Draw(t, "extra")
		if o.unit != 0 && n%o.unit == 0 {
			n++
		}
		if o.name == "EonSecretKeyShare" { // a larger number
			return append([]byte{1}, kit.Expand(rapid.Uint64().Draw(t, "num"), "big", 32)...), kind
		}
		return append(b, kit.Expand(rapid.Uint64().Draw(t, "junk"), "junk", n)...), kind
	case "version":
		b[0] ^= byte(rapid.IntRange(1, 255).Draw(t, "v"))
		return b, kind
	case "out of range":
		mod := kit.Q
		if o.name == "shbls.SecretKey" {
			mod = bn256.Order
		}
		v := new(big.Int).Add(mod, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, "excess"))))
		if rapid.Bool().Draw(t, "huge") {
			v = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
		return v.FillBytes(make([]byte, 32)), kind
	case "no compression flag":
		b[pos] &= 0x7f
		return b, kind
	case "infinity with junk":
		copy(b[pos:pos+sz], make([]byte, sz))
		b[pos] = 0xc0
		i := rapid.IntRange(0, sz-1).Draw(t, "byte")
		if i == 0 {
			b[pos] |= 0x20 // sign of infinity
		} else {
			b[pos+i] = 1
		}
		return b, kind
	case "random point", "off subgroup":
		copy(b[pos:pos+sz], kit.Expand(rapid.Uint64().Draw(t, "x"), "x", sz))
		b[pos] = b[pos]&0x2f | 0x80
		b[pos] &= 0xef // below the modulus
		b[pos] &^= 0x18
		return b, kind
	case "x too large":
		for i := 0; i < sz; i++ {
			b[pos+i] = 0xff
		}
		b[pos] = 0x9f
		return b, kind
	case "off curve":
		b[len(b)-1-rapid.IntRange(0, 30).Draw(t, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(t, "d"))
		if allZero(enc) {
			b = kit.Expand(rapid.Uint64().Draw(t, "x"), "xy", len(b))
			b[0] &= 0x0f
		}
		return b, kind
	case "coordinate too large":
		for i := 0; i < 32; i++ {
			b[i] = 0xff
		}
		return b, kind
	}
	panic(kind)
}

func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// TestMalformed: strings that are not encodings are refused by every codec.
func TestMalformed(t *testing.T) {
	vh.Check(t, "valid encoding corrupted so that it cannot be valid (length, flags, range, curve, subgroup, version), fed to each decoder with fresh and used receiver; non-trivial: every case", vh.N(40000, 400000), func(t *rapid.T, c *vh.C) {
		o := drawObject(t)
		enc := marshal(o, o.gen(t))
		bad, kind := corrupt(t, o, enc)
		target := func() interface{} {
			if rapid.Bool().Draw(t, "fresh") {
				return o.neu()
			}
			return o.gen(t)
		}
		fail := func(codec string, err error) {
			if err == nil {
				t.Fatalf("%s: %s accepted malformed encoding (%s) %x", o.name, codec, kind, bad)
			}
		}
		if o.bin {
			y := target()
			vh.NoPanic(t, o.name, func() { fail("binary", y.(unmarsh).Unmarshal(bad)) })
		}
		if o.text {
			y := target()
			vh.NoPanic(t, o.name, func() { fail("text", y.(textU).UnmarshalText([]byte("0x"+hex.EncodeToString(bad)))) })
		}
		if o.gob && o.name != "EonSecretKeyShare" {
			y := target()
			vh.NoPanic(t, o.name, func() { fail("gob", y.(gob.GobDecoder).GobDecode(bad)) })
		}
		c.Case(true, "%s %s %x", o.name, kind, bad)
		c.Class(o.name + ": " + kind)
	})
}

// TestArbitrary: whatever is accepted re-encodes to the same bytes; nothing crashes.
func TestArbitrary(t *testing.T) {
	vh.Check(t, "arbitrary bytes and bit-flipped/truncated/spliced encodings; accepted input must re-encode to itself; non-trivial: input has the length of an encoding", vh.N(75000, 750000), func(t *rapid.T, c *vh.C) {
		o := drawObject(t)
		var in []byte
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			in = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "bytes")
		case 1:
			in = marshal(o, o.gen(t))
			for i := rapid.IntRange(1, 3).Draw(t, "flips"); i > 0 && len(in) > 0; i-- {
				in[rapid.IntRange(0, len(in)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 2:
			in = marshal(o, o.gen(t))
			in = in[rapid.IntRange(0, len(in)).Draw(t, "from"):]
		case 3:
			p := drawObject(t)
			in = append(marshal(o, o.gen(t)), marshal(p, p.gen(t))...)
		}
		right := (o.size > 0 && len(in) == o.size) || (o.size == 0 && len(in) >= o.head && (len(in)-o.head)%o.unit == 0)
		if o.bin {
			y := o.neu()
			vh.NoPanic(t, o.name, func() {
				if err := y.(unmarsh).Unmarshal(in); err == nil {
					c.Class("accepted " + o.name)
					out := y.(marshaler).Marshal()
					if o.name == "EonSecretKeyShare" {
						if !bytes.Equal(out, new(big.Int).SetBytes(in).Bytes()) {
							t.Fatalf("%x decoded to %x", in, out)
						}
					} else if !bytes.Equal(out, in) {
						t.Fatalf("%s: accepted %x but it stands for %x", o.name, in, out)
					}
				}
			})
		}
		if o.gob {
			y := o.neu()
			vh.NoPanic(t, o.name, func() {
				if err := y.(gob.GobDecoder).GobDecode(in); err == nil && o.unit > 0 {
					if out := y.(marshaler).Marshal(); !bytes.Equal(out, in) {
						t.Fatalf("%s gob: accepted %x but it stands for %x", o.name, in, out)
					}
				}
			})
		}
		if o.text {
			y := o.neu()
			txt := []byte("0x" + hex.EncodeToString(in))
			if rapid.IntRange(0, 3).Draw(t, "mangle") == 0 && len(txt) > 2 {
				txt[rapid.IntRange(0, len(txt)-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "char")
			} else if rapid.IntRange(0, 7).Draw(t, "odd") == 0 {
				txt = txt[:len(txt)-1]
			}
			vh.NoPanic(t, o.name, func() {
				if err := y.(textU).UnmarshalText(txt); err == nil {
					out, err := toText(y)
					if err != nil || !bytes.EqualFold(out, txt) {
						t.Fatalf("%s: accepted text %s but it stands for %s", o.name, txt, out)
					}
				}
			})
		}
		c.Case(right, "%s %x", o.name, in)
	})
}

// TestStructs: whole DKG states through gob, as the keyper persists them.
func TestStructs(t *testing.T) {
	vh.Check(t, "DKG instance and result objects with random content through a gob stream; non-trivial: at least one commitment present", vh.N(2000, 20000), func(t *rapid.T, c *vh.C) {
		n := rapid.IntRange(1, 4).Draw(t, "n")
		th := rapid.IntRange(1, n).Draw(t, "t")
		d := puredkg.NewPureDKG(rapid.Uint64().Draw(t, "eon"), uint64(n), uint64(th), uint64(rapid.IntRange(0, n-1).Draw(t, "keyper")))
		if rapid.Bool().Draw(t, "dealt") {
			if _, _, err := d.StartPhase1Dealing(); err != nil {
				t.Fatalf("%v", err)
			}
		}
		with := 0
		for i := range d.Commitments {
			if rapid.Bool().Draw(t, "commitment") {
				d.Commitments[i] = drawGammas(t)
				with++
			}
			if rapid.Bool().Draw(t, "eval") {
				d.Evals[i] = kit.DrawScalar(t, "e")
			}
		}
		for i := rapid.IntRange(0, 3).Draw(t, "accusations"); i > 0; i-- {
			_ = d.HandleAccusationMsg(puredkg.AccusationMsg{Eon: d.Eon, Accuser: uint64(i), Accused: uint64(rapid.IntRange(0, n).Draw(t, "accused"))})
			_ = d.HandleApologyMsg(puredkg.ApologyMsg{Eon: d.Eon, Accuser: uint64(i), Accused: 1, Eval: kit.DrawScalar(t, "apology")})
		}
		buf := bytes.Buffer{}
		if err := gob.NewEncoder(&buf).Encode(d); err != nil {
			t.Fatalf("encode: %v", err)
		}
		e := puredkg.PureDKG{}
		if err := gob.NewDecoder(&buf).Decode(&e); err != nil {
			t.Fatalf("decode: %v", err)
		}
		if e.Phase != d.Phase || e.Eon != d.Eon || e.NumKeypers != d.NumKeypers || e.Threshold != d.Threshold || e.Keyper != d.Keyper ||
			len(e.Commitments) != len(d.Commitments) || len(e.Evals) != len(d.Evals) || len(e.Accusations) != len(d.Accusations) || len(e.Apologies) != len(d.Apologies) {
			t.Fatalf("fields changed: %+v -> %+v", d, e)
		}
		for i := range d.Commitments {
			if (d.Commitments[i] == nil) != (e.Commitments[i] == nil) {
				// an absent commitment must stay distinguishable
				t.Fatalf("commitment %d: nil=%v became nil=%v", i, d.Commitments[i] == nil, e.Commitments[i] == nil)
			}
			if d.Commitments[i] != nil && !d.Commitments[i].Equal(*e.Commitments[i]) {
				t.Fatalf("commitment %d changed", i)
			}
			if (d.Evals[i] == nil) != (e.Evals[i] == nil) || d.Evals[i] != nil && d.Evals[i].Cmp(e.Evals[i]) != 0 {
				t.Fatalf("eval %d: %v -> %v", i, d.Evals[i], e.Evals[i])
			}
		}
		for k := range d.Accusations {
			if _, ok := e.Accusations[k]; !ok {
				t.Fatalf("accusation lost")
			}
		}
		for k, v := range d.Apologies {
			if e.Apologies[k] == nil || v.Cmp(e.Apologies[k]) != 0 {
				t.Fatalf("apology lost")
			}
		}
		if (d.Polynomial == nil) != (e.Polynomial == nil) {
			t.Fatalf("polynomial lost")
		}
		if d.Polynomial != nil {
			for i := range *d.Polynomial {
				if (*d.Polynomial)[i].Cmp((*e.Polynomial)[i]) != 0 {
					t.Fatalf("polynomial changed")
				}
			}
		}
		// result
		r := puredkg.Result{Eon: d.Eon, NumKeypers: d.NumKeypers, Threshold: d.Threshold, Keyper: d.Keyper,
			SecretKeyShare: (*shcrypto.EonSecretKeyShare)(kit.DrawScalar(t, "sks")), PublicKey: (*shcrypto.EonPublicKey)(kit.G2(kit.DrawScalar(t, "pk")))}
		for i := 0; i < n; i++ {
			r.PublicKeyShares = append(r.PublicKeyShares, (*shcrypto.EonPublicKeyShare)(kit.G2(kit.DrawScalar(t, "pks"))))
		}
		r2 := puredkg.Result{}
		if err := gobRT(t, &r, &r2); err != nil {
			t.Fatalf("result: %v", err)
		}
		if r2.Eon != r.Eon || r2.Keyper != r.Keyper || r2.Threshold != r.Threshold || r2.NumKeypers != r.NumKeypers ||
			!r2.SecretKeyShare.Equal(r.SecretKeyShare) || !r2.PublicKey.Equal(r.PublicKey) || len(r2.PublicKeyShares) != n {
			t.Fatalf("result changed: %+v -> %+v", r, r2)
		}
		for i := range r.PublicKeyShares {
			if !r.PublicKeyShares[i].Equal(r2.PublicKeyShares[i]) {
				t.Fatalf("public key share %d changed", i)
			}
		}
		_ = blst.BLST_P1_COMPRESS_BYTES
		c.Case(with > 0, "n=%d t=%d phase=%d commitments=%d acc=%d", n, th, d.Phase, with, len(d.Accusations))
	})
}
