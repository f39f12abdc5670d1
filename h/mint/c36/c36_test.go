package c36

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/mint/kk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// keys of one eon and one epoch, as the keypers make them.
type keys struct {
	eon   *shcrypto.EonPublicKey
	epoch uint64
	key   *shcrypto.EpochSecretKey
}

func (k *keys) epochBytes() []byte { return kk.EpochBytes(k.epoch) }

func makeKeys(t *rapid.T, label string) *keys {
	n := rapid.IntRange(1, 4).Draw(t, label+" keypers")
	threshold := rapid.IntRange(1, n).Draw(t, label+" threshold")
	results := kk.DKG(n, threshold, vh.Pick(3).Draw(t, label+" variant"))
	k := &keys{eon: results[0].PublicKey, epoch: vh.U64().Draw(t, label+" epoch")}
	who := rapid.Permutation([]int{0, 1, 2, 3}[:n]).Draw(t, label+" who")
	kg := epochkg.NewEpochKG(&results[0])
	for _, i := range who[:threshold] {
		err := kg.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{
			Eon: kg.Eon, Epoch: k.epoch, Sender: uint64(i),
			Share: epochkg.NewEpochKG(&results[i]).ComputeEpochSecretKeyShare(k.epoch),
		})
		vh.Harness(err, "share")
	}
	k.key = kg.SecretKeys[k.epoch]
	if k.key == nil {
		vh.Harness(fmt.Errorf("no epoch secret key"), "keys")
	}
	return k
}

func message(t *rapid.T) []byte {
	n := 0
	switch vh.Pick(6).Draw(t, "message kind") {
	case 0:
		n = 32 * rapid.IntRange(0, 4).Draw(t, "blocks")
	case 1:
		n = rapid.IntRange(0, 3000).Draw(t, "length")
	case 2:
		n = []int{1, 31, 33, 63, 65, 4095, 8192, 40000}[vh.Pick(8).Draw(t, "length")]
	default:
		return rapid.SliceOfN(rapid.Byte(), 0, 150).Draw(t, "message")
	}
	m := make([]byte, n)
	x := rapid.Byte().Draw(t, "fill")
	for i := range m {
		m[i] = x + byte(i)*(x&3)
	}
	return m
}

// as gives bytes as one of the types that the library takes for bytes.
func as(t *rapid.T, b []byte) Arg {
	return Arg{[]string{"u8", "u8", "u8", "clamped", "buffer", "view"}[vh.Pick(6).Draw(t, "type")], hex.EncodeToString(b)}
}

// load returns a module that has the function.
func load(t *rapid.T, names ...string) *Module {
	m, err := Load(names[vh.Pick(len(names)).Draw(t, "module")])
	if err != nil {
		t.Fatalf("%v", err)
	}
	return m
}

const (
	encryptFn = "shcrypto_encrypt"
	decryptFn = "shcrypto_decrypt"
	verifyFn  = "shcrypto_verifyDecryptionKey"
)

func modulesOf(f string) []string {
	switch f {
	case encryptFn:
		return []string{"both", "encrypt"}
	case decryptFn:
		return []string{"both", "decrypt"}
	}
	return []string{"both"}
}

func call(t *rapid.T, f string, args ...Arg) Result {
	m := load(t, modulesOf(f)...)
	found := false
	for _, g := range m.Funcs {
		found = found || g == f
	}
	if !found {
		t.Fatalf("module %s offers %v, but not %s", m.Name, m.Funcs, f)
	}
	res, err := m.Call(f, args...)
	if err != nil {
		t.Fatalf("%s%v: %v", f, args, err)
	}
	for i, a := range args {
		if a.isBytes() && (res.Args[i] == nil || *res.Args[i] != a.Hex) {
			t.Fatalf("%s changed its argument %d, %v", f, i, a)
		}
	}
	return res
}

// want is what the call has to return; nil if it has to report an error.
func want(f string, args []Arg) interface{} {
	for _, a := range args {
		if !a.isBytes() {
			return nil
		}
	}
	hexed := func(b []byte) interface{} { return "0x" + hex.EncodeToString(b) }
	switch {
	case f == encryptFn && len(args) == 4:
		pk := new(shcrypto.EonPublicKey)
		if pk.Unmarshal(args[1].bytes()) != nil || len(args[2].bytes()) != 8 || len(args[3].bytes()) != 32 {
			return nil
		}
		var sigma shcrypto.Block
		copy(sigma[:], args[3].bytes())
		return hexed(shcrypto.Encrypt(args[0].bytes(), pk, shcrypto.ComputeEpochID(args[2].bytes()), sigma).Marshal())
	case f == decryptFn && len(args) == 2:
		m := new(shcrypto.EncryptedMessage)
		k := new(shcrypto.EpochSecretKey)
		if m.Unmarshal(args[0].bytes()) != nil || k.Unmarshal(args[1].bytes()) != nil {
			return nil
		}
		d, err := m.Decrypt(k)
		if err != nil {
			return nil
		}
		return hexed(d)
	case f == verifyFn && len(args) == 3:
		k := new(shcrypto.EpochSecretKey)
		pk := new(shcrypto.EonPublicKey)
		if k.Unmarshal(args[0].bytes()) != nil || pk.Unmarshal(args[1].bytes()) != nil || len(args[2].bytes()) != 8 {
			return nil
		}
		ok, err := shcrypto.VerifyEpochSecretKey(k, pk, args[2].bytes())
		vh.Harness(err, "verify")
		return ok
	}
	return nil
}

func compare(t *rapid.T, f string, args []Arg, res Result, want interface{}) {
	switch w := want.(type) {
	case nil:
		if !res.isError() {
			t.Fatalf("%s%v: got %+v, want an error", f, args, res)
		}
	case string:
		if res.Type != "string" || res.Value != w {
			t.Fatalf("%s%v: got %+v, want %s", f, args, res, w)
		}
	case bool:
		if res.Type != "boolean" || res.Value != fmt.Sprint(w) {
			t.Fatalf("%s%v: got %+v, want %v", f, args, res, w)
		}
	}
}

// endAfterFailure ends the modules if the case fails, so that earlier calls can't influence its reproduction.
func endAfterFailure(t *rapid.T) {
	if t.Failed() {
		for _, m := range running {
			m.end()
		}
	}
}

// TestMessages: what the library encrypts is decrypted by keypers and by the library, and it accepts genuine keys only.
func TestMessages(t *testing.T) {
	t.Cleanup(stopAll)
	vh.Check(t, "the message isn't empty and a key of another epoch or eon is tried too", vh.N(640, 8000), func(t *rapid.T, c *vh.C) {
		defer endAfterFailure(t)
		k := makeKeys(t, "")
		msg := message(t)
		var sigma shcrypto.Block
		copy(sigma[:], rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "sigma"))
		res := call(t, encryptFn, as(t, msg), as(t, k.eon.Marshal()), as(t, k.epochBytes()), as(t, sigma[:]))
		if res.Type != "string" || len(res.Value) < 2 || res.Value[:2] != "0x" {
			t.Fatalf("encrypting %x: got %+v", msg, res)
		}
		encrypted, err := hex.DecodeString(res.Value[2:])
		if err != nil {
			t.Fatalf("encrypting %x: got %+v", msg, res)
		}
		if ref := shcrypto.Encrypt(msg, k.eon, shcrypto.ComputeEpochID(k.epochBytes()), sigma).Marshal(); !bytes.Equal(ref, encrypted) {
			t.Fatalf("encrypting %x: got %x, want %x", msg, encrypted, ref)
		}
		batch := observe.Batch{BatchIndex: k.epoch, EncryptedTransactions: [][]byte{encrypted}}
		if txs := batch.DecryptTransactions(k.key); len(txs) != 1 || !bytes.Equal(txs[0], msg) {
			t.Fatalf("keypers decrypt %x to %x", msg, txs)
		}
		args := []Arg{as(t, encrypted), as(t, k.key.Marshal())}
		compare(t, decryptFn, args, call(t, decryptFn, args...), "0x"+hex.EncodeToString(msg))
		args = []Arg{as(t, k.key.Marshal()), as(t, k.eon.Marshal()), as(t, k.epochBytes())}
		compare(t, verifyFn, args, call(t, verifyFn, args...), true)

		other := vh.Pct(50).Draw(t, "other keys")
		if other {
			o := makeKeys(t, "other")
			for _, p := range []struct {
				key   *keys
				eon   *keys
				epoch *keys
			}{{o, k, k}, {k, o, k}, {k, k, o}} {
				// the key of another epoch or eon, or none
				genuine := bytes.Equal(p.key.eon.Marshal(), p.eon.eon.Marshal()) && p.key.epoch == p.epoch.epoch
				args := []Arg{as(t, p.key.key.Marshal()), as(t, p.eon.eon.Marshal()), as(t, p.epoch.epochBytes())}
				compare(t, verifyFn, args, call(t, verifyFn, args...), genuine)
			}
		}
		c.Class(fmt.Sprintf("%d blocks", min(len(msg)/32+1, 10)))
		c.Case(len(msg) > 0 && other, "%d bytes for epoch %d, other keys: %v", len(msg), k.epoch, other)
	})
}

var types = []string{"u8", "clamped", "buffer", "view", "u16", "i8", "dataview", "arraybuffer", "array", "string", "fake", "null", "undefined", "number", "bigint", "bool", "object", "function"}

// alter makes an argument a little wrong, or just different.
func alter(t *rapid.T, c *vh.C, a Arg) Arg {
	b := a.bytes()
	kind := []string{"type", "truncated", "extended", "bit", "random", "zeros", "empty", "first byte", "half"}[vh.Pick(9).Draw(t, "alteration")]
	c.Class("altered: " + kind)
	switch kind {
	case "type":
		a.Type = types[vh.Pick(len(types)).Draw(t, "type")]
		return a
	case "truncated":
		b = b[:len(b)-min(len(b), rapid.IntRange(1, 40).Draw(t, "by"))]
	case "extended":
		b = append(b, rapid.SliceOfN(rapid.Byte(), 1, 70).Draw(t, "extra")...)
	case "bit":
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
	case "random":
		for i := range b {
			b[i] = rapid.Byte().Draw(t, "byte")
		}
	case "zeros":
		b = make([]byte, len(b))
	case "empty":
		b = nil
	case "first byte":
		b = append([]byte{rapid.Byte().Draw(t, "byte")}, b...)
	case "half":
		b = b[:len(b)/2]
	}
	a.Hex = hex.EncodeToString(b)
	return a
}

// TestArguments: calls with altered, missing or additional arguments return what they have to, or an error, and don't disturb later calls.
func TestArguments(t *testing.T) {
	t.Cleanup(stopAll)
	vh.Check(t, "a call had to report an error and a later one to succeed", vh.N(1200, 16000), func(t *rapid.T, c *vh.C) {
		defer endAfterFailure(t)
		k := makeKeys(t, "")
		msg := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "message")
		sigma := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "sigma")
		var block shcrypto.Block
		copy(block[:], sigma)
		encrypted := shcrypto.Encrypt(msg, k.eon, shcrypto.ComputeEpochID(k.epochBytes()), block).Marshal()
		bad, good := false, false
		var before [][]Arg
		var beforeFn []string
		for i := rapid.IntRange(1, 4).Draw(t, "calls"); i > 0; i-- {
			f := []string{encryptFn, decryptFn, verifyFn}[vh.Pick(3).Draw(t, "function")]
			var args []Arg
			switch f {
			case encryptFn:
				args = []Arg{u8(msg), u8(k.eon.Marshal()), u8(k.epochBytes()), u8(sigma)}
			case decryptFn:
				args = []Arg{u8(encrypted), u8(k.key.Marshal())}
			case verifyFn:
				args = []Arg{u8(k.key.Marshal()), u8(k.eon.Marshal()), u8(k.epochBytes())}
			}
			switch vh.Pick(8).Draw(t, "change") {
			case 0:
			case 1:
				args = args[:len(args)-rapid.IntRange(1, len(args)).Draw(t, "missing")]
			case 2:
				args = append(args, args[vh.Pick(len(args)).Draw(t, "again")])
			case 3:
				i, j := vh.Pick(len(args)).Draw(t, "i"), vh.Pick(len(args)).Draw(t, "j")
				args[i], args[j] = args[j], args[i]
			default:
				i := vh.Pick(len(args)).Draw(t, "which")
				args[i] = alter(t, c, args[i])
			}
			if len(before) > 0 && vh.Pct(25).Draw(t, "call again") {
				// an earlier call, as a whole or one of its arguments in another call
				j := vh.Pick(len(before)).Draw(t, "earlier")
				if f == beforeFn[j] || vh.Pct(50).Draw(t, "whole") {
					f, args = beforeFn[j], append([]Arg{}, before[j]...)
				} else if len(args) > 0 && len(before[j]) > 0 {
					args[vh.Pick(len(args)).Draw(t, "which")] = before[j][vh.Pick(len(before[j])).Draw(t, "argument")]
				}
				c.Class("again")
			}
			before, beforeFn = append(before, append([]Arg{}, args...)), append(beforeFn, f)
			w := want(f, args)
			compare(t, f, args, call(t, f, args...), w)
			if w == nil {
				bad = true
			} else if bad {
				good = true
			}
			c.Class(fmt.Sprintf("%s: error %v", f, w == nil))
		}
		c.Case(bad && good, "message %x", msg)
	})
}
