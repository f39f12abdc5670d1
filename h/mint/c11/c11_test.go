package c11

import (
	"bytes"
	"testing"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type nonceKey struct {
	who   string
	nonce uint64
}

// mangle signs a payload made from a real message by protobuf level and byte level changes.
func mangle(t *rapid.T, d *ak.Driver) ak.Tx {
	s, kind, msg, desc := d.Message(t)
	b, err := proto.Marshal(&shmsg.MessageWithNonce{Msg: msg, ChainId: []byte(ak.Chain), RandomNonce: d.Fresh(s)})
	vh.Harness(err, "marshal")
	for k := rapid.IntRange(1, 4).Draw(t, "changes"); k > 0; k-- {
		if len(b) == 0 {
			break
		}
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "change") {
		case 0:
			b[i] ^= 1 << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case 1:
			b[i] = rapid.Byte().Draw(t, "byte")
		case 2:
			b = b[:i]
		case 3:
			j := rapid.IntRange(i, len(b)).Draw(t, "to")
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 4: // an additional field, perhaps a second copy of the message
			f := protowire.AppendTag(nil, protowire.Number(rapid.IntRange(1, 5).Draw(t, "field")), protowire.Type(rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(t, "wire type")))
			f = append(f, rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "value")...)
			b = append(b, f...)
		case 5:
			b = append(b, b...)
		}
	}
	raw := ak.SignBytes(ak.Key(s), b)
	if rapid.IntRange(0, 9).Draw(t, "break signature") == 0 {
		raw[rapid.IntRange(0, 64).Draw(t, "at")] = rapid.Byte().Draw(t, "byte")
	}
	tx := ak.Tx{Raw: ak.Encode(raw), Kind: kind, Sender: s, Msg: msg, Bad: "mangled", Desc: "(mangled) " + desc}
	d.Sent = append(d.Sent, tx)
	d.Note("%s", tx.Desc)
	return tx
}

func deliver(t *rapid.T, d *ak.Driver, a *app.ShutterApp, raw []byte) (r abcitypes.ResponseDeliverTx) {
	defer crash(t, d, "DeliverTx", raw)
	return ak.Deliver(a, raw)
}

func check(t *rapid.T, d *ak.Driver, a *app.ShutterApp, raw []byte) {
	defer crash(t, d, "CheckTx", raw)
	ak.CheckTx(a, raw)
}

func crash(t *rapid.T, d *ak.Driver, what string, raw []byte) {
	if r := recover(); r != nil {
		t.Fatalf("%s crashed: %v\ntx %q\n%s", what, r, raw, d.History())
	}
}

// TestTrace runs one application on everything, with CheckTx calls, and another one on what the first one accepted.
// They have to answer alike. What the first refuses is also put to a copy of the second: it has to refuse it, too,
// unless the nonce was spoilt.
func TestTrace(t *testing.T) {
	vh.Check(t, "at least five transactions were refused and five accepted", vh.N(4500, 60000), func(t *rapid.T, c *vh.C) {
		mix := ak.Even
		mix.Twisted, mix.Bad, mix.Members = 25, 15, 80
		mix.Odd = 4
		dkg := rapid.Bool().Draw(t, "dkg")
		if dkg {
			mix.Eval, mix.Commit, mix.Accuse, mix.Apology = 40, 15, 20, 20
		}
		d := ak.NewDriver(t, mix)
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		all, only := d.NewApp(), d.NewApp()
		spoilt := map[nonceKey]bool{}
		refused, accepted, probes := 0, 0, 0
		n := rapid.IntRange(5, 80).Draw(t, "steps")
		height := int64(0)
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 11).Draw(t, "block") == 0 {
				height++
				d.Note("-- block %d", height)
				a, b := ak.EndBlock(all, height), ak.EndBlock(only, height)
				if ak.Updates(a) != ak.Updates(b) {
					t.Fatalf("validator updates %s, without the refused transactions %s\n%s", ak.Updates(a), ak.Updates(b), d.History())
				}
				d.M.EndBlock()
				all.Commit()
				only.Commit()
				d.M.Commit()
				continue
			}
			var tx ak.Tx
			if dkg && i < 20 && len(d.M.Eons) == 0 {
				snd, kind, msg, desc := d.MessageOf(t, "config")
				tx = ak.Tx{Raw: ak.Sign(ak.Key(snd), ak.Chain, d.Fresh(snd), msg), Kind: kind, Sender: snd, Msg: msg, Desc: desc}
				d.Note("k%d: %s", snd, desc)
			} else if rapid.IntRange(0, 4).Draw(t, "mangle") == 0 {
				tx = mangle(t, d)
			} else {
				tx = d.Next(t)
			}
			for k := rapid.IntRange(0, 2).Draw(t, "checks"); k > 0; k-- {
				check(t, d, all, tx.Raw)
			}
			signer, msg, decodes := ak.Decode(tx.Raw)
			key := nonceKey{string(signer[:]), msg.GetRandomNonce()}
			got := deliver(t, d, all, tx.Raw)
			d.M.Deliver(tx.Raw)
			if got.Code != 0 {
				d.Note("   -> refused")
				refused++
				c.Class("refused " + tx.Kind + " " + tx.Bad)
				if len(got.Events) > 0 {
					t.Fatalf("refused with events %s\n%s", ak.Parse(got.Events), d.History())
				}
				if !decodes || !spoilt[key] {
					if rapid.IntRange(0, 2).Draw(t, "probe") > 0 {
						probes++
						p := ak.Reload(t, only, dir)
						if r := deliver(t, d, p, tx.Raw); r.Code == 0 {
							t.Fatalf("refused (%s), accepted where the refused transactions before did not happen: %s\n%s", got.Log, ak.Parse(r.Events), d.History())
						}
					}
				}
				if decodes {
					spoilt[key] = true
				}
				continue
			}
			accepted++
			d.Note("   -> accepted")
			r := deliver(t, d, only, tx.Raw)
			if r.Code != 0 || !ak.SameEvents(r.Events, got.Events) {
				t.Fatalf("accepted with\n  %s\nwithout the refused transactions: %d %s\n  %s\n%s", ak.Parse(got.Events), r.Code, r.Log, ak.Parse(r.Events), d.History())
			}
		}
		c.ClassN("probes", probes)
		c.Case(refused >= 5 && accepted >= 5, "%s", d.Short())
	})
}

// TestBytes gives arbitrary byte strings to an application in some state.
func TestBytes(t *testing.T) {
	mix := ak.Even
	mix.Bad = 0
	vh.Check(t, "the byte string passes the text encoding", vh.N(4500, 200000), func(t *rapid.T, c *vh.C) {
		d := ak.NewDriver(t, mix)
		a := d.NewApp()
		for i := rapid.IntRange(0, 6).Draw(t, "before"); i > 0; i-- {
			tx := d.Next(t)
			d.M.Deliver(tx.Raw)
			deliver(t, d, a, tx.Raw)
		}
		for i := 0; i < 4; i++ {
			raw := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes")
			switch rapid.IntRange(0, 4).Draw(t, "wrap") {
			case 0:
			case 1:
				raw = ak.Encode(raw)
			default:
				raw = ak.Encode(ak.SignBytes(ak.Key(rapid.IntRange(0, ak.Pool).Draw(t, "key")), raw))
			}
			_, _, ok := ak.Decode(raw)
			check(t, d, a, raw)
			r := deliver(t, d, a, raw)
			if r.Code == 0 {
				signer, msg, _ := ak.Decode(raw)
				if !ok || !bytes.Equal(msg.ChainId, []byte(ak.Chain)) {
					t.Fatalf("noise accepted: %q signed by %x\n%s", raw, signer, d.History())
				}
			}
			c.Case(ak.RawOf(raw) != nil, "%x", raw)
		}
	})
}
