package c29

import (
	"bytes"
	"context"
	"encoding/gob"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"verif/mint/ak"
	"verif/mint/tk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// item is an event of the chain.
type item struct {
	height int64
	ev     shutterevents.IEvent
	text   string
	kind   string // where it belongs: "config", "checkin", "eon", "eval 3", "sig 7" and so on
	batch  uint64
}

func (i item) String() string { return fmt.Sprintf("@%d %s", i.height, i.text) }

func classify(height int64, e shutterevents.IEvent) item {
	i := item{height: height, ev: e, text: ak.Show(e)}
	f := strings.Fields(i.text)
	switch f[0] {
	case "DecryptionSignature":
		i.kind = "signature of batch " + f[1]
		fmt.Sscan(f[1], &i.batch)
	case "Accusation", "Apology", "PolyCommitment", "PolyEval", "EpochSecretKeyShare":
		i.kind = f[0] + " of eon " + f[1]
	default:
		i.kind = f[0]
	}
	return i
}

// history is a chain with the events that are in it.
type history struct {
	*ak.Sim
	chain  *tk.Chain
	items  []item
	bulk   int
	long   int
	signed int
}

// block adds a block of up to n transactions.
func (h *history) block(c *vh.C, n int, gen func(i int) (ak.Tx, bool)) (ok bool) {
	var raws [][]byte
	var res []abcitypes.ResponseDeliverTx
	height := h.chain.Height() + 1
	have := map[string]bool{}
	for i := 0; i < n; i++ {
		tx, ok := gen(i)
		if !ok {
			break
		}
		if h.chain.Seen(tx.Raw) || have[string(tx.Raw)] {
			c.Class("replayed transaction")
		}
		st := h.Deliver(tx)
		if st.Diff != "" {
			c.Class("stopped at a difference of another property")
			return false
		}
		have[string(tx.Raw)] = true
		raws, res = append(raws, tx.Raw), append(res, st.Got)
		for _, e := range st.Evs {
			h.items = append(h.items, classify(height, e))
		}
	}
	h.Sim.Height = height - 1
	if _, diff := h.EndBlock(); diff != "" {
		return false
	}
	h.Commit()
	h.chain.Add(raws, res)
	return true
}

// bulk adds a block of n transactions, each with an event the application could have emitted.
func (h *history) bulkBlock(n int, batch uint64) {
	var raws [][]byte
	var res []abcitypes.ResponseDeliverTx
	height := h.chain.Height() + 1
	ks := h.M.Last().Keypers
	for i := 0; i < n; i++ {
		h.signed++
		e := &shutterevents.DecryptionSignature{
			Height: height, BatchIndex: batch + uint64(h.signed/len(ks)), Sender: ks[h.signed%len(ks)], Signature: []byte(fmt.Sprint("signature ", h.signed)),
		}
		h.items = append(h.items, classify(height, e))
		raws = append(raws, []byte(fmt.Sprint("transaction ", h.signed)))
		res = append(res, abcitypes.ResponseDeliverTx{Events: []abcitypes.Event{e.MakeABCIEvent()}})
	}
	h.chain.Add(raws, res)
}

// extend adds blocks.
func (h *history) extend(t *rapid.T, c *vh.C) bool {
	switch rapid.IntRange(0, 19).Draw(t, "extend") {
	case 0: // a long time without transactions
		n := rapid.IntRange(100, 1100).Draw(t, "empty blocks")
		for i := 0; i < n; i++ {
			h.chain.Add(nil, nil)
		}
		h.long++
		c.Class("hundreds of blocks")
	case 1, 2: // a lot of transactions
		n := rapid.SampledFrom([]int{99, 100, 101, 150, 199, 200, 201, 260}).Draw(t, "transactions")
		in := rapid.IntRange(1, 4).Draw(t, "blocks")
		if len(h.M.Last().Keypers) == 0 {
			return true
		}
		for ; n > 0; n -= (n + in - 1) / in {
			h.bulkBlock((n+in-1)/in, h.M.Last().Start)
		}
		h.bulk++
		c.Class("more than a page of transactions")
	case 3: // about as many blocks as are asked for at once
		for b := rapid.IntRange(15, 45).Draw(t, "blocks"); b > 0; b-- {
			if !h.block(c, vh.Pick(2).Draw(t, "transactions"), func(int) (ak.Tx, bool) { return h.Next(t), true }) {
				return false
			}
		}
		c.Class("tens of blocks")
	default:
		for b := rapid.IntRange(1, 6).Draw(t, "blocks"); b > 0; b-- {
			if !h.block(c, rapid.IntRange(0, 5).Draw(t, "transactions"), func(int) (ak.Tx, bool) { return h.Next(t), true }) {
				return false
			}
		}
	}
	return true
}

// contents lists what a view shows.
func contents(t *rapid.T, s *observe.Shutter) []item {
	var r []item
	add := func(height int64, e shutterevents.IEvent) { r = append(r, classify(height, e)) }
	for i := range s.BatchConfigs {
		add(s.BatchConfigs[i].Height, &s.BatchConfigs[i])
	}
	for i := range s.Eons {
		e := &s.Eons[i]
		if e.Eon != e.StartEvent.Eon || e.StartHeight != e.StartEvent.Height {
			t.Fatalf("eon %d from %d shown with start event %v", e.Eon, e.StartHeight, e.StartEvent)
		}
		add(e.StartEvent.Height, &e.StartEvent)
		mine := func(x item, n uint64) {
			if n != e.Eon {
				t.Fatalf("%v listed with eon %d", x, e.Eon)
			}
		}
		for j := range e.Commitments {
			add(e.Commitments[j].Height, &e.Commitments[j])
			mine(r[len(r)-1], e.Commitments[j].Eon)
		}
		for j := range e.PolyEvals {
			add(e.PolyEvals[j].Height, &e.PolyEvals[j])
			mine(r[len(r)-1], e.PolyEvals[j].Eon)
		}
		for j := range e.Accusations {
			add(e.Accusations[j].Height, &e.Accusations[j])
			mine(r[len(r)-1], e.Accusations[j].Eon)
		}
		for j := range e.Apologies {
			add(e.Apologies[j].Height, &e.Apologies[j])
			mine(r[len(r)-1], e.Apologies[j].Eon)
		}
		for j := range e.EpochSecretKeyShares {
			add(e.EpochSecretKeyShares[j].Height, &e.EpochSecretKeyShares[j])
			mine(r[len(r)-1], e.EpochSecretKeyShares[j].Eon)
		}
	}
	var bs []uint64
	for b := range s.Batches {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	for _, b := range bs {
		d := s.Batches[b]
		if d.BatchIndex != b {
			t.Fatalf("batch %d listed as %d", d.BatchIndex, b)
		}
		for j := range d.DecryptionSignatures {
			add(d.DecryptionSignatures[j].Height, &d.DecryptionSignatures[j])
			if d.DecryptionSignatures[j].BatchIndex != b {
				t.Fatalf("%v listed with batch %d", r[len(r)-1], b)
			}
		}
	}
	return r
}

// dump renders everything a view shows.
func dump(t *rapid.T, s *observe.Shutter) string {
	var b strings.Builder
	fmt.Fprintf(&b, "block %d committed %d filter %v synced %v\n", s.CurrentBlock, s.LastCommittedHeight, s.Filter, s.IsSynced())
	for _, i := range contents(t, s) {
		fmt.Fprintln(&b, i)
	}
	var ks []string
	for a, k := range s.KeyperEncryptionKeys {
		kb, _ := k.GobEncode()
		ks = append(ks, fmt.Sprintf("%x %x", a, kb))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "\n"))
	return b.String()
}

// floor is below what may be gone.
type floor struct {
	height int64
	batch  uint64
}

// verify compares a view with the chain.
func (h *history) verify(t *rapid.T, s *observe.Shutter, f floor) {
	at := s.CurrentBlock
	want, got := map[string][]item{}, map[string][]item{}
	var kinds []string
	started := map[string]bool{}
	keys := map[common.Address]string{}
	for _, i := range h.items {
		if i.height > at {
			continue
		}
		if strings.HasPrefix(i.text, "CheckIn") {
			var a, k string
			fmt.Sscanf(i.text, "CheckIn %s %s", &a, &k)
			keys[common.HexToAddress(a)] = k
			continue
		}
		if x, ok := i.ev.(*shutterevents.EonStarted); ok {
			started[fmt.Sprint(x.Eon)] = true
		}
		if n := strings.Index(i.kind, " of eon "); n >= 0 && !started[i.kind[n+len(" of eon "):]] {
			continue // of an eon there isn't
		}
		if len(want[i.kind]) == 0 {
			kinds = append(kinds, i.kind)
		}
		want[i.kind] = append(want[i.kind], i)
	}
	for _, i := range contents(t, s) {
		if len(want[i.kind]) == 0 {
			t.Fatalf("at %d the view shows %v, which is not in the chain\n%s", at, i, h.History())
		}
		got[i.kind] = append(got[i.kind], i)
	}
	for _, k := range kinds {
		keep := func(i item) bool {
			switch {
			case strings.HasPrefix(k, "signature"):
				return i.batch >= f.batch
			case strings.Contains(k, " of eon "):
				return i.height >= f.height
			}
			return true
		}
		w, g := want[k], got[k]
		for _, x := range g {
			for len(w) > 0 && w[0].String() != x.String() {
				if keep(w[0]) {
					t.Fatalf("at %d %v is missing before %v (needed: from height %d, batch %d on)\n%s", at, w[0], x, f.height, f.batch, h.History())
				}
				w = w[1:]
			}
			if len(w) == 0 {
				t.Fatalf("at %d the view shows %v too often or at the wrong place\n%s", at, x, h.History())
			}
			w = w[1:]
		}
		for _, x := range w {
			if keep(x) {
				t.Fatalf("at %d %v is missing (needed: from height %d, batch %d on)\n%s", at, x, f.height, f.batch, h.History())
			}
		}
	}
	if len(keys) != len(s.KeyperEncryptionKeys) {
		t.Fatalf("at %d %d encryption keys instead of %d\n%s", at, len(s.KeyperEncryptionKeys), len(keys), h.History())
	}
	for a, k := range keys {
		e, ok := s.KeyperEncryptionKeys[a]
		if !ok || !s.IsCheckedIn(a) {
			t.Fatalf("%s is not checked in at %d\n%s", ak.Name(a), at, h.History())
		}
		if kb, err := e.GobEncode(); err != nil || fmt.Sprintf("%x", kb) != k {
			t.Fatalf("at %d the encryption key of %s is %x (%v) instead of %s\n%s", at, ak.Name(a), kb, err, k, h.History())
		}
	}
	h.lookups(t, s, want)
}

// lookups compares what the view finds with what is in the chain.
func (h *history) lookups(t *rapid.T, s *observe.Shutter, want map[string][]item) {
	for k := 0; k < ak.Pool+ak.Outsiders; k++ {
		is := false
		for _, i := range want["BatchConfig"] {
			for _, a := range i.ev.(*shutterevents.BatchConfig).Keypers {
				is = is || a == ak.Addr(k)
			}
		}
		if s.IsKeyper(ak.Addr(k)) != is {
			t.Fatalf("at %d k%d is a keyper: %v, expected %v\n%s", s.CurrentBlock, k, !is, is, h.History())
		}
	}
	var bs, es []uint64
	for _, i := range want["BatchConfig"] {
		x := i.ev.(*shutterevents.BatchConfig)
		bs = append(bs, x.StartBatchIndex, x.StartBatchIndex-1, x.StartBatchIndex+1)
		got, err := s.FindBatchConfigByConfigIndex(x.ConfigIndex)
		if err != nil || ak.Show(&got) != i.text {
			t.Fatalf("at %d config %d is %v (%v) instead of %v", s.CurrentBlock, x.ConfigIndex, got, err, i)
		}
	}
	for _, i := range want["EonStarted"] {
		x := i.ev.(*shutterevents.EonStarted)
		bs = append(bs, x.BatchIndex, x.BatchIndex-1, x.BatchIndex+1)
		es = append(es, x.Eon, x.Eon-1, x.Eon+1)
	}
	for _, b := range bs {
		var cfg, eon *item
		for j, i := range want["BatchConfig"] {
			if i.ev.(*shutterevents.BatchConfig).StartBatchIndex <= b {
				cfg = &want["BatchConfig"][j]
			}
		}
		got := s.FindBatchConfigByBatchIndex(b)
		if cfg != nil && ak.Show(&got) != cfg.text || cfg == nil && len(got.Keypers) != 0 {
			t.Fatalf("at %d the config for batch %d is %v instead of %v", s.CurrentBlock, b, got, cfg)
		}
		for j, i := range want["EonStarted"] {
			if i.ev.(*shutterevents.EonStarted).BatchIndex <= b {
				eon = &want["EonStarted"][j]
			}
		}
		e, err := s.FindEonByBatchIndex(b)
		if (err == nil) != (eon != nil) || eon != nil && ak.Show(&e.StartEvent) != eon.text {
			t.Fatalf("at %d the eon for batch %d is %v (%v) instead of %v", s.CurrentBlock, b, e, err, eon)
		}
	}
	for _, n := range es {
		var eon *item
		for j, i := range want["EonStarted"] {
			if i.ev.(*shutterevents.EonStarted).Eon == n {
				eon = &want["EonStarted"][j]
			}
		}
		e, err := s.FindEon(n)
		if (err == nil) != (eon != nil) || eon != nil && ak.Show(&e.StartEvent) != eon.text {
			t.Fatalf("at %d eon %d is %v (%v) instead of %v", s.CurrentBlock, n, e, err, eon)
		}
	}
}

var mix = ak.Mix{Config: 12, Started: 4, CheckIn: 10, EonVote: 8, Sig: 12, Eval: 8, Commit: 8, Accuse: 6, Apology: 6, Share: 14, Odd: 1, Twisted: 5, Bad: 5, Members: 94}

var errFault = errors.New("the node fails")

// faults makes the request after the next n fail, n < 0: none.
func faults(ch *tk.Chain, n int, hit *bool) {
	*hit = false
	if n < 0 {
		ch.SetFault(nil)
		return
	}
	ch.SetFault(func(string) error {
		if n == 0 {
			*hit = true
			n--
			return errFault
		}
		n--
		return nil
	})
}

func TestViewIsThatOfTheChain(t *testing.T) {
	vh.Check(t, "a history with events of at least 4 kinds, synced in at least 4 steps", vh.N(2400, 24000), func(t *rapid.T, c *vh.C) {
		h := &history{Sim: ak.NewSim(t, mix), chain: tk.New(ak.Chain)}
		defer h.Close()
		cl := h.chain.Client()
		h.chain.Add(nil, nil)
		type snap struct {
			s    *observe.Shutter
			text string
			f    floor
		}
		cur := observe.NewShutter()
		fl := floor{}
		var snaps []snap
		var log []string
		steps, failed, back, filters, restarts := 0, 0, 0, 0, 0
		n := rapid.IntRange(3, 16).Draw(t, "steps")
		for i := 0; i < n; i++ {
			if !h.extend(t, c) {
				break
			}
			head := h.chain.Height()
			for syncs := rapid.IntRange(0, 2).Draw(t, "syncs"); syncs > 0 || i == n-1; syncs-- {
				// what the node shows
				visible := head
				if !(i == n-1) {
					switch rapid.IntRange(0, 5).Draw(t, "shown") {
					case 0:
						visible = rapid.Int64Range(1, head).Draw(t, "head")
					case 1, 2:
						if cur.CurrentBlock+1 < head {
							visible = cur.CurrentBlock + 1 + rapid.Int64Range(1, 3).Draw(t, "few blocks")
							if visible > head {
								visible = head
							}
						}
					}
				}
				h.chain.SetVisible(&visible)
				catching := rapid.IntRange(0, 4).Draw(t, "node is catching up") == 0
				h.chain.SetCatchingUp(catching)
				at := -1
				if i < n-1 && rapid.IntRange(0, 2).Draw(t, "fault") == 0 {
					at = rapid.IntRange(0, 6).Draw(t, "request")
				}
				hit := false
				faults(h.chain, at, &hit)
				var next *observe.Shutter
				var err error
				vh.NoPanic(t, fmt.Sprintf("SyncToHead at %d with the node at %d", cur.CurrentBlock, visible), func() { next, err = cur.SyncToHead(context.Background(), cl) })
				faults(h.chain, -1, new(bool))
				if hit {
					failed++
					if err == nil {
						t.Fatalf("a request failed, but SyncToHead didn't")
					}
				}
				if err != nil {
					if !hit {
						t.Fatalf("cannot sync from %d to %d: %+v", cur.CurrentBlock, visible, err)
					}
					continue
				}
				steps++
				was := cur.CurrentBlock
				log = append(log, fmt.Sprintf("%d->%d", was, next.CurrentBlock))
				switch {
				case visible-1 > was:
					if next.CurrentBlock != visible-1 {
						t.Fatalf("synced to %d, the last committed height is %d", next.CurrentBlock, visible-1)
					}
				case next.CurrentBlock != was:
					t.Fatalf("went from %d to %d with the node at %d", was, next.CurrentBlock, visible)
				}
				if visible-1 < was {
					back++
				}
				if visible-1 != was && next.IsSynced() == catching {
					t.Fatalf("the node is catching up: %v, the view says it's synced: %v", catching, next.IsSynced())
				}
				cur = next
				snaps = append(snaps, snap{cur, dump(t, cur), fl})
				h.verify(t, cur, fl)
				if i == n-1 {
					break
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
				// at most everything up to now has been processed
				f := observe.ShutterFilter{
					SyncHeight: rapid.Int64Range(0, cur.CurrentBlock+1).Draw(t, "sync height"),
					BatchIndex: rapid.Uint64Range(0, h.M.Last().Start+8).Draw(t, "batch"),
				}
				if rapid.Bool().Draw(t, "tight") {
					f.SyncHeight = cur.CurrentBlock + 1 - rapid.Int64Range(0, 3).Draw(t, "behind")
					if f.SyncHeight < 0 {
						f.SyncHeight = 0
					}
				}
				vh.NoPanic(t, "ApplyFilter", func() { cur = cur.ApplyFilter(f) })
				if f.SyncHeight > fl.height {
					fl.height = f.SyncHeight
				}
				if f.BatchIndex > fl.batch {
					fl.batch = f.BatchIndex
				}
				filters++
				log = append(log, fmt.Sprintf("filter %d/%d", f.SyncHeight, f.BatchIndex))
				h.verify(t, cur, fl)
				snaps = append(snaps, snap{cur, dump(t, cur), fl})
			}
			if rapid.IntRange(0, 7).Draw(t, "restart") == 0 {
				var b bytes.Buffer
				if err := gob.NewEncoder(&b).Encode(struct{ Shutter *observe.Shutter }{cur}); err != nil {
					t.Fatalf("cannot store the view: %v", err)
				}
				st := struct{ Shutter *observe.Shutter }{}
				if err := gob.NewDecoder(&b).Decode(&st); err != nil {
					t.Fatalf("cannot load the view: %v", err)
				}
				cur = st.Shutter
				if cur.CurrentBlock >= 0 && len(snaps) > 0 {
					h.verify(t, cur, fl)
				}
				restarts++
				log = append(log, "restart")
			}
			if len(snaps) > 2 && rapid.IntRange(0, 9).Draw(t, "go on from an older view") == 0 {
				s := snaps[rapid.IntRange(0, len(snaps)-1).Draw(t, "view")]
				cur, fl = s.s, s.f
				log = append(log, fmt.Sprintf("back to %d", cur.CurrentBlock))
			}
		}
		for _, s := range snaps {
			if d := dump(t, s.s); d != s.text {
				t.Fatalf("a view handed out earlier changed from\n%s\nto\n%s\n%s\n%s", s.text, d, strings.Join(log, " "), h.History())
			}
		}
		ks := map[string]bool{}
		for _, i := range h.items {
			ks[strings.Fields(i.text)[0]] = true
		}
		for k := range ks {
			c.Class(k)
		}
		c.ClassN("failed syncs", failed)
		c.ClassN("node behind the view", back)
		c.ClassN("filters", filters)
		c.ClassN("restarts", restarts)
		c.Case(len(ks) >= 4 && steps >= 4, "%d events of %d kinds in %d blocks; %s", len(h.items), len(ks), h.chain.Height(), strings.Join(log, " "))
	})
}

// TestLoop runs the syncing loop as a keyper does: the keyper handles the views it gets (or doesn't, as long as the
// main chain isn't synced) and tells the loop what it doesn't need anymore.
func TestLoop(t *testing.T) {
	vh.Check(t, "at least 3 views received, at least one filter sent", vh.N(1800, 18000), func(t *rapid.T, c *vh.C) {
		h := &history{Sim: ak.NewSim(t, mix), chain: tk.New(ak.Chain)}
		defer h.Close()
		h.chain.Add(nil, nil)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		views := make(chan *observe.Shutter)
		filter := make(chan observe.ShutterFilter, 3)
		done := make(chan string, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					done <- fmt.Sprint("panic: ", r)
				}
			}()
			err := observe.SyncShutter(ctx, h.chain.Client(), observe.NewShutter(), views, filter)
			done <- fmt.Sprint("returned: ", err)
		}()
		for i := 0; h.chain.Subscribers() == 0; i++ {
			if i > 20000 {
				t.Fatalf("no subscription")
			}
			time.Sleep(time.Millisecond)
		}
		var cur *observe.Shutter
		syncHeight := int64(0)
		batch := uint64(0)
		var log []string
		received, sent, faulted := 0, 0, 0
		n := rapid.IntRange(3, 14).Draw(t, "blocks")
		for i := 0; i <= n; i++ {
			if i < n && !h.extend(t, c) {
				n = i // one more for a last view
			}
			failing := make(chan bool, 1)
			if i < n && rapid.IntRange(0, 4).Draw(t, "fault") == 0 {
				left := rapid.IntRange(0, 5).Draw(t, "request")
				h.chain.SetFault(func(string) error {
					if left == 0 {
						left--
						failing <- true
						return errFault
					}
					left--
					return nil
				})
			} else {
				h.chain.SetFault(nil)
			}
			h.chain.Announce()
			var got *observe.Shutter
			select {
			case got = <-views:
			case <-failing:
				faulted++
				log = append(log, "fault")
				continue
			case why := <-done:
				t.Fatalf("SyncShutter %s\n%s", why, strings.Join(log, " "))
			case <-time.After(9 * time.Second):
				t.Fatalf("no view of the chain after a new block at %d\n%s", h.chain.Height(), strings.Join(log, " "))
			}
			h.chain.SetFault(nil)
			cur = got
			received++
			log = append(log, fmt.Sprintf("view %d", cur.CurrentBlock))
			if cur.CurrentBlock != h.chain.Height()-1 {
				t.Fatalf("the view is at %d, the last committed height is %d", cur.CurrentBlock, h.chain.Height()-1)
			}
			h.verify(t, cur, floor{syncHeight, batch})
			// the keyper handles what it got
			if rapid.IntRange(0, 3).Draw(t, "handled") > 0 {
				syncHeight = cur.CurrentBlock + 1
			}
			if rapid.IntRange(0, 3).Draw(t, "batches are over") == 0 {
				batch += rapid.Uint64Range(1, 3).Draw(t, "batches")
			}
			if rapid.IntRange(0, 2).Draw(t, "send filter") > 0 {
				select {
				case filter <- observe.ShutterFilter{SyncHeight: syncHeight, BatchIndex: batch}:
					sent++
					log = append(log, fmt.Sprintf("filter %d/%d", syncHeight, batch))
				default:
				}
			}
		}
		if cur == nil || cur.CurrentBlock != h.chain.Height()-1 {
			t.Fatalf("the last view is not that of the last block\n%s", strings.Join(log, " "))
		}
		cancel()
		select {
		case <-done:
		case <-time.After(9 * time.Second):
			t.Fatalf("SyncShutter doesn't end")
		}
		c.ClassN("faults", faulted)
		c.Case(received >= 3 && sent > 0, "%d events, %s", len(h.items), strings.Join(log, " "))
	})
}
