package c31

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"sort"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/mint/ek"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

var key, _ = crypto.ToECDSA(common.LeftPadBytes([]byte{7}, 32))

func addr(i int) common.Address { return common.BytesToAddress([]byte{0x55, byte(i >> 8), byte(i)}) }

// genConfigs schedules a random list of configs with the contract, keeping only what it admits.
func genConfigs(t *rapid.T, w *ek.World) (tried, admitted int) {
	n := rapid.IntRange(1, 5).Draw(t, "configs")
	last := contract.BatchConfig{}
	for i := 0; i < n; i++ {
		w.Mine(rapid.IntRange(0, 3).Draw(t, "blocks between"))
		next := w.Head() + 1
		bc := contract.BatchConfig{BatchSizeLimit: 1000, TransactionSizeLimit: 100}
		switch rapid.IntRange(0, 9).Draw(t, "span kind") {
		case 0, 1:
			bc.BatchSpan = 0
		case 2:
			bc.BatchSpan = rapid.Uint64Range(21, 60).Draw(t, "longer span")
		case 3:
			bc.BatchSpan = rapid.Uint64().Draw(t, "any span")
		case 4:
			bc.BatchSpan = math.MaxUint64 - rapid.Uint64Range(0, 100).Draw(t, "huge span")
		default:
			bc.BatchSpan = rapid.Uint64Range(1, 9).Draw(t, "span")
		}
		switch rapid.IntRange(0, 5).Draw(t, "timeout kind") {
		case 0:
			bc.ExecutionTimeout = 0
		case 1:
			bc.ExecutionTimeout = math.MaxUint64 - rapid.Uint64Range(0, 200).Draw(t, "huge timeout")
		default:
			bc.ExecutionTimeout = rapid.Uint64Range(1, 50).Draw(t, "timeout")
		}
		earliest := next + ek.HeadsUp + 1
		if last.BatchSpan > ek.HeadsUp {
			earliest = next + last.BatchSpan + 1
		}
		if earliest < last.StartBlockNumber {
			earliest = last.StartBlockNumber // ascending start blocks are the precondition
		}
		if last.BatchSpan == 0 {
			bc.StartBatchIndex = last.StartBatchIndex
			bc.StartBlockNumber = earliest + rapid.Uint64Range(0, 10).Draw(t, "later")
			if rapid.IntRange(0, 7).Draw(t, "far start") == 0 {
				bc.StartBlockNumber = math.MaxUint64 - rapid.Uint64Range(0, 100).Draw(t, "before the last block")
			}
		} else {
			d := new(big.Int).SetUint64(rapid.Uint64Range(1, 12).Draw(t, "batches"))
			for k := 0; k < 400; k++ { // reach the earliest start
				s := new(big.Int).SetUint64(last.BatchSpan)
				s.Mul(s, d).Add(s, new(big.Int).SetUint64(last.StartBlockNumber))
				if s.Cmp(new(big.Int).SetUint64(earliest)) >= 0 {
					break
				}
				d.Add(d, big.NewInt(1))
			}
			bc.StartBatchIndex = last.StartBatchIndex + d.Uint64()
			bc.StartBlockNumber = last.StartBlockNumber + last.BatchSpan*d.Uint64()
			if bc.StartBlockNumber < last.StartBlockNumber {
				continue // wrapped around
			}
		}
		if rapid.IntRange(0, 11).Draw(t, "spoil") == 0 {
			bc.StartBatchIndex += rapid.Uint64Range(0, 2).Draw(t, "batch gap")
			bc.StartBlockNumber += rapid.Uint64Range(0, 2).Draw(t, "block gap")
		}
		k := rapid.IntRange(0, 5).Draw(t, "keypers")
		off := rapid.IntRange(0, 3).Draw(t, "first keyper")
		for j := 0; j < k; j++ {
			bc.Keypers = append(bc.Keypers, addr((off+j)%7))
		}
		bc.Threshold = rapid.Uint64Range(0, uint64(k)).Draw(t, "threshold")
		tried++
		if bc.StartBlockNumber < last.StartBlockNumber {
			continue
		}
		if err := w.Schedule(bc); err != nil {
			continue
		}
		admitted++
		last = bc
	}
	w.Mine(1)
	return tried, admitted
}

func u64(x interface{}) uint64 { return x.(uint64) }

func TestArithmetic(t *testing.T) {
	vh.Check(t, "at least two configs of which one is active, both asked about", vh.N(2160, 21600), func(t *rapid.T, c *vh.C) {
		w := ek.NewWorld()
		tried, admitted := genConfigs(t, w)
		head := w.Head()
		caller := w.Caller(key)
		defer caller.Ethclient.Close()
		follow := rapid.Uint64Range(0, 2).Draw(t, "follow distance")
		m, err := observe.NewMainChain(follow).SyncToHead(context.Background(), caller)
		vh.Harness(err, "sync")
		at := head - follow
		num := w.NumConfigs(at)
		if uint64(len(m.BatchConfigs)) != num {
			t.Fatalf("%d configs known at block %d, the contract has %d", len(m.BatchConfigs), at, num)
		}
		view := func(method string, args ...interface{}) ([]interface{}, bool) {
			out, err := w.View(at, w.Config, ek.ConfigABI, method, args...)
			return out, err == nil
		}

		// the interesting blocks and batches
		batches, blocks := map[uint64]bool{0: true, 1: true, math.MaxUint64: true}, map[uint64]bool{0: true, 1: true, head: true, math.MaxUint64: true}
		active := 0
		for _, bc := range m.BatchConfigs {
			if bc.BatchSpan > 0 {
				active++
			}
			for d := uint64(0); d < 3; d++ {
				batches[bc.StartBatchIndex+d], batches[bc.StartBatchIndex-d] = true, true
				blocks[bc.StartBlockNumber+d], blocks[bc.StartBlockNumber-d] = true, true
				blocks[bc.StartBlockNumber+bc.BatchSpan-d], blocks[bc.StartBlockNumber+2*bc.BatchSpan-d] = true, true
			}
			if bc.BatchSpan > 0 {
				b := rapid.Uint64Range(0, 30).Draw(t, "batches into the config")
				batches[bc.StartBatchIndex+b] = true
				blocks[bc.StartBlockNumber+b*bc.BatchSpan] = true
				blocks[bc.StartBlockNumber+rapid.Uint64Range(0, 300).Draw(t, "blocks into the config")] = true
			}
		}
		batches[rapid.Uint64().Draw(t, "any batch")] = true
		blocks[rapid.Uint64().Draw(t, "any block")] = true

		c.Case(len(m.BatchConfigs) > 2 && active > 0, "%d of %d configs admitted: %s", admitted, tried, describe(m.BatchConfigs))
		if active > 1 {
			c.Class("several active configs")
		}

		starts := func() []uint64 {
			var r []uint64
			for _, bc := range m.BatchConfigs {
				r = append(r, bc.StartBlockNumber)
			}
			return r
		}()
		if !sort.SliceIsSorted(starts, func(i, j int) bool { return starts[i] < starts[j] }) {
			vh.Harness(fmt.Errorf("start blocks %v", starts), "generator")
		}

		for i, bc := range m.BatchConfigs {
			bc := bc
			out, ok := view("configNumKeypers", uint64(i))
			if !ok || u64(out[0]) != uint64(len(bc.Keypers)) {
				t.Fatalf("config %d has %d keypers, the contract says %v", i, len(bc.Keypers), out)
			}
			for k := range bc.Keypers {
				out, _ := view("configKeypers", uint64(i), uint64(k))
				a := out[0].(common.Address)
				if idx, isK := bc.KeyperIndex(a); !isK || idx != uint64(k) || !bc.IsKeyper(a) {
					t.Fatalf("keyper %d of config %d is %s, found as %d, %v", k, i, a.Hex(), idx, isK)
				}
			}
			if bc.IsKeyper(addr(99)) {
				t.Fatalf("stranger is keyper of config %d", i)
			}
			for name, have := range map[string]uint64{"configStartBatchIndex": bc.StartBatchIndex, "configStartBlockNumber": bc.StartBlockNumber,
				"configBatchSpan": bc.BatchSpan, "configThreshold": bc.Threshold, "configExecutionTimeout": bc.ExecutionTimeout} {
				if out, ok := view(name, uint64(i)); !ok || u64(out[0]) != have {
					t.Fatalf("%s of config %d is %d, the contract says %v", name, i, have, out)
				}
			}
			if out, ok := view("batchingActive", uint64(i)); !ok || out[0].(bool) != bc.IsActive() {
				t.Fatalf("config %d is active: %v, the contract says %v", i, bc.IsActive(), out)
			}
		}

		// batches
		for b := range batches {
			out, ok := view("configIndexForBatchIndex", b)
			if !ok {
				vh.Harness(fmt.Errorf("batch %d", b), "configIndexForBatchIndex")
			}
			want := u64(out[0])
			isActive, _ := view("batchingActive", want)
			idx, ok := m.ConfigIndexForBatchIndex(b)
			bc, ok2 := m.ConfigForBatchIndex(b)
			if ok != isActive[0].(bool) || ok2 != ok {
				t.Fatalf("batch %d: active config known: %v %v, the contract says config %d, active %v; %s", b, ok, ok2, want, isActive, describe(m.BatchConfigs))
			}
			if !ok {
				continue
			}
			if uint64(idx) != want || bc.StartBatchIndex != m.BatchConfigs[want].StartBatchIndex || bc.StartBlockNumber != m.BatchConfigs[want].StartBlockNumber {
				t.Fatalf("batch %d: config %d, the contract says %d; %s", b, idx, want, describe(m.BatchConfigs))
			}
			var end, start uint64
			vh.NoPanic(t, fmt.Sprintf("BatchEndBlock(%d)", b), func() { start, end = bc.BatchStartBlock(b), bc.BatchEndBlock(b) })
			bounds, ok := view("batchBoundaryBlocks", want, b)
			if !ok {
				c.Class("boundaries beyond 2^64")
				continue
			}
			if end != u64(bounds[1]) || start != end-bc.BatchSpan {
				t.Fatalf("batch %d is blocks [%d, %d), the contract says it closes at %d; %s", b, start, end, bounds[1], describe(m.BatchConfigs))
			}
			// the contract opens submission one span early, except for the first batch of a config
			early := bc.BatchSpan
			if b == bc.StartBatchIndex {
				early = 0
			}
			if u64(bounds[0]) != start-early {
				t.Fatalf("batch %d starts at %d, submission opens at %d", b, start, bounds[0])
			}
			if u64(bounds[2]) != end+bc.ExecutionTimeout {
				t.Fatalf("batch %d times out at %d, the contract says %d", b, end+bc.ExecutionTimeout, bounds[2])
			}
			if bc.BatchIndex(start) != b || bc.BatchIndex(end-1) != b || (end != 0 && bc.BatchIndex(end) != b+1) {
				t.Fatalf("batch %d is [%d, %d), but those blocks belong to %d, %d and %d", b, start, end, bc.BatchIndex(start), bc.BatchIndex(end-1), bc.BatchIndex(end))
			}
			// the batch after it starts where it ends, also across configs
			if next, ok := m.ConfigForBatchIndex(b + 1); ok && b+1 != 0 {
				if s := next.BatchStartBlock(b + 1); s != end && adjacent(m.BatchConfigs, int(want)) {
					t.Fatalf("batch %d ends at %d, batch %d starts at %d; %s", b, end, b+1, s, describe(m.BatchConfigs))
				}
			}
		}

		// blocks
		for blk := range blocks {
			want := -1
			for i, s := range starts {
				if s <= blk {
					want = i
				}
			}
			i := m.ActiveConfigIndex(blk)
			bc := m.ActiveConfig(blk)
			if i != want || bc.StartBlockNumber != m.BatchConfigs[want].StartBlockNumber || bc.BatchSpan != m.BatchConfigs[want].BatchSpan {
				t.Fatalf("block %d: config %d is active, expected %d; %s", blk, i, want, describe(m.BatchConfigs))
			}
			list, err := caller.ConfigContract.CurrentAndFutureConfigs(opts(at), blk)
			if err != nil || len(list) != len(starts)-want {
				t.Fatalf("block %d: %d current and future configs, expected %d: %v", blk, len(list), len(starts)-want, err)
			}
			for k := range list {
				if list[k].StartBlockNumber != m.BatchConfigs[want+k].StartBlockNumber || list[k].StartBatchIndex != m.BatchConfigs[want+k].StartBatchIndex ||
					list[k].BatchSpan != m.BatchConfigs[want+k].BatchSpan {
					t.Fatalf("block %d: current and future config %d is %s", blk, k, describe(list[k:k+1]))
				}
			}
			b := bc.BatchIndex(blk)
			next, err := caller.ConfigContract.NextBatchIndex(blk)
			if err != nil {
				t.Fatalf("next batch after block %d: %v", blk, err)
			}
			// the contract may have got further configs since block `at`
			later := w.NumConfigs(head) != num
			if !bc.IsActive() {
				if b != bc.StartBatchIndex {
					t.Fatalf("block %d: batch %d in an inactive config starting with %d", blk, b, bc.StartBatchIndex)
				}
				if !later && next != bc.StartBatchIndex {
					t.Fatalf("block %d: next batch %d, the inactive config says %d", blk, next, bc.StartBatchIndex)
				}
				continue
			}
			c.Class("block in an active config")
			if !later && next != b+1 {
				t.Fatalf("block %d is in batch %d, but the next one is %d", blk, b, next)
			}
			bounds, ok := view("batchBoundaryBlocks", uint64(want), b)
			if !ok {
				continue
			}
			if end := u64(bounds[1]); blk >= end || blk < end-bc.BatchSpan {
				t.Fatalf("block %d is said to be in batch %d, which the contract has as [%d, %d); %s", blk, b, end-bc.BatchSpan, end, describe(m.BatchConfigs))
			}
			if out, ok := view("configIndexForBatchIndex", b); !ok || u64(out[0]) != uint64(want) {
				t.Fatalf("block %d: batch %d of config %d belongs to config %v in the contract; %s", blk, b, want, out, describe(m.BatchConfigs))
			}
		}

		// who is keyper now or later
		cur := at
		curIdx := -1
		for i, s := range starts {
			if s <= cur {
				curIdx = i
			}
		}
		if got := m.CurrentConfig(); got.StartBlockNumber != m.BatchConfigs[curIdx].StartBlockNumber || len(m.ActiveConfigs()) != len(starts)-curIdx {
			t.Fatalf("current config at %d: %s", cur, describe([]contract.BatchConfig{got}))
		}
		for k := 0; k < 8; k++ {
			want := false
			for _, bc := range m.BatchConfigs[curIdx:] {
				for _, a := range bc.Keypers {
					want = want || a == addr(k)
				}
			}
			if m.IsActiveKeyper(addr(k)) != want {
				t.Fatalf("%d is active keyper: %v, expected %v", k, !want, want)
			}
		}
	})
}

func opts(b uint64) *bind.CallOpts { return &bind.CallOpts{BlockNumber: new(big.Int).SetUint64(b)} }

// adjacent tells whether the config after i follows without a break in which no config is active.
func adjacent(l []contract.BatchConfig, i int) bool {
	return i+1 >= len(l) || l[i+1].BatchSpan > 0
}

func describe(l []contract.BatchConfig) string {
	s := ""
	for i, bc := range l {
		s += fmt.Sprintf(" %d:(batch %d, block %d, span %d, timeout %d, %d of %d)", i, bc.StartBatchIndex, bc.StartBlockNumber, bc.BatchSpan, bc.ExecutionTimeout, bc.Threshold, len(bc.Keypers))
	}
	return s
}
