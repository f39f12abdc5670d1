package c30

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/mint/ek"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type view struct {
	m    *observe.MainChain
	dump string
}

func dump(m *observe.MainChain) string {
	b, err := json.Marshal(m)
	vh.Harness(err, "dump")
	return string(b)
}

// deposits reads an account's deposit from the contract.
func deposit(o *ek.Ops, at uint64, a common.Address) observe.Deposit {
	d := observe.Deposit{Account: a}
	get := func(m string) interface{} {
		out, err := o.View(at, o.Deposit, ek.DepositABI, m, a)
		vh.Harness(err, m)
		return out[0]
	}
	d.Amount = get("getDepositAmount").(*big.Int)
	d.WithdrawalDelayBlocks = get("getWithdrawalDelayBlocks").(uint64)
	d.WithdrawalRequestedBlock = get("getWithdrawalRequestedBlock").(uint64)
	d.Slashed = get("isSlashed").(bool)
	return d
}

// compare checks a main chain object against the contracts at its block.
func compare(t *rapid.T, o *ek.Ops, reader *contract.Caller, m *observe.MainChain, maxCipher uint64) {
	at := m.CurrentBlock
	// configs
	num := o.NumConfigs(at)
	if uint64(len(m.BatchConfigs)) != num {
		t.Fatalf("at block %d: %d configs, the contract has %d", at, len(m.BatchConfigs), num)
	}
	opts := &bind.CallOpts{BlockNumber: new(big.Int).SetUint64(at)}
	for i := uint64(0); i < num; i++ {
		want := rawConfig(o, at, i)
		if !sameConfig(m.BatchConfigs[i], want) {
			t.Fatalf("at block %d: config %d is %+v, the contract has %+v", at, i, m.BatchConfigs[i], want)
		}
	}
	_ = opts
	_ = reader
	// batches
	seen := map[uint64]bool{}
	for _, a := range o.Added {
		if a.Block <= at {
			seen[a.Batch] = true
		}
	}
	if len(seen) != len(m.Batches) {
		t.Fatalf("at block %d: %d batches with transactions, expected %d", at, len(m.Batches), len(seen))
	}
	for b := range seen {
		mb, ok := m.Batches[b]
		if !ok || mb.BatchIndex != b {
			t.Fatalf("at block %d: batch %d missing: %+v", at, b, mb)
		}
		for typ, have := range [][][]byte{mb.EncryptedTransactions, mb.PlainTransactions} {
			want := o.BatchTxs(b, uint8(typ), at)
			if len(have) != len(want) {
				t.Fatalf("at block %d: batch %d type %d has %d transactions, expected %d", at, b, typ, len(have), len(want))
			}
			for i := range want {
				if !bytes.Equal(have[i], want[i]) {
					t.Fatalf("at block %d: batch %d type %d transaction %d is %x, expected %x", at, b, typ, i, have[i], want[i])
				}
			}
			h := [2]common.Hash{mb.EncryptedBatchHash, mb.PlainBatchHash}[typ]
			if c := o.BatchHash(at, b, uint8(typ)); h != c {
				t.Fatalf("at block %d: batch %d type %d has hash %s, the contract says %s", at, b, typ, h.Hex(), c.Hex())
			}
		}
	}
	// executions
	half := o.HalfSteps(at)
	if m.NumExecutionHalfSteps != half {
		t.Fatalf("at block %d: %d half steps, the contract has %d", at, m.NumExecutionHalfSteps, half)
	}
	n := 0
	for h := uint64(0); h < half+4 || h <= maxCipher; h += 2 {
		out, err := o.View(at, o.Executor, ek.ExecutorABI, "cipherExecutionReceipts", h)
		vh.Harness(err, "receipt")
		rec, ok := m.CipherExecutionReceipts[h]
		executed := out[0].(bool)
		if ok != executed {
			t.Fatalf("at block %d: half step %d executed: %v, receipt known: %v %+v", at, h, executed, ok, rec)
		}
		if !ok {
			continue
		}
		n++
		if !rec.Executed || rec.Executor != out[1].(common.Address) || rec.HalfStep != h || rec.CipherBatchHash != out[3].([32]byte) || rec.BatchHash != out[4].([32]byte) {
			t.Fatalf("at block %d: receipt of half step %d is %+v, the contract has %v", at, h, rec, out)
		}
	}
	if n != len(m.CipherExecutionReceipts) {
		t.Fatalf("at block %d: %d receipts, expected %d", at, len(m.CipherExecutionReceipts), n)
	}
	// deposits
	accounts := map[common.Address]bool{}
	topic := ek.DepositABI.Events["DepositChanged"].ID
	accused := map[uint64]uint64{}
	for b := uint64(0); b <= at; b++ {
		for _, l := range o.Logs(b) {
			if l.Address == o.Deposit && l.Topics[0] == topic {
				accounts[common.BytesToAddress(l.Topics[1][:])] = true
			}
			if l.Address == o.Slasher && l.Topics[0] == ek.SlasherABI.Events["Accused"].ID {
				accused[new(big.Int).SetBytes(l.Topics[1][:]).Uint64()] = b
			}
		}
	}
	for a := range accounts {
		want := deposit(o, at, a)
		have, ok := m.Deposits[a]
		if !ok || have.Account != a || have.Amount.Cmp(want.Amount) != 0 || have.Slashed != want.Slashed ||
			have.WithdrawalDelayBlocks != want.WithdrawalDelayBlocks || have.WithdrawalRequestedBlock != want.WithdrawalRequestedBlock {
			t.Fatalf("at block %d: deposit of %s is %+v, the contract has %+v", at, a.Hex(), have, want)
		}
	}
	if len(m.Deposits) != len(accounts) {
		t.Fatalf("at block %d: %d deposits, expected %d", at, len(m.Deposits), len(accounts))
	}
	// accusations
	if len(m.Accusations) != len(accused) {
		t.Fatalf("at block %d: %d accusations, expected %d", at, len(m.Accusations), len(accused))
	}
	for h, blk := range accused {
		out, err := o.View(at, o.Slasher, ek.SlasherABI, "accusations", h)
		vh.Harness(err, "accusations")
		have, ok := m.Accusations[h]
		if !ok || have.HalfStep != h || have.Appealed != out[1].(bool) || have.Executor != out[3].(common.Address) || have.BlockNumber != blk || have.BlockNumber != out[5].(uint64) {
			t.Fatalf("at block %d: accusation for half step %d is %+v, the contract has %v", at, h, have, out)
		}
	}
}

func rawConfig(o *ek.Ops, at, i uint64) contract.BatchConfig {
	get := func(m string, args ...interface{}) interface{} {
		out, err := o.View(at, o.Config, ek.ConfigABI, m, append([]interface{}{i}, args...)...)
		vh.Harness(err, m)
		return out[0]
	}
	bc := contract.BatchConfig{
		StartBatchIndex: get("configStartBatchIndex").(uint64), StartBlockNumber: get("configStartBlockNumber").(uint64),
		Threshold: get("configThreshold").(uint64), BatchSpan: get("configBatchSpan").(uint64), BatchSizeLimit: get("configBatchSizeLimit").(uint64),
		TransactionSizeLimit: get("configTransactionSizeLimit").(uint64), TransactionGasLimit: get("configTransactionGasLimit").(uint64),
		FeeReceiver: get("configFeeReceiver").(common.Address), TargetAddress: get("configTargetAddress").(common.Address),
		TargetFunctionSelector: get("configTargetFunctionSelector").([4]byte), ExecutionTimeout: get("configExecutionTimeout").(uint64),
	}
	for k := uint64(0); k < get("configNumKeypers").(uint64); k++ {
		bc.Keypers = append(bc.Keypers, get("configKeypers", k).(common.Address))
	}
	return bc
}

func sameConfig(a, b contract.BatchConfig) bool {
	if len(a.Keypers) == 0 && len(b.Keypers) == 0 {
		a.Keypers, b.Keypers = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

func TestSync(t *testing.T) {
	vh.Check(t, "executed or skipped half steps, transactions and at least three syncs", vh.N(1100, 11000), func(t *rapid.T, c *vh.C) {
		keys := ek.Keys(rapid.IntRange(1, 3).Draw(t, "accounts"))
		o := ek.NewOps(keys)
		follow := rapid.Uint64Range(0, 5).Draw(t, "follow distance")
		caller := o.Caller(keys[0])
		defer caller.Ethclient.Close()
		var history []string
		var views []view
		cur := observe.NewMainChain(follow)
		syncs, failures, regressions := 0, 0, 0
		maxCipher := uint64(0)
		for _, k := range keys {
			vh.Harness(o.GiveTokens(ek.Addr(k), 1000), "tokens")
		}

		// without removes the effects of what cannot be compared: heights before the contracts exist
		sync := func(visible uint64) {
			o.Visible = &visible
			defer func() { o.Visible = nil }()
			if visible < follow+1 {
				return // the contracts do not exist yet there
			}
			var failed bool
			if rapid.IntRange(0, 5).Draw(t, "request fails") == 0 {
				left := rapid.IntRange(0, 14).Draw(t, "requests before")
				o.Fault = func(string) error {
					left--
					if left == -1 {
						failed = true
						return errors.New("node is busy")
					}
					return nil
				}
			}
			before := dump(cur)
			nodeSynced := rapid.IntRange(0, 7).Draw(t, "node syncing") > 0
			o.Syncing = func() interface{} {
				if nodeSynced {
					return false
				}
				return map[string]interface{}{"startingBlock": "0x0", "currentBlock": "0x1", "highestBlock": "0x500", "pulledStates": "0x0", "knownStates": "0x0"}
			}
			var next *observe.MainChain
			var err error
			vh.NoPanic(t, "SyncToHead", func() { next, err = cur.SyncToHead(context.Background(), caller) })
			o.Fault = nil
			if d := dump(cur); d != before {
				t.Fatalf("syncing to %d changed the object synced from\n%s\n%s", visible, before, d)
			}
			if failed {
				failures++
				history = append(history, fmt.Sprintf("failing sync to %d", visible))
				if err == nil {
					t.Fatalf("a failing request was ignored when syncing to %d", visible)
				}
				return
			}
			if err != nil {
				t.Fatalf("sync to head %d from %d: %v\n%s", visible, cur.CurrentBlock, err, strings.Join(history, "; "))
			}
			target := visible - follow
			if target < cur.CurrentBlock {
				regressions++
				if next.CurrentBlock < cur.CurrentBlock {
					t.Fatalf("head %d: synced back from block %d to %d", visible, cur.CurrentBlock, next.CurrentBlock)
				}
				target = cur.CurrentBlock
			}
			if next.CurrentBlock != target || next.FollowDistance != follow {
				// a block equal to the one known before counts as nothing new
				if !(visible == cur.CurrentBlock && next.CurrentBlock == cur.CurrentBlock) {
					t.Fatalf("head %d, follow distance %d: synced from %d to %d", visible, follow, cur.CurrentBlock, next.CurrentBlock)
				}
			}
			if next.CurrentBlock > cur.CurrentBlock && next.IsSynced() != nodeSynced {
				t.Fatalf("main chain object is synced: %v, the node: %v", next.IsSynced(), nodeSynced)
			}
			syncs++
			history = append(history, fmt.Sprintf("sync to %d", next.CurrentBlock))
			cur = next
			compare(t, o, caller, cur, maxCipher)
			views = append(views, view{cur, dump(cur)})
		}

		if rapid.IntRange(0, 5).Draw(t, "start with a config") > 0 {
			vh.Harness(o.ScheduleRandom(t), "schedule")
			o.MineTo(o.Configs[1].StartBlockNumber - 1)
			history = append(history, fmt.Sprintf("head %d", o.Head()))
		}
		n := rapid.IntRange(8, 45).Draw(t, "operations")
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 22).Draw(t, "operation")
			k := rapid.IntRange(0, len(keys)-1).Draw(t, "account")
			me := ek.Addr(keys[k])
			var err error
			name := ""
			switch op {
			case 0, 1:
				name = "schedule"
				err = o.ScheduleRandom(t)
			case 2:
				name = "unschedule"
				o.UnscheduleRandom(t)
			case 3, 4, 5, 6:
				name = "add"
				b, ok := o.OpenBatch()
				if !ok {
					o.Mine(rapid.IntRange(1, 12).Draw(t, "blocks"))
					break
				}
				if rapid.IntRange(0, 5).Draw(t, "next batch") == 0 {
					b++
				}
				for j := rapid.IntRange(1, 3).Draw(t, "transactions"); j > 0; j-- {
					typ, tx := uint8(rapid.IntRange(0, 1).Draw(t, "type")), rapid.SliceOfN(rapid.Byte(), 1, 70).Draw(t, "tx")
					if had := o.BatchTxs(b, uint8(rapid.IntRange(0, 1).Draw(t, "type of former")), o.Head()+1); len(had) > 0 && rapid.IntRange(0, 3).Draw(t, "repeat") == 0 {
						tx = had[rapid.IntRange(0, len(had)-1).Draw(t, "former")]
						c.Class("repeated transaction")
					}
					err = o.Add(me, b, typ, tx)
				}
			case 7, 8, 9, 10:
				name = "execute"
				if bc := o.ConfigFor(o.HalfStepsNow() / 2); bc.BatchSpan > 0 && rapid.IntRange(0, 3).Draw(t, "wait for the end") > 0 {
					if end := bc.BatchEndBlock(o.HalfStepsNow() / 2); end < o.Head()+40 {
						o.MineTo(end - 1)
					}
				}
				for j := rapid.IntRange(1, 4).Draw(t, "half steps"); j > 0; j-- {
					err = o.ExecuteNext(t, func(uint64) [][]byte {
						return rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 5), 0, 3).Draw(t, "executed")
					})
				}
			case 11:
				name = "skip"
				err = o.SkipNext()
			case 12:
				name = "skip many"
				err = o.SkipMany(rapid.Uint64Range(1, 5).Draw(t, "batches"))
			case 13:
				name = "set half steps"
				err = o.SetHalfSteps(o.HalfStepsNow() + rapid.Uint64Range(0, 5).Draw(t, "half steps ahead"))
			case 14:
				name = "deposit"
				err = o.MakeDeposit(me, int64(rapid.IntRange(0, 50).Draw(t, "amount")), rapid.Uint64Range(0, 4).Draw(t, "delay"))
			case 15:
				name = "withdraw"
				err = o.Exec(me, o.Deposit, ek.DepositABI, "requestWithdrawal")
				if err != nil || rapid.Bool().Draw(t, "at once") {
					err = o.Exec(me, o.Deposit, ek.DepositABI, "withdraw", me)
				}
			case 16, 17, 18:
				name = "accuse"
				h := uint64(0)
				if len(o.Execs) > 0 {
					var hs []uint64
					for x := range o.Execs {
						hs = append(hs, x)
					}
					sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
					h = hs[rapid.IntRange(0, len(hs)-1).Draw(t, "executed half step")]
				}
				bc := o.ConfigFor(h / 2)
				if len(bc.Keypers) == 0 {
					break
				}
				j := rapid.IntRange(0, len(bc.Keypers)-1).Draw(t, "accuser")
				err = o.Accuse(bc.Keypers[j], h, uint64(j))
				switch rapid.IntRange(0, 2).Draw(t, "then") {
				case 0:
					if rapid.Bool().Draw(t, "later block") {
						o.Mine(rapid.IntRange(1, 3).Draw(t, "blocks"))
					}
					err = o.Appeal(h, keys)
				case 1:
					o.Mine(rapid.IntRange(ek.AppealBlocks-2, ek.AppealBlocks+2).Draw(t, "blocks"))
					err = o.Slash(h)
				}
			default:
				name = "mine"
				if rapid.IntRange(0, 3).Draw(t, "few") > 0 {
					o.Mine(rapid.IntRange(1, 5).Draw(t, "blocks"))
				} else {
					o.Mine(rapid.IntRange(10, 30).Draw(t, "blocks"))
				}
			}
			if h := o.HalfStepsNow(); h > maxCipher {
				maxCipher = h
			}
			e := ""
			if err != nil {
				e = " refused"
			}
			history = append(history, name+e)
			if rapid.IntRange(0, 2).Draw(t, "mine") == 0 {
				o.Mine(1)
			}
			if rapid.IntRange(0, 3).Draw(t, "sync") == 0 {
				head := o.Head()
				switch rapid.IntRange(0, 7).Draw(t, "head") {
				case 0: // an older head than before
					d := rapid.Uint64Range(1, 8).Draw(t, "behind")
					if d < head {
						head -= d
					}
				case 1: // catch up a part only
					if lo := cur.CurrentBlock + follow; lo < head {
						head = rapid.Uint64Range(lo, head).Draw(t, "part")
					}
				}
				sync(head)
			}
		}
		o.Mine(rapid.IntRange(1, 7).Draw(t, "last blocks"))
		head := o.Head()
		sync(head)
		if cur.CurrentBlock != head-follow {
			sync(head)
		}
		// a keyper syncing everything at once sees the same
		fresh, err := observe.NewMainChain(follow).SyncToHead(context.Background(), caller)
		vh.Harness(err, "fresh sync")
		compare(t, o, caller, fresh, maxCipher)
		if cur.CurrentBlock == head-follow && canonical(fresh) != canonical(cur) {
			t.Fatalf("synced step by step and at once differ\n%s\n%s", canonical(cur), canonical(fresh))
		}
		for _, v := range views {
			if d := dump(v.m); d != v.dump {
				t.Fatalf("an object handed out earlier changed\n%s\n%s", v.dump, d)
			}
		}
		txs := len(o.Added)
		c.Case(o.HalfSteps(head) > 0 && txs > 0 && syncs >= 3, "%d syncs, %d failing, %d regressions, %s", syncs, failures, regressions, strings.Join(history, "; "))
		for k, n := range o.Counts {
			if n > 0 && !strings.HasPrefix(k, "refused") {
				c.Class(k)
			}
		}
		if failures > 0 {
			c.Class("failing sync")
		}
		if regressions > 0 {
			c.Class("older head")
		}
	})
}

func canonical(m *observe.MainChain) string {
	x := *m
	x.NodeSyncProgress = nil
	return dump(&x)
}

// TestFollow lets SyncMain follow the announced heads.
func TestFollow(t *testing.T) {
	vh.Check(t, "transactions in several blocks", vh.N(125, 1250), func(t *rapid.T, c *vh.C) {
		keys := ek.Keys(2)
		o := ek.NewOps(keys)
		follow := rapid.Uint64Range(0, 3).Draw(t, "follow distance")
		caller := o.Caller(keys[0])
		defer caller.Ethclient.Close()
		bc := contract.BatchConfig{StartBlockNumber: 24, BatchSpan: 3, BatchSizeLimit: 1000, TransactionSizeLimit: 100, Threshold: 1,
			Keypers: []common.Address{ek.Addr(keys[0])}, ExecutionTimeout: 9}
		vh.Harness(o.Schedule(bc), "schedule")
		o.Configs = append(o.Configs, bc)
		o.MineTo(22)
		ctx, cancel := context.WithCancel(context.Background())
		out := make(chan *observe.MainChain)
		done := make(chan error, 1)
		go func() { done <- observe.SyncMain(ctx, caller, observe.NewMainChain(follow), out) }()
		defer func() {
			cancel()
			for {
				select {
				case <-out:
				case <-done:
					return
				}
			}
		}()
		for o.Subscribers() == 0 {
			time.Sleep(time.Millisecond)
		}
		last := uint64(0)
		blocks := rapid.IntRange(3, 25).Draw(t, "blocks")
		target := o.Head() + uint64(blocks)
		for i := 0; i < blocks; {
			if b, ok := o.OpenBatch(); ok && rapid.Bool().Draw(t, "add") {
				_ = o.Add(ek.Addr(keys[1]), b, uint8(rapid.IntRange(0, 1).Draw(t, "type")), rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "tx"))
			}
			k := rapid.IntRange(1, 3).Draw(t, "mined together")
			o.Mine(k)
			i += k
			target = o.Head()
			if rapid.IntRange(0, 4).Draw(t, "busy") == 0 {
				left := rapid.Int32Range(0, 5).Draw(t, "requests before")
				o.SetFault(func(string) error {
					if atomic.AddInt32(&left, -1) == -1 {
						return errors.New("node is busy")
					}
					return nil
				})
			}
		}
		o.SetFault(nil)
		o.Announce()
		deadline := time.After(20 * time.Second)
		for last != target-follow {
			select {
			case m := <-out:
				if m.CurrentBlock < last || m.CurrentBlock > target-follow {
					t.Fatalf("got block %d after %d, the head is %d", m.CurrentBlock, last, target)
				}
				last = m.CurrentBlock
				compare(t, o, caller, m, 0)
			case <-deadline:
				t.Fatalf("never synced to %d, only %d", target-follow, last)
			}
		}
		c.Case(len(o.Added) > 1, "%d transactions, %d blocks, follow distance %d", len(o.Added), blocks, follow)
	})
}
