package c34

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/cmd"
	"github.com/shutter-network/shutter/shuttermint/cmd/deploy"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"
	"verif/mint/ek"
	"verif/vh"
)

// TestMain also lets the test binary act as the shuttermint program.
func TestMain(m *testing.M) {
	if os.Getenv("C34_PROGRAM") != "" {
		cmd.Execute()
		return
	}
	vh.Main(m)
}

func shuttermint(dir string, args ...string) (status int, output, stdout string) {
	exe, err := os.Executable()
	vh.Harness(err, "executable")
	ctx, stop := context.WithTimeout(context.Background(), 120*time.Second)
	defer stop()
	c := exec.CommandContext(ctx, exe, args...)
	c.Dir = dir
	c.Env = []string{"C34_PROGRAM=1", "HOME=" + dir, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + dir}
	var out, both bytes.Buffer
	c.Stdout, c.Stderr = &out, &both
	err = c.Run()
	if ctx.Err() != nil {
		return -1, both.String() + out.String() + "\n(timeout)", out.String()
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode(), both.String() + out.String(), out.String()
	}
	vh.Harness(err, "run "+strings.Join(args, " "))
	return 0, both.String() + out.String(), out.String()
}

func crashed(output string) bool {
	return strings.Contains(output, "panic:") || strings.Contains(output, "fatal error:") || strings.Contains(output, "(timeout)")
}

var keys = ek.Keys(3)

func addresses(t *rapid.T, min, max int) []common.Address {
	var r []common.Address
	seen := map[common.Address]bool{}
	for n := rapid.IntRange(min, max).Draw(t, "keypers"); len(r) < n; {
		a := common.BytesToAddress([]byte{byte(vh.Pick(12).Draw(t, "keyper") + 1)})
		if len(r) >= 8 || vh.Pct(30).Draw(t, "any") {
			a = common.BytesToAddress(rapid.SliceOfN(rapid.Byte(), 20, 20).Draw(t, "address"))
		}
		if !seen[a] {
			seen[a] = true
			r = append(r, a)
		}
	}
	return r
}

func small() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.Uint64Range(0, 3), vh.U64())
}

// batchConfig is any config.
func batchConfig(t *rapid.T) contract.BatchConfig {
	bc := contract.BatchConfig{
		StartBatchIndex: small().Draw(t, "batch"), StartBlockNumber: small().Draw(t, "block"), BatchSpan: small().Draw(t, "span"),
		BatchSizeLimit: small().Draw(t, "size"), TransactionSizeLimit: small().Draw(t, "tx size"), TransactionGasLimit: small().Draw(t, "gas"),
		FeeReceiver: common.BytesToAddress([]byte{byte(vh.Pick(3).Draw(t, "fees"))}), TargetAddress: common.BytesToAddress([]byte{byte(vh.Pick(3).Draw(t, "target"))}),
		TargetFunctionSelector: [4]byte{1, 0, 0, byte(vh.Pick(3).Draw(t, "selector"))}, ExecutionTimeout: small().Draw(t, "timeout"),
		Keypers: addresses(t, 1, 7),
	}
	bc.Threshold = rapid.Uint64Range(1, uint64(len(bc.Keypers))).Draw(t, "threshold")
	return bc
}

// world returns a chain whose config contract is owned by keys[0].
func world() *ek.World {
	w := ek.NewWorld()
	owner := ek.Addr(keys[0])
	vh.Harness(w.Exec(ek.Owner, w.Config, ek.ConfigABI, "transferOwnership", owner), "owner")
	for _, k := range keys {
		w.Fund(ek.Addr(k), new(big.Int).Exp(big.NewInt(10), big.NewInt(30), nil))
	}
	w.Mine(1)
	return w
}

// raw reads a config from the contract; index is -1 for the next one.
func raw(w *ek.World, index int) contract.BatchConfig {
	view := func(method string, args ...interface{}) []interface{} {
		out, err := w.View(w.Head(), w.Config, ek.ConfigABI, method, args...)
		vh.Harness(err, method)
		return out
	}
	get := func(field string) interface{} {
		if index < 0 {
			return view("nextConfig" + field)[0]
		}
		return view("config"+field, uint64(index))[0]
	}
	bc := contract.BatchConfig{
		StartBatchIndex: get("StartBatchIndex").(uint64), StartBlockNumber: get("StartBlockNumber").(uint64), Threshold: get("Threshold").(uint64), BatchSpan: get("BatchSpan").(uint64),
		BatchSizeLimit: get("BatchSizeLimit").(uint64), TransactionSizeLimit: get("TransactionSizeLimit").(uint64), TransactionGasLimit: get("TransactionGasLimit").(uint64),
		FeeReceiver: get("FeeReceiver").(common.Address), TargetAddress: get("TargetAddress").(common.Address), TargetFunctionSelector: get("TargetFunctionSelector").([4]byte),
		ExecutionTimeout: get("ExecutionTimeout").(uint64),
	}
	for i, n := uint64(0), get("NumKeypers").(uint64); i < n; i++ {
		if index < 0 {
			bc.Keypers = append(bc.Keypers, view("nextConfigKeypers", i)[0].(common.Address))
		} else {
			bc.Keypers = append(bc.Keypers, view("configKeypers", uint64(index), i)[0].(common.Address))
		}
	}
	return bc
}

func show(bc contract.BatchConfig) string { return fmt.Sprintf("%+v", bc) }

// put sets the next config directly, possibly with keypers given twice.
func put(w *ek.World, from common.Address, bc contract.BatchConfig) {
	type kv struct {
		m string
		v interface{}
	}
	for _, x := range []kv{
		{"nextConfigSetStartBatchIndex", bc.StartBatchIndex}, {"nextConfigSetStartBlockNumber", bc.StartBlockNumber}, {"nextConfigSetThreshold", bc.Threshold}, {"nextConfigSetBatchSpan", bc.BatchSpan},
		{"nextConfigSetBatchSizeLimit", bc.BatchSizeLimit}, {"nextConfigSetTransactionSizeLimit", bc.TransactionSizeLimit}, {"nextConfigSetTransactionGasLimit", bc.TransactionGasLimit},
		{"nextConfigSetFeeReceiver", bc.FeeReceiver}, {"nextConfigSetTargetAddress", bc.TargetAddress}, {"nextConfigSetTargetFunctionSelector", bc.TargetFunctionSelector},
		{"nextConfigSetExecutionTimeout", bc.ExecutionTimeout}, {"nextConfigRemoveKeypers", ^uint64(0)}, {"nextConfigAddKeypers", bc.Keypers},
	} {
		vh.Harness(w.Exec(from, w.Config, ek.ConfigABI, x.m, x.v), x.m)
	}
}

// schedule schedules a config that follows the last one, as the owner.
func schedule(t *rapid.T, w *ek.World, last contract.BatchConfig) contract.BatchConfig {
	next := w.Head() + 1
	earliest := next + ek.HeadsUp + 1
	if last.BatchSpan > ek.HeadsUp {
		earliest = next + last.BatchSpan + 1
	}
	if earliest < last.StartBlockNumber {
		earliest = last.StartBlockNumber
	}
	bc := batchConfig(t)
	bc.BatchSpan = rapid.SampledFrom([]uint64{0, 1, 2, 3, 7, 19, 20, 21, 40, 41, 64, 100, 1000}).Draw(t, "span")
	if last.BatchSpan == 0 {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex, earliest+rapid.Uint64Range(0, 300).Draw(t, "later")
	} else {
		d := (earliest-last.StartBlockNumber+last.BatchSpan-1)/last.BatchSpan + rapid.Uint64Range(0, 30).Draw(t, "later")
		if d == 0 {
			d = 1
		}
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+d, last.StartBlockNumber+d*last.BatchSpan
	}
	put(w, ek.Addr(keys[0]), bc)
	vh.Harness(w.Exec(ek.Addr(keys[0]), w.Config, ek.ConfigABI, "scheduleNextConfig"), "schedule")
	w.Mine(1)
	return bc
}

// history schedules some configs.
func history(t *rapid.T, w *ek.World) (all []contract.BatchConfig) {
	all = append(all, raw(w, 0))
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "configs"); i < n; i++ {
		all = append(all, schedule(t, w, all[len(all)-1]))
		if vh.Pct(60).Draw(t, "wait") {
			w.Mine(rapid.IntRange(1, 150).Draw(t, "blocks"))
		}
	}
	return all
}

// like changes some of a config's fields to those of another.
func like(t *rapid.T, bc, other contract.BatchConfig) contract.BatchConfig {
	pick := func(name string) bool { return vh.Pct(40).Draw(t, "same "+name) }
	if pick("batch") {
		bc.StartBatchIndex = other.StartBatchIndex
	}
	if pick("block") {
		bc.StartBlockNumber = other.StartBlockNumber
	}
	if pick("span") {
		bc.BatchSpan = other.BatchSpan
	}
	if pick("sizes") {
		bc.BatchSizeLimit, bc.TransactionSizeLimit, bc.TransactionGasLimit = other.BatchSizeLimit, other.TransactionSizeLimit, other.TransactionGasLimit
	}
	if pick("addresses") {
		bc.FeeReceiver, bc.TargetAddress = other.FeeReceiver, other.TargetAddress
	}
	if pick("keypers") && len(other.Keypers) > 0 {
		bc.Keypers = nil
		seen := map[common.Address]bool{}
		for _, a := range other.Keypers {
			if !seen[a] {
				seen[a] = true
				bc.Keypers = append(bc.Keypers, a)
			}
		}
		if vh.Pct(40).Draw(t, "other order") {
			bc.Keypers = rapid.Permutation(bc.Keypers).Draw(t, "permutation")
		}
		if vh.Pct(20).Draw(t, "fewer") && len(bc.Keypers) > 1 {
			bc.Keypers = bc.Keypers[:len(bc.Keypers)-1]
		}
		bc.Threshold = rapid.Uint64Range(1, uint64(len(bc.Keypers))).Draw(t, "threshold")
	}
	return bc
}

// TestSetNext writes configs over whatever the next config is.
func TestSetNext(t *testing.T) {
	vh.Check(t, "the next config isn't empty and differs from the new one in some of its fields only, or a request failed", vh.N(600, 8000), func(t *rapid.T, c *vh.C) {
		w := world()
		w.AutoMine = true
		owner := ek.Addr(keys[0])
		if vh.Pct(40).Draw(t, "history") {
			schedule(t, w, raw(w, 0))
		}
		doubled := false
		var prev contract.BatchConfig
		if vh.Pct(80).Draw(t, "something there") {
			prev = batchConfig(t)
			if vh.Pct(35).Draw(t, "keypers twice") {
				for i, n := 0, rapid.IntRange(1, 3).Draw(t, "how often"); i < n; i++ {
					prev.Keypers = append(prev.Keypers, prev.Keypers[vh.Pick(len(prev.Keypers)).Draw(t, "which")])
				}
				doubled = true
			}
			put(w, owner, prev)
			w.Mine(1)
		}
		bc := like(t, batchConfig(t), prev)
		numConfigs := w.NumConfigs(w.Head())
		scheduled := show(raw(w, int(numConfigs)-1))
		faults, failed := 0, 0
		if vh.Pct(30).Draw(t, "faults") {
			faults = rapid.IntRange(1, 3).Draw(t, "how many")
		}
		ctx := context.Background()
		var log []string
		for attempt := 0; ; attempt++ {
			cl := w.Client()
			if attempt < faults {
				n := rapid.IntRange(1, 60).Draw(t, "failing request")
				k := 0
				cl = w.ClientWith(func(method string, data []byte) error {
					if k++; k == n {
						log = append(log, fmt.Sprintf("%s fails (request %d)", method, n))
						return errors.New("connection lost")
					}
					return nil
				})
			}
			cc, err := contract.NewConfigContract(w.Config, cl)
			vh.Harness(err, "contract")
			batch, err := txbatch.New(ctx, cl, keys[0])
			if err == nil {
				err = cc.SetNextBatchConfig(ctx, batch, bc)
			}
			if err == nil {
				_, err = batch.WaitMined(ctx)
			}
			cl.Close()
			if err == nil {
				break
			}
			if attempt >= faults {
				t.Fatalf("the next config can't be set: %v\nfrom %s\nto %s", err, show(prev), show(bc))
			}
			failed++
		}
		if got := raw(w, -1); show(got) != show(bc) {
			t.Fatalf("the next config in the contract isn't the given one (%d failed attempts: %v)\nbefore %s\ngiven %s\nnow %s", failed, log, show(prev), show(bc), show(got))
		}
		cl := w.Client()
		defer cl.Close()
		cc, err := contract.NewConfigContract(w.Config, cl)
		vh.Harness(err, "contract")
		got, err := cc.GetNextConfig(&bind.CallOpts{})
		if err != nil || show(got) != show(bc) {
			t.Fatalf("the next config is read as %s, %v instead of %s", show(got), err, show(bc))
		}
		if w.NumConfigs(w.Head()) != numConfigs || show(raw(w, int(numConfigs)-1)) != scheduled {
			t.Fatalf("a scheduled config changed")
		}
		if doubled {
			c.Class("keypers given twice before")
		}
		if failed > 0 {
			c.Class("after failures")
		}
		c.Case(prev.Keypers != nil, "from %s to %s, %v", show(prev), show(bc), log)
	})
}

// decode reads a config as printed by the program.
func decode(b []byte) (bc contract.BatchConfig, err error) {
	var m struct {
		StartBatchIndex, StartBlockNumber, Threshold, BatchSpan, BatchSizeLimit, TransactionSizeLimit, TransactionGasLimit, ExecutionTimeout *uint64
		FeeReceiver, TargetAddress                                                                                                           *string
		Keypers                                                                                                                              []string
		TargetFunctionSelector                                                                                                               *string
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.DisallowUnknownFields()
	if err := d.Decode(&m); err != nil {
		return bc, err
	}
	if m.StartBatchIndex == nil || m.StartBlockNumber == nil || m.Threshold == nil || m.BatchSpan == nil || m.BatchSizeLimit == nil || m.TransactionSizeLimit == nil || m.TransactionGasLimit == nil ||
		m.ExecutionTimeout == nil || m.FeeReceiver == nil || m.TargetAddress == nil || m.TargetFunctionSelector == nil {
		return bc, errors.New("a field is missing")
	}
	bc = contract.BatchConfig{
		StartBatchIndex: *m.StartBatchIndex, StartBlockNumber: *m.StartBlockNumber, Threshold: *m.Threshold, BatchSpan: *m.BatchSpan, BatchSizeLimit: *m.BatchSizeLimit,
		TransactionSizeLimit: *m.TransactionSizeLimit, TransactionGasLimit: *m.TransactionGasLimit, ExecutionTimeout: *m.ExecutionTimeout,
		FeeReceiver: common.HexToAddress(*m.FeeReceiver), TargetAddress: common.HexToAddress(*m.TargetAddress),
	}
	sel, err := hex.DecodeString(strings.TrimPrefix(*m.TargetFunctionSelector, "0x"))
	if err != nil || len(sel) != 4 {
		return bc, fmt.Errorf("selector %s", *m.TargetFunctionSelector)
	}
	copy(bc.TargetFunctionSelector[:], sel)
	for _, k := range m.Keypers {
		bc.Keypers = append(bc.Keypers, common.HexToAddress(k))
	}
	return bc, nil
}

// encode writes a config file.
func encode(bc contract.BatchConfig) []byte {
	var ks []string
	for _, k := range bc.Keypers {
		ks = append(ks, k.Hex())
	}
	b, err := json.Marshal(map[string]interface{}{
		"StartBatchIndex": bc.StartBatchIndex, "StartBlockNumber": bc.StartBlockNumber, "Threshold": bc.Threshold, "BatchSpan": bc.BatchSpan, "BatchSizeLimit": bc.BatchSizeLimit,
		"TransactionSizeLimit": bc.TransactionSizeLimit, "TransactionGasLimit": bc.TransactionGasLimit, "ExecutionTimeout": bc.ExecutionTimeout, "FeeReceiver": bc.FeeReceiver.Hex(),
		"TargetAddress": bc.TargetAddress.Hex(), "TargetFunctionSelector": "0x" + hex.EncodeToString(bc.TargetFunctionSelector[:]), "Keypers": ks,
	})
	vh.Harness(err, "own JSON")
	return b
}

// TestProgram lets the program set, schedule and query configs.
func TestProgram(t *testing.T) {
	vh.Check(t, "the program chose the start of a config", vh.N(160, 2500), func(t *rapid.T, c *vh.C) {
		w := world()
		w.AutoMine = true
		all := history(t, w)
		if vh.Pct(40).Draw(t, "something set") {
			put(w, ek.Addr(keys[0]), batchConfig(t))
			w.Mine(1)
		}
		ws, stop := w.Serve()
		defer stop()
		url := ws
		if vh.Pct(50).Draw(t, "http") {
			url = "http" + strings.TrimPrefix(ws, "ws")
		}
		dir, err := os.MkdirTemp("", "c34-")
		vh.Harness(err, "scratch")
		defer os.RemoveAll(dir)
		vh.Harness((&deploy.Contracts{ConfigContract: w.Config}).SaveJSON(filepath.Join(dir, "contracts.json")), "contracts")
		gwei := ""
		keyArg := func(k *ecdsa.PrivateKey) string {
			s := hex.EncodeToString(crypto.FromECDSA(k))
			if vh.Pct(30).Draw(t, "0x") {
				s = "0x" + s
			}
			return s
		}
		run := func(args ...string) (int, string, string) {
			args = append([]string{"config"}, append(args, "-e", url, "-c", "contracts.json")...)
			if gwei != "" {
				args = append(args, "--gas-price", gwei)
			}
			s, out, std := shuttermint(dir, args...)
			if crashed(out) {
				t.Fatalf("the program crashed: %v\n%s", args, out)
			}
			return s, out, std
		}

		query := func(index string, want []contract.BatchConfig, list bool) {
			status, out, std := run("query", "-i", index)
			if want == nil {
				if status == 0 {
					t.Fatalf("config %s doesn't exist, the program shows:\n%s", index, out)
				}
				return
			}
			if status != 0 {
				t.Fatalf("config %s isn't shown: %s", index, out)
			}
			docs := []json.RawMessage{json.RawMessage(std)}
			if list {
				if err := json.Unmarshal([]byte(std), &docs); err != nil {
					t.Fatalf("no list: %v\n%s", err, std)
				}
			}
			if len(docs) != len(want) {
				t.Fatalf("%d configs shown, not %d:\n%s", len(docs), len(want), std)
			}
			for i, d := range docs {
				got, err := decode(d)
				if err != nil || show(got) != show(want[i]) {
					t.Fatalf("config %s shown as %s (%v)\nexpected %s\n%s", index, show(got), err, show(want[i]), std)
				}
			}
		}

		bc := batchConfig(t)
		bc.BatchSpan = rapid.SampledFrom([]uint64{0, 1, 4, 50}).Draw(t, "new span")
		last := all[len(all)-1]
		chosen := vh.Pct(75).Draw(t, "start left open")
		if chosen {
			bc.StartBlockNumber, bc.StartBatchIndex = 0, rapid.SampledFrom([]uint64{0, 0, 7}).Draw(t, "batch given")
		} else if vh.Pct(80).Draw(t, "fitting") {
			// a start that fits
			d := uint64(0)
			bc.StartBlockNumber, bc.StartBatchIndex = w.Head()+300, last.StartBatchIndex
			if last.BatchSpan > 0 {
				d = (w.Head()+1300-last.StartBlockNumber)/last.BatchSpan + 1
				if last.StartBlockNumber > w.Head()+1300 {
					d = 3
				}
				bc.StartBlockNumber, bc.StartBatchIndex = last.StartBlockNumber+d*last.BatchSpan, last.StartBatchIndex+d
			}
		}
		chosen = bc.StartBlockNumber == 0
		vh.Harness(os.WriteFile(filepath.Join(dir, "config.json"), encode(bc), 0o600), "config")
		if vh.Pct(30).Draw(t, "gas price") {
			gwei = strconv.Itoa(rapid.IntRange(1, 90).Draw(t, "gwei"))
		}
		mode := rapid.SampledFrom([]string{"set", "set", "set and schedule", "stranger"}).Draw(t, "mode")
		head, taken := w.Head(), len(w.Taken())
		before := show(raw(w, -1))
		signer := keys[0]
		if mode == "stranger" {
			signer = keys[1]
		}
		var status int
		var out string
		if mode == "set and schedule" {
			status, out, _ = run("schedule", "--config", "config.json", "-k", keyArg(signer))
		} else {
			status, out, _ = run("set-next", "--config", "config.json", "-k", keyArg(signer))
		}
		if gwei != "" {
			for _, tx := range w.Taken()[taken:] {
				g, _ := new(big.Int).SetString(gwei, 10)
				if tx.GasPrice().Cmp(g.Mul(g, big.NewInt(1e9))) != 0 {
					t.Fatalf("a transaction with gas price %s instead of %s gwei", tx.GasPrice(), gwei)
				}
			}
		}
		if mode == "stranger" {
			if now := show(raw(w, -1)); status == 0 || now != before {
				t.Fatalf("somebody else than the owner sets the next config: status %d\n%s\n%s", status, now, out)
			}
			c.Class("stranger")
			c.Case(false, "")
			return
		}
		isScheduled := func(bc contract.BatchConfig) {
			n := w.NumConfigs(w.Head())
			if n != uint64(len(all))+1 {
				t.Fatalf("%d configs are scheduled instead of %d\n%s", n, len(all)+1, out)
			}
			if got := raw(w, len(all)); show(got) != show(bc) {
				t.Fatalf("another config is scheduled:\n%s\ninstead of\n%s\n%s", show(got), show(bc), out)
			}
			all = append(all, bc)
		}
		want := bc
		index := -1
		if mode == "set and schedule" && w.NumConfigs(w.Head()) > uint64(len(all)) {
			index = len(all)
		}
		got := raw(w, index)
		if chosen {
			want.StartBlockNumber, want.StartBatchIndex = got.StartBlockNumber, got.StartBatchIndex
		}
		if show(got) != show(want) {
			t.Fatalf("the contract's config isn't the given one:\n%s\n%s\n%s", show(got), show(want), out)
		}
		if chosen {
			heads := uint64(ek.HeadsUp)
			if last.BatchSpan > heads {
				heads = last.BatchSpan
			}
			min := head + heads
			if last.StartBlockNumber > min {
				min = last.StartBlockNumber
			}
			if got.StartBlockNumber < min || got.StartBlockNumber > min+100+3*last.BatchSpan {
				t.Fatalf("block %d chosen as start at block %d, the last config is\n%s\n%s", got.StartBlockNumber, head, show(last), out)
			}
		}
		fits := w.Would(ek.Addr(keys[0]), w.Config, ek.ConfigABI, "scheduleNextConfig") == nil
		switch {
		case mode == "set and schedule" && index >= 0:
			if status != 0 {
				t.Fatalf("the config is scheduled, the program fails: %s", out)
			}
			isScheduled(want)
		case mode == "set and schedule":
			if status == 0 || fits {
				t.Fatalf("the config isn't scheduled (status %d, could be: %v)\n%s", status, fits, out)
			}
		default:
			if status != 0 {
				t.Fatalf("the next config is set, the program fails: %s", out)
			}
			query("next", []contract.BatchConfig{want}, false)
			if vh.Pct(40).Draw(t, "blocks in between") {
				w.Mine(rapid.IntRange(1, 3).Draw(t, "blocks"))
			}
			fits = w.Would(ek.Addr(keys[0]), w.Config, ek.ConfigABI, "scheduleNextConfig") == nil
			status, out, _ = run("schedule", "-k", keyArg(keys[0]))
			if (status == 0) != fits {
				t.Fatalf("schedule: status %d, the config fits: %v\n%s\n%s", status, fits, show(want), out)
			}
			if fits {
				isScheduled(want)
			}
		}
		if chosen && len(all) < 2 || chosen && show(all[len(all)-1]) != show(want) {
			t.Fatalf("a config with a start chosen by the program can't be scheduled (at block %d): last\n%s\nnew\n%s\n%s", head, show(last), show(want), out)
		}
		if int(w.NumConfigs(w.Head())) != len(all) {
			t.Fatalf("%d configs are scheduled instead of %d", w.NumConfigs(w.Head()), len(all))
		}
		gwei = ""
		switch rapid.IntRange(0, 3).Draw(t, "query") {
		case 0:
			query("all", all, true)
		case 1:
			query("last", all[len(all)-1:], false)
		case 2:
			i := vh.Pick(len(all)).Draw(t, "index")
			query(strconv.Itoa(i), all[i:i+1], false)
		default:
			query(strconv.Itoa(len(all)+rapid.IntRange(0, 3).Draw(t, "beyond")), nil, false)
		}
		c.Class(mode)
		if fits {
			c.Class("scheduled")
		}
		if chosen && last.StartBlockNumber > head {
			c.Class("chosen start after a config that starts in future")
		}
		if chosen && last.BatchSpan > ek.HeadsUp {
			c.Class("chosen start after long batches")
		}
		c.Case(chosen, "last %s, given %s, at %d", show(last), show(bc), head)
	})
}
