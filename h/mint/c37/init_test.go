package c37

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/spf13/viper"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	cfg "github.com/tendermint/tendermint/config"
	"github.com/tendermint/tendermint/p2p"
	"github.com/tendermint/tendermint/privval"
	tmtypes "github.com/tendermint/tendermint/types"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"verif/mint/ak"
	"verif/vh"
)

// the default genesis keyper, the last one of ganache's deterministic accounts
var ganache = common.HexToAddress("0x1dF62f291b2E969fB0849d99D9Ce41e2F137006e")

// spell writes an address in one of the ways that are accepted.
func spell(t *rapid.T, a common.Address) string {
	s := a.Hex()
	switch vh.Pick(4).Draw(t, "spelling") {
	case 1:
		return strings.ToLower(s)
	case 2:
		return s[2:]
	case 3:
		return "0x" + strings.ToUpper(s[2:])
	}
	return s
}

type files struct{ key, node, genesis, signed string }

func read(t *rapid.T, root string) files {
	f := func(name string) string {
		b, err := os.ReadFile(filepath.Join(root, name))
		if err != nil {
			t.Fatalf("%v", err)
		}
		return string(b)
	}
	return files{f("config/priv_validator_key.json"), f("config/node_key.json"), f("config/genesis.json"), f("data/priv_validator_state.json")}
}

// TestInit: the files written by init are those of a working node with the given settings.
func TestInit(t *testing.T) {
	vh.Check(t, "at least two genesis keypers and another setting, or refused", vh.N(800, 10000), func(t *rapid.T, c *vh.C) {
		dir := ak.Scratch()
		defer ak.RemoveScratch(dir)
		root := filepath.Join(dir, "node")
		relative := vh.Pct(20).Draw(t, "relative")
		switch vh.Pick(4).Draw(t, "root") {
		case 1:
			root = filepath.Join(dir, "a", "b c")
		case 2:
			vh.Harness(os.MkdirAll(root, 0o755), "root")
		}
		var first files
		var chainID string
		var firstKeypers []common.Address
		times := 1 + vh.Pick(2).Draw(t, "again")
		for k := 0; k < times; k++ {
			arg := root
			if relative {
				arg, _ = filepath.Rel(dir, root)
			}
			args := []string{"init", "--root", arg}
			index, blockTime, dev := 0, 1.0, false
			others := 0
			if rapid.Bool().Draw(t, "index given") {
				index = rapid.IntRange(0, 15000).Draw(t, "index")
				args = append(args, fmt.Sprintf("--index=%d", index))
				others++
			}
			if rapid.Bool().Draw(t, "block time given") {
				blockTime = float64(rapid.IntRange(1, 20000).Draw(t, "block time")) / 1000
				args = append(args, fmt.Sprintf("--blocktime=%v", blockTime))
				others++
			}
			if dev = rapid.Bool().Draw(t, "dev"); dev {
				args = append(args, "--dev")
			}
			var keypers []common.Address
			bad := ""
			for i := vh.Pick(7).Draw(t, "keypers"); i > 0; i-- {
				a := ak.Addr(ak.KeyOf(len(keypers) + 50*k))
				keypers = append(keypers, a)
				s := spell(t, a)
				if vh.Pct(8).Draw(t, "twisted") {
					switch vh.Pick(5).Draw(t, "twist") {
					case 0:
						s = s[:len(s)-1]
					case 1:
						s += "0"
					case 2:
						s = s[:len(s)-1] + "g"
					case 3:
						s = "keyper"
					case 4:
						s = " " + s
					}
					bad = s
				}
				if n := len(args) - 1; strings.HasPrefix(args[n], "--genesis-keyper=") && rapid.Bool().Draw(t, "one list") {
					args[n] += "," + s
				} else {
					args = append(args, "--genesis-keyper="+s)
				}
			}
			status, out := run(dir, args...)
			if crashed(out) {
				t.Fatalf("%q crashes: %s", args, out)
			}
			if bad != "" {
				if status == 0 {
					t.Fatalf("%q accepts %q: %s", args, bad, out)
				}
				if _, err := os.Stat(filepath.Join(root, "config", "genesis.json")); k == 0 && err == nil {
					t.Fatalf("%q is refused but writes a genesis", args)
				}
				c.Class("refused")
				c.Case(true, "refused %q", bad)
				return
			}
			if status != 0 {
				t.Fatalf("%q ends with %d: %s", args, status, out)
			}
			if len(keypers) == 0 {
				keypers = []common.Address{ganache}
			}
			now := read(t, root)
			if k == 0 {
				if rapid.Bool().Draw(t, "signed") {
					// the validator has signed something since
					conf := filepath.Join(root, "config", "priv_validator_key.json")
					pv := privval.LoadFilePV(conf, filepath.Join(root, "data", "priv_validator_state.json"))
					pv.LastSignState.Height = int64(rapid.IntRange(1, 1e6).Draw(t, "signed height"))
					pv.LastSignState.Round = int32(vh.Pick(3).Draw(t, "signed round"))
					pv.LastSignState.Step = int8(1 + vh.Pick(3).Draw(t, "signed step"))
					pv.LastSignState.Save()
					now = read(t, root)
				}
				first, firstKeypers = now, keypers
			} else if now != first {
				t.Fatalf("%q replaces the keys, the genesis or what has been signed", args)
			}
			chainID = check(t, root, index, blockTime, dev, firstKeypers)
			c.Class(fmt.Sprintf("%d keypers", len(keypers)))
			if k == times-1 {
				c.Case(len(keypers) > 1 && others > 0, "%q chain %s", args[1:], chainID)
			}
		}
	})
}

// check checks the files of a node.
func check(t *rapid.T, root string, index int, blockTime float64, dev bool, keypers []common.Address) string {
	config := cfg.DefaultConfig()
	config.SetRoot(root)
	v := viper.New()
	v.SetConfigFile(filepath.Join(root, "config", "config.toml"))
	if err := v.ReadInConfig(); err != nil {
		t.Fatalf("config.toml: %v", err)
	}
	if err := v.Unmarshal(config); err != nil {
		t.Fatalf("config.toml: %v", err)
	}
	if err := config.ValidateBasic(); err != nil {
		t.Fatalf("config.toml: %v", err)
	}
	if g, w := config.RPC.ListenAddress, fmt.Sprintf("tcp://127.0.0.1:%d", 26657+2*index); g != w {
		t.Fatalf("RPC listens on %s instead of %s", g, w)
	}
	if g, w := config.P2P.ListenAddress, fmt.Sprintf("tcp://0.0.0.0:%d", 26656+2*index); g != w {
		t.Fatalf("P2P listens on %s instead of %s", g, w)
	}
	if !config.P2P.AllowDuplicateIP {
		t.Fatalf("nodes can't share an address")
	}
	def := cfg.DefaultConfig()
	for _, x := range []struct {
		name     string
		got, def time.Duration
	}{
		{"commit timeout", config.Consensus.TimeoutCommit, def.Consensus.TimeoutCommit},
		{"propose timeout", config.Consensus.TimeoutPropose, def.Consensus.TimeoutPropose},
		{"prevote timeout", config.Consensus.TimeoutPrevote, def.Consensus.TimeoutPrevote},
		{"precommit timeout", config.Consensus.TimeoutPrecommit, def.Consensus.TimeoutPrecommit},
	} {
		if w := blockTime * 1e9 * float64(x.def) / float64(def.Consensus.TimeoutCommit); math.Abs(float64(x.got)-w) > 1000 {
			t.Fatalf("%s is %v for a block time of %v s", x.name, x.got, blockTime)
		}
	}
	pv := privval.LoadFilePV(config.PrivValidatorKeyFile(), config.PrivValidatorStateFile())
	if _, err := p2p.LoadNodeKey(config.NodeKeyFile()); err != nil {
		t.Fatalf("node key: %v", err)
	}
	doc, err := tmtypes.GenesisDocFromFile(config.GenesisFile())
	if err != nil {
		t.Fatalf("genesis: %v", err)
	}
	if len(doc.Validators) != 1 || !doc.Validators[0].PubKey.Equals(pv.Key.PubKey) || doc.Validators[0].Power <= 0 {
		t.Fatalf("the validators of the genesis are %v, not the node itself", doc.Validators)
	}
	var state struct {
		Keypers   []string `json:"keypers"`
		Threshold string   `json:"threshold"`
	}
	if err := json.Unmarshal(doc.AppState, &state); err != nil {
		t.Fatalf("genesis state: %v", err)
	}
	if len(state.Keypers) != len(keypers) {
		t.Fatalf("genesis keypers %v instead of %v", state.Keypers, keypers)
	}
	for i, k := range keypers {
		if common.HexToAddress(state.Keypers[i]) != k {
			t.Fatalf("genesis keypers %v instead of %v", state.Keypers, keypers)
		}
	}
	n := len(keypers)
	if w := fmt.Sprint((2*n + 2) / 3); state.Threshold != w {
		t.Fatalf("genesis threshold %s of %d", state.Threshold, n)
	}
	a, err := app.LoadShutterAppFromFile(filepath.Join(config.DBDir(), "shutter.gob"))
	if err != nil {
		t.Fatalf("state: %v", err)
	}
	if a.DevMode != dev || a.Info(abcitypes.RequestInfo{}).LastBlockHeight != 0 {
		t.Fatalf("state: dev mode %v instead of %v, height %d", a.DevMode, dev, a.Info(abcitypes.RequestInfo{}).LastBlockHeight)
	}
	a.InitChain(abcitypes.RequestInitChain{ChainId: doc.ChainID, AppStateBytes: doc.AppState, Validators: tmtypes.TM2PB.ValidatorUpdates(tmtypes.NewValidatorSet(
		[]*tmtypes.Validator{tmtypes.NewValidator(doc.Validators[0].PubKey, doc.Validators[0].Power)}))})
	last := a.LastConfig()
	if last.Threshold != uint64((2*n+2)/3) || fmt.Sprint(last.Keypers) != fmt.Sprint(keypers) {
		t.Fatalf("the chain starts with %d of %v", last.Threshold, last.Keypers)
	}
	return doc.ChainID
}
