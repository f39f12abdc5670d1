package ek

import (
	"crypto/ecdsa"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
)

const (
	// HeadsUp is the notice the config contract demands.
	HeadsUp = 20
	// AppealBlocks is the appeal period of the keyper slasher.
	AppealBlocks = 20
)

// Owner owns the contracts.
var Owner = common.HexToAddress("0x00000000000000000000000000000000000000aa")

// World is a chain with the contracts of the system.
type World struct {
	*Chain
	Config, KeyBroadcast, FeeBank, Batcher, Token, Deposit, Executor, Proxy, Target, Slasher common.Address
}

var abis = map[string]abi.ABI{}

func mustABI(s string) abi.ABI {
	if a, ok := abis[s[:200]]; ok {
		return a
	}
	a, err := abi.JSON(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return a
}

// ABIs of the contracts.
var (
	ConfigABI       = mustABI(contract.ConfigContractABI)
	KeyBroadcastABI = mustABI(contract.KeyBroadcastContractABI)
	BatcherABI      = mustABI(contract.BatcherContractABI)
	TokenABI        = mustABI(contract.TestDepositTokenContractABI)
	DepositABI      = mustABI(contract.DepositContractABI)
	ExecutorABI     = mustABI(contract.ExecutorContractABI)
	SlasherABI      = mustABI(contract.KeyperSlasherABI)
)

var (
	baseOnce sync.Once
	base     *World
)

func deploy(c *Chain, abiJSON, bin string, args ...interface{}) common.Address {
	a := mustABI(abiJSON)
	in, err := a.Pack("", args...)
	if err != nil {
		panic(err)
	}
	_, addr, err := c.Do(Owner, nil, nil, append(common.FromHex(bin), in...))
	if err != nil {
		panic(err)
	}
	return addr
}

func setup() {
	c := New()
	w := &World{Chain: c}
	c.Fund(Owner, new(big.Int).Lsh(big.NewInt(1), 150))
	reg := erc1820.DeploymentTransaction
	if _, addr, err := c.Do(erc1820.DeployerAddress, nil, nil, reg.Data()); err != nil || addr != erc1820.ContractAddress {
		panic("erc1820 registry")
	}
	w.Config = deploy(c, contract.ConfigContractABI, contract.ConfigContractBin, uint64(HeadsUp))
	w.KeyBroadcast = deploy(c, contract.KeyBroadcastContractABI, contract.KeyBroadcastContractBin, w.Config)
	w.FeeBank = deploy(c, contract.FeeBankContractABI, contract.FeeBankContractBin)
	w.Batcher = deploy(c, contract.BatcherContractABI, contract.BatcherContractBin, w.Config, w.FeeBank)
	w.Token = deploy(c, contract.TestDepositTokenContractABI, contract.TestDepositTokenContractBin)
	w.Deposit = deploy(c, contract.DepositContractABI, contract.DepositContractBin, w.Token)
	w.Executor = deploy(c, contract.ExecutorContractABI, contract.ExecutorContractBin, w.Config, w.Batcher, w.Deposit)
	w.Proxy = deploy(c, contract.TargetProxyContractABI, contract.TargetProxyContractBin, w.Executor)
	w.Target = deploy(c, contract.TestTargetContractABI, contract.TestTargetContractBin, w.Proxy)
	w.Slasher = deploy(c, contract.KeyperSlasherABI, contract.KeyperSlasherBin, big.NewInt(AppealBlocks), w.Config, w.Executor, w.Deposit)
	c.Mine(1)
	base = w
}

// NewWorld returns a fresh chain with the contracts deployed in block 1.
func NewWorld() *World {
	baseOnce.Do(setup)
	w := *base
	w.Chain = base.Chain.Fork()
	return &w
}

// Exec calls a contract method in the block under construction.
func (w *World) Exec(from, to common.Address, a abi.ABI, method string, args ...interface{}) error {
	_, err := w.ExecLogs(from, to, a, method, args...)
	return err
}

// ExecLogs is like Exec but returns the logs.
func (w *World) ExecLogs(from, to common.Address, a abi.ABI, method string, args ...interface{}) ([]*types.Log, error) {
	data, err := a.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	logs, _, err := w.Do(from, &to, nil, data)
	return logs, err
}

// Would says if a call would succeed in the next block.
func (w *World) Would(from, to common.Address, a abi.ABI, method string, args ...interface{}) error {
	data, err := a.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	return w.Try(from, to, data)
}

// View reads a contract at a block.
func (w *World) View(block uint64, to common.Address, a abi.ABI, method string, args ...interface{}) ([]interface{}, error) {
	data, err := a.Pack(method, args...)
	if err != nil {
		panic(err)
	}
	out, err := w.Read(block, to, data)
	if err != nil {
		return nil, err
	}
	return a.Unpack(method, out)
}

// SetNext sets the fields of the next config and schedules it.
func (w *World) Schedule(bc contract.BatchConfig) error {
	if err := w.SetNext(bc); err != nil {
		return err
	}
	return w.Exec(Owner, w.Config, ConfigABI, "scheduleNextConfig")
}

// SetNext sets all fields of the next config.
func (w *World) SetNext(bc contract.BatchConfig) error {
	type kv struct {
		m string
		v interface{}
	}
	for _, x := range []kv{
		{"nextConfigSetStartBatchIndex", bc.StartBatchIndex}, {"nextConfigSetStartBlockNumber", bc.StartBlockNumber},
		{"nextConfigSetThreshold", bc.Threshold}, {"nextConfigSetBatchSpan", bc.BatchSpan},
		{"nextConfigSetBatchSizeLimit", bc.BatchSizeLimit}, {"nextConfigSetTransactionSizeLimit", bc.TransactionSizeLimit},
		{"nextConfigSetTransactionGasLimit", bc.TransactionGasLimit}, {"nextConfigSetFeeReceiver", bc.FeeReceiver},
		{"nextConfigSetTargetAddress", bc.TargetAddress}, {"nextConfigSetTargetFunctionSelector", bc.TargetFunctionSelector},
		{"nextConfigSetExecutionTimeout", bc.ExecutionTimeout},
		{"nextConfigRemoveKeypers", ^uint64(0)}, {"nextConfigAddKeypers", bc.Keypers},
	} {
		if x.m == "nextConfigAddKeypers" && len(bc.Keypers) == 0 {
			continue
		}
		if err := w.Exec(Owner, w.Config, ConfigABI, x.m, x.v); err != nil {
			return err
		}
	}
	return nil
}

// BatchHash returns the hash of a batch at a block.
func (w *World) BatchHash(block, batch uint64, typ uint8) common.Hash {
	out, err := w.View(block, w.Batcher, BatcherABI, "batchHashes", batch, typ)
	if err != nil {
		panic(err)
	}
	return out[0].([32]byte)
}

// NumConfigs returns the number of configs at a block.
func (w *World) NumConfigs(block uint64) uint64 {
	out, err := w.View(block, w.Config, ConfigABI, "numConfigs")
	if err != nil {
		panic(err)
	}
	return out[0].(uint64)
}

// HalfSteps returns the number of execution half steps at a block.
func (w *World) HalfSteps(block uint64) uint64 {
	out, err := w.View(block, w.Executor, ExecutorABI, "numExecutionHalfSteps")
	if err != nil {
		panic(err)
	}
	return out[0].(uint64)
}

// AddTx adds a transaction to a batch.
func (w *World) AddTx(from common.Address, batch uint64, typ uint8, tx []byte) error {
	return w.Exec(from, w.Batcher, BatcherABI, "addTransaction", batch, typ, tx)
}

// Caller returns a contract caller talking to the chain.
func (w *World) Caller(key *ecdsa.PrivateKey) *contract.Caller { return w.CallerFor(w.Client(), key) }

// CallerFor returns a contract caller using a given client.
func (w *World) CallerFor(cl *ethclient.Client, key *ecdsa.PrivateKey) *contract.Caller {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	cc, err := contract.NewConfigContract(w.Config, cl)
	must(err)
	kb, err := contract.NewKeyBroadcastContract(w.KeyBroadcast, cl)
	must(err)
	ba, err := contract.NewBatcherContract(w.Batcher, cl)
	must(err)
	ex, err := contract.NewExecutorContract(w.Executor, cl)
	must(err)
	de, err := contract.NewDepositContract(w.Deposit, cl)
	must(err)
	sl, err := contract.NewKeyperSlasher(w.Slasher, cl)
	must(err)
	r := contract.NewCaller(cl, key, cc, kb, ba, ex, de, sl)
	return &r
}

// GiveTokens sends deposit tokens from the owner.
func (w *World) GiveTokens(to common.Address, amount int64) error {
	return w.Exec(Owner, w.Token, TokenABI, "transfer", to, big.NewInt(amount))
}

// MakeDeposit deposits tokens of an account with a withdrawal delay.
func (w *World) MakeDeposit(from common.Address, amount int64, delay uint64) error {
	return w.Exec(from, w.Token, TokenABI, "send", w.Deposit, big.NewInt(amount), common.LeftPadBytes(new(big.Int).SetUint64(delay).Bytes(), 32))
}

// Keccak hashes.
func Keccak(b ...[]byte) common.Hash { return crypto.Keccak256Hash(b...) }
