package ek

import (
	"crypto/ecdsa"
	"encoding/binary"
	"fmt"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

// Keys returns n fixed distinct private keys.
func Keys(n int) []*ecdsa.PrivateKey {
	var ks []*ecdsa.PrivateKey
	for i := 0; i < n; i++ {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprint("keyper key ", i))))
		if err != nil {
			panic(err)
		}
		ks = append(ks, k)
	}
	return ks
}

// Addr returns the address of a key.
func Addr(k *ecdsa.PrivateKey) common.Address { return crypto.PubkeyToAddress(k.PublicKey) }

// Added is a transaction that was added to a batch.
type Added struct {
	Block, Batch uint64
	Type         uint8
	Tx           []byte
}

// ConfigInfo is a scheduled config.
type ConfigInfo = contract.BatchConfig

// Ops performs random operations on a world and remembers the accepted ones.
type Ops struct {
	*World
	Keys    []*ecdsa.PrivateKey
	Added   []Added
	Configs []contract.BatchConfig // as scheduled, index 0 is the guard
	Counts  map[string]int
	Span    uint64
	Execs   map[uint64][][]byte // cipher half step -> executed transactions
}

// NewOps returns an operator for a fresh world.
func NewOps(keys []*ecdsa.PrivateKey) *Ops {
	return &Ops{World: NewWorld(), Keys: keys, Configs: make([]contract.BatchConfig, 1), Counts: map[string]int{}, Execs: map[uint64][][]byte{}}
}

func (o *Ops) count(op string, err error) error {
	if err == nil {
		o.Counts[op]++
	} else {
		o.Counts["refused "+op]++
	}
	return err
}

// keyperSet draws distinct keypers.
func (o *Ops) keyperSet(t *rapid.T) []common.Address {
	n := rapid.IntRange(1, len(o.Keys)).Draw(t, "keypers")
	off := rapid.IntRange(0, len(o.Keys)-1).Draw(t, "first keyper")
	var r []common.Address
	for i := 0; i < n; i++ {
		r = append(r, Addr(o.Keys[(off+i)%len(o.Keys)]))
	}
	return r
}

// ScheduleRandom schedules a config following the last one.
func (o *Ops) ScheduleRandom(t *rapid.T) error {
	last := o.Configs[len(o.Configs)-1]
	next := o.Head() + 1
	earliest := next + HeadsUp + 1
	if last.BatchSpan > HeadsUp {
		earliest = next + last.BatchSpan + 1
	}
	if earliest < last.StartBlockNumber {
		earliest = last.StartBlockNumber
	}
	bc := contract.BatchConfig{
		BatchSpan: rapid.Uint64Range(0, 7).Draw(t, "span"), ExecutionTimeout: rapid.Uint64Range(1, 25).Draw(t, "timeout"),
		BatchSizeLimit: 2000, TransactionSizeLimit: 1000, TransactionGasLimit: 50_000,
		FeeReceiver: common.BytesToAddress([]byte{9, 9}), TargetAddress: o.Target, TargetFunctionSelector: [4]byte{1, 2, 3, byte(next)},
		Keypers: o.keyperSet(t),
	}
	if bc.BatchSpan == 0 && last.BatchSpan == 0 {
		bc.BatchSpan = 4
	}
	bc.Threshold = rapid.Uint64Range(1, uint64(len(bc.Keypers))).Draw(t, "threshold")
	if last.BatchSpan == 0 {
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex, earliest+rapid.Uint64Range(0, 4).Draw(t, "later")
	} else {
		d := (earliest - last.StartBlockNumber + last.BatchSpan - 1) / last.BatchSpan
		d += rapid.Uint64Range(0, 3).Draw(t, "batches later")
		if d == 0 {
			d = 1
		}
		bc.StartBatchIndex, bc.StartBlockNumber = last.StartBatchIndex+d, last.StartBlockNumber+d*last.BatchSpan
	}
	if err := o.count("schedule", o.Schedule(bc)); err != nil {
		return err
	}
	o.Configs = append(o.Configs, bc)
	return nil
}

// UnscheduleRandom unschedules configs from some block on.
func (o *Ops) UnscheduleRandom(t *rapid.T) {
	from := o.Head() + 1 + HeadsUp + rapid.Uint64Range(0, 12).Draw(t, "unschedule from")
	if o.count("unschedule", o.Exec(Owner, o.Config, ConfigABI, "unscheduleConfigs", from)) == nil {
		for len(o.Configs) > 1 && o.Configs[len(o.Configs)-1].StartBlockNumber >= from {
			o.Configs = o.Configs[:len(o.Configs)-1]
		}
	}
}

// ConfigFor returns the config responsible for a batch.
func (o *Ops) ConfigFor(batch uint64) contract.BatchConfig {
	for i := len(o.Configs) - 1; i >= 0; i-- {
		if o.Configs[i].StartBatchIndex <= batch {
			return o.Configs[i]
		}
	}
	return contract.BatchConfig{}
}

// OpenBatch returns the batch the next block belongs to.
func (o *Ops) OpenBatch() (uint64, bool) {
	next := o.Head() + 1
	for i := len(o.Configs) - 1; i >= 0; i-- {
		bc := o.Configs[i]
		if bc.StartBlockNumber <= next {
			if bc.BatchSpan == 0 {
				return 0, false
			}
			return bc.StartBatchIndex + (next-bc.StartBlockNumber)/bc.BatchSpan, true
		}
	}
	return 0, false
}

// Add adds a transaction.
func (o *Ops) Add(from common.Address, batch uint64, typ uint8, tx []byte) error {
	err := o.count("add", o.AddTx(from, batch, typ, tx))
	if err == nil {
		o.Added = append(o.Added, Added{o.Head() + 1, batch, typ, tx})
	}
	return err
}

// BatchTxs returns the transactions of a batch up to a block.
func (o *Ops) BatchTxs(batch uint64, typ uint8, block uint64) [][]byte {
	var r [][]byte
	for _, a := range o.Added {
		if a.Batch == batch && a.Type == typ && a.Block <= block {
			r = append(r, a.Tx)
		}
	}
	return r
}

// ChainHash is the chained hash of transactions.
func ChainHash(txs [][]byte) common.Hash {
	var h common.Hash
	for _, tx := range txs {
		h = Keccak(tx, h[:])
	}
	return h
}

// ExecuteNext executes the next half step if it can; wrong asks for other transactions than real.
func (o *Ops) ExecuteNext(t *rapid.T, real func(batch uint64) [][]byte) error {
	half := o.HalfStepsNow()
	batch := half / 2
	bc := o.ConfigFor(batch)
	if half%2 == 1 {
		return o.count("plain", o.Exec(Addr(o.Keys[0]), o.Executor, ExecutorABI, "executePlainBatch", batch, nonNil(o.BatchTxs(batch, 1, o.Head()+1))))
	}
	if len(bc.Keypers) == 0 {
		return fmt.Errorf("no keypers")
	}
	k := rapid.IntRange(0, len(bc.Keypers)-1).Draw(t, "executing keyper")
	cipher := ChainHash(o.BatchTxs(batch, 0, o.Head()+1))
	txs := real(batch)
	if cipher == (common.Hash{}) {
		txs = nil
	}
	err := o.count("cipher", o.Exec(bc.Keypers[k], o.Executor, ExecutorABI, "executeCipherBatch", batch, cipher, nonNil(txs), uint64(k)))
	if err == nil {
		o.Execs[half] = txs
	}
	return err
}

func nonNil(b [][]byte) [][]byte {
	if b == nil {
		return [][]byte{}
	}
	return b
}

// HalfStepsNow returns the number of half steps including the block under construction.
func (o *Ops) HalfStepsNow() uint64 {
	o.mu.Lock()
	defer o.mu.Unlock()
	data, _ := ExecutorABI.Pack("numExecutionHalfSteps")
	res, err := o.simulate(0, true, common.Address{}, &o.Executor, nil, data)
	if err != nil || res.Failed() {
		panic(fmt.Sprint("half steps ", err))
	}
	out, _ := ExecutorABI.Unpack("numExecutionHalfSteps", res.Return())
	return out[0].(uint64)
}

// SkipNext skips the next cipher half step.
func (o *Ops) SkipNext() error {
	return o.count("skip", o.Exec(Addr(o.Keys[0]), o.Executor, ExecutorABI, "skipCipherExecution", o.HalfStepsNow()/2))
}

// SkipMany skips empty or timed out batches.
func (o *Ops) SkipMany(n uint64) error {
	return o.count("skip many", o.Exec(Addr(o.Keys[0]), o.Executor, ExecutorABI, "skipEmptyOrTimedOutBatches", n))
}

// SetHalfSteps lets the owner jump.
func (o *Ops) SetHalfSteps(n uint64) error {
	return o.count("set half steps", o.Exec(Owner, o.Executor, ExecutorABI, "setHalfSteps", n))
}

// Accuse accuses the executor of a half step.
func (o *Ops) Accuse(from common.Address, half uint64, index uint64) error {
	return o.count("accuse", o.Exec(from, o.Slasher, SlasherABI, "accuse", half, index))
}

// SigHash is what keypers sign for a decrypted batch.
func (o *Ops) SigHash(batch uint64, cipherHash, batchHash common.Hash) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], batch)
	return crypto.Keccak256([]byte("\x19dectx"), o.Batcher.Bytes(), b[:], cipherHash[:], batchHash[:])
}

// Appeal appeals with signatures of the given keys over the executed batch.
func (o *Ops) Appeal(half uint64, signers []*ecdsa.PrivateKey) error {
	batch := half / 2
	bc := o.ConfigFor(batch)
	h := o.SigHash(batch, ChainHash(o.BatchTxs(batch, 0, o.Head()+1)), ChainHash(o.Execs[half]))
	type si struct {
		i uint64
		s []byte
	}
	var l []si
	for _, k := range signers {
		for i, a := range bc.Keypers {
			if a == Addr(k) {
				s, err := crypto.Sign(h, k)
				if err != nil {
					panic(err)
				}
				s[64] += 27
				l = append(l, si{uint64(i), s})
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].i < l[j].i })
	auth := contract.Authorization{HalfStep: half, BatchHash: ChainHash(o.Execs[half]), SignerIndices: []uint64{}, Signatures: [][]byte{}}
	for _, x := range l {
		auth.SignerIndices, auth.Signatures = append(auth.SignerIndices, x.i), append(auth.Signatures, x.s)
	}
	return o.count("appeal", o.Exec(Owner, o.Slasher, SlasherABI, "appeal", auth))
}

// Slash slashes after the appeal period.
func (o *Ops) Slash(half uint64) error {
	return o.count("slash", o.Exec(Owner, o.Slasher, SlasherABI, "slash", half))
}

var _ = types.ReceiptStatusSuccessful
