// Package ek is a small Ethereum chain for the checks: the contracts of the repository (bytecode of
// the Go binding) run in go-ethereum's EVM on a state kept per block, and the keyper code talks to
// it through the real ethclient over JSON-RPC. It is the reference for what "the main chain" is.
package ek

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rpc"
)

const gasCap = 100_000_000

// Config of the chain: everything up to Berlin.
var chainConfig = &params.ChainConfig{
	ChainID: big.NewInt(1337), HomesteadBlock: new(big.Int), EIP150Block: new(big.Int), EIP155Block: new(big.Int),
	EIP158Block: new(big.Int), ByzantiumBlock: new(big.Int), ConstantinopleBlock: new(big.Int),
	PetersburgBlock: new(big.Int), IstanbulBlock: new(big.Int), MuirGlacierBlock: new(big.Int), BerlinBlock: new(big.Int),
}

type txInfo struct {
	tx      *types.Transaction
	from    common.Address
	block   uint64
	mined   bool
	receipt *types.Receipt
}

// Chain is the chain. The block under construction has number Head()+1.
type Chain struct {
	mu      sync.Mutex
	cur     *state.StateDB
	states  []*state.StateDB
	headers []*types.Header
	logs    [][]*types.Log
	txs     map[common.Hash]*txInfo
	taken   []*types.Transaction
	pending []*txInfo
	nonce   uint64

	curLogs []*types.Log
	curRec  []*types.Receipt
	dirty   bool

	// Visible, if set, is what the node says is its head (at most the real one).
	Visible *uint64
	// Fault, if set, may let a request fail.
	Fault func(method string) error
	// AutoMine mines a block for every raw transaction received.
	AutoMine bool
	// Requests counts the requests by method
	Requests map[string]int
	// Syncing, if set, is the answer to eth_syncing
	Syncing func() interface{}

	heads map[chan *types.Header]bool
	srv   *rpc.Server
}

// New returns a chain with a genesis block.
func New() *Chain {
	st, err := state.New(common.Hash{}, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	if err != nil {
		panic(err)
	}
	c := &Chain{cur: st, txs: map[common.Hash]*txInfo{}, Requests: map[string]int{}, heads: map[chan *types.Header]bool{}}
	c.dirty = true
	c.seal()
	return c
}

// Fork returns an independent copy of the chain.
func (c *Chain) Fork() *Chain {
	c.mu.Lock()
	defer c.mu.Unlock()
	d := &Chain{cur: c.cur.Copy(), states: append([]*state.StateDB{}, c.states...), headers: append([]*types.Header{}, c.headers...),
		logs: append([][]*types.Log{}, c.logs...), txs: map[common.Hash]*txInfo{}, nonce: c.nonce, Requests: map[string]int{}, heads: map[chan *types.Header]bool{}}
	// historical states are copied before use, so they can be shared, but a copy reads its origin
	d.states[len(d.states)-1] = d.cur.Copy()
	for i := range d.states[:len(d.states)-1] {
		d.states[i] = d.states[len(d.states)-1]
	}
	for h, t := range c.txs {
		d.txs[h] = t
	}
	return d
}

func (c *Chain) seal() {
	n := uint64(len(c.headers))
	h := &types.Header{Number: new(big.Int).SetUint64(n), Time: 1_600_000_000 + 5*n, GasLimit: gasCap, Difficulty: big.NewInt(1),
		Extra: []byte{}, UncleHash: types.EmptyUncleHash, TxHash: types.EmptyRootHash, ReceiptHash: types.EmptyRootHash}
	if n > 0 {
		h.ParentHash = c.headers[n-1].Hash()
	}
	if c.dirty || n == 0 {
		c.states = append(c.states, c.cur.Copy())
	} else {
		c.states = append(c.states, c.states[n-1])
	}
	c.dirty = false
	hash := h.Hash()
	for i, l := range c.curLogs {
		l.BlockNumber, l.BlockHash, l.Index = n, hash, uint(i)
	}
	for _, r := range c.curRec {
		r.BlockHash, r.BlockNumber = hash, h.Number
	}
	c.logs = append(c.logs, c.curLogs)
	c.curLogs, c.curRec = nil, nil
	c.headers = append(c.headers, h)
	for ch := range c.heads {
		select {
		case ch <- h:
		default:
		}
	}
}

// Head returns the number of the last block.
func (c *Chain) Head() uint64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.head()
}

func (c *Chain) head() uint64 { return uint64(len(c.headers)) - 1 }

func (c *Chain) visible() uint64 {
	if c.Visible != nil && *c.Visible < c.head() {
		return *c.Visible
	}
	return c.head()
}

// Mine mines n blocks; the first one contains what has been sent since.
func (c *Chain) Mine(n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := 0; i < n; i++ {
		c.minePending()
		c.seal()
	}
}

// MineTo mines until the head is block b.
func (c *Chain) MineTo(b uint64) {
	for c.Head() < b {
		c.Mine(1)
	}
}

func (c *Chain) evm(st *state.StateDB, msg types.Message, number uint64) *vm.EVM {
	ctx := vm.BlockContext{
		CanTransfer: core.CanTransfer, Transfer: core.Transfer,
		GetHash:     func(uint64) common.Hash { return common.Hash{} },
		BlockNumber: new(big.Int).SetUint64(number), Time: new(big.Int).SetUint64(1_600_000_000 + 5*number),
		Difficulty: big.NewInt(1), GasLimit: gasCap * 10, BaseFee: new(big.Int),
	}
	return vm.NewEVM(ctx, core.NewEVMTxContext(msg), st, chainConfig, vm.Config{NoBaseFee: true})
}

// apply runs msg for real in the block under construction.
func (c *Chain) apply(msg types.Message, hash common.Hash) (*core.ExecutionResult, []*types.Log, common.Address, error) {
	n := uint64(len(c.headers))
	c.cur.Prepare(hash, len(c.curRec))
	nonce := c.cur.GetNonce(msg.From())
	res, err := core.ApplyMessage(c.evm(c.cur, msg, n), msg, new(core.GasPool).AddGas(gasCap*10))
	if err != nil {
		return nil, nil, common.Address{}, err
	}
	c.cur.Finalise(true)
	c.dirty = true
	var logs []*types.Log
	for _, l := range c.cur.GetLogs(hash, common.Hash{}) {
		cp := *l
		logs = append(logs, &cp)
	}
	c.curLogs = append(c.curLogs, logs...)
	var created common.Address
	if msg.To() == nil {
		created = crypto.CreateAddress(msg.From(), nonce)
	}
	rec := &types.Receipt{Status: 1, TxHash: hash, GasUsed: res.UsedGas, CumulativeGasUsed: res.UsedGas, Logs: logs, ContractAddress: created, TransactionIndex: uint(len(c.curRec))}
	if res.Failed() {
		rec.Status = 0
	}
	if rec.Logs == nil {
		rec.Logs = []*types.Log{}
	}
	c.curRec = append(c.curRec, rec)
	return res, logs, created, nil
}

// Reverted is the error of a call or transaction that failed in the EVM.
type Reverted struct {
	Reason string
	data   []byte
}

func (r *Reverted) Error() string          { return "execution reverted: " + r.Reason }
func (r *Reverted) ErrorCode() int         { return 3 }
func (r *Reverted) ErrorData() interface{} { return hexutil.Encode(r.data) }

func revertErr(res *core.ExecutionResult) error {
	if !res.Failed() {
		return nil
	}
	if reason, err := abi.UnpackRevert(res.Revert()); err == nil {
		return &Reverted{reason, res.Revert()}
	}
	if len(res.Revert()) > 0 {
		return &Reverted{"", res.Revert()}
	}
	return fmt.Errorf("%v", res.Err)
}

// Do runs a message from an account in the block under construction. It needs no signature.
func (c *Chain) Do(from common.Address, to *common.Address, value *big.Int, data []byte) ([]*types.Log, common.Address, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if value == nil {
		value = new(big.Int)
	}
	c.nonce++
	hash := crypto.Keccak256Hash([]byte(fmt.Sprint("synthetic", c.nonce)))
	msg := types.NewMessage(from, to, c.cur.GetNonce(from), value, gasCap, new(big.Int), new(big.Int), new(big.Int), data, nil, false)
	res, logs, created, err := c.apply(msg, hash)
	if err != nil {
		return nil, created, err
	}
	return logs, created, revertErr(res)
}

// Fund gives an account ether.
func (c *Chain) Fund(a common.Address, amount *big.Int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cur.AddBalance(a, amount)
	c.dirty = true
}

func (c *Chain) minePending() {
	for _, t := range c.pending {
		msg := types.NewMessage(t.from, t.tx.To(), t.tx.Nonce(), t.tx.Value(), t.tx.Gas(), new(big.Int), new(big.Int), new(big.Int), t.tx.Data(), nil, false)
		if c.cur.GetNonce(t.from) != t.tx.Nonce() {
			panic("ek: nonce gap in the pool")
		}
		_, _, _, err := c.apply(msg, t.tx.Hash())
		if err != nil {
			panic(fmt.Sprint("ek: pooled transaction cannot be mined: ", err))
		}
		t.receipt = c.curRec[len(c.curRec)-1]
		t.block, t.mined = uint64(len(c.headers)), true
	}
	c.pending = nil
}

// Pending returns the transactions in the pool.
func (c *Chain) Pending() []*types.Transaction {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []*types.Transaction
	for _, t := range c.pending {
		r = append(r, t.tx)
	}
	return r
}

// Taken returns all raw transactions ever taken up.
func (c *Chain) Taken() []*types.Transaction {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*types.Transaction{}, c.taken...)
}

// DropPending empties the pool (as a node does that forgets transactions).
func (c *Chain) DropPending() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range c.pending {
		delete(c.txs, t.tx.Hash())
	}
	c.pending = nil
}

// Receipt returns the receipt of a mined raw transaction.
func (c *Chain) Receipt(h common.Hash) *types.Receipt {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t, ok := c.txs[h]; ok && t.mined {
		return t.receipt
	}
	return nil
}

func (c *Chain) simulate(block uint64, onPending bool, from common.Address, to *common.Address, value *big.Int, data []byte) (*core.ExecutionResult, error) {
	var st *state.StateDB
	number := block
	if onPending {
		st = c.cur.Copy()
		number = uint64(len(c.headers))
	} else {
		st = c.states[block].Copy()
	}
	if value == nil {
		value = new(big.Int)
	}
	st.SetBalance(from, new(big.Int).Lsh(big.NewInt(1), 200))
	msg := types.NewMessage(from, to, st.GetNonce(from), value, gasCap, new(big.Int), new(big.Int), new(big.Int), data, nil, true)
	return core.ApplyMessage(c.evm(st, msg, number), msg, new(core.GasPool).AddGas(gasCap*10))
}

// Try says whether a message would succeed in the next block; it changes nothing.
func (c *Chain) Try(from common.Address, to common.Address, data []byte) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	res, err := c.simulate(0, true, from, &to, nil, data)
	if err != nil {
		return err
	}
	return revertErr(res)
}

// Read calls a contract at a block.
func (c *Chain) Read(block uint64, to common.Address, data []byte) ([]byte, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	res, err := c.simulate(block, false, common.Address{}, &to, nil, data)
	if err != nil {
		return nil, err
	}
	return res.Return(), revertErr(res)
}

// Logs returns the logs of a block.
func (c *Chain) Logs(block uint64) []*types.Log {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.logs[block]
}

// ---------------------------------------------------------------- JSON-RPC

type api struct {
	c *Chain
	// hook may answer requests of one client, see ClientWith
	hook func(method string, data []byte) error
}

// Answer is an error by which a hook answers a request for a gas estimate.
type Answer uint64

func (g Answer) Error() string { return fmt.Sprintf("answer %d", uint64(g)) }

func (a *api) enter(method string, data ...[]byte) error {
	if a.hook != nil {
		var d []byte
		if len(data) > 0 {
			d = data[0]
		}
		if err := a.hook(method, d); err != nil {
			return err
		}
	}
	a.c.mu.Lock()
	a.c.Requests[method]++
	f := a.c.Fault
	a.c.mu.Unlock()
	if f != nil {
		return f(method)
	}
	return nil
}

func (a *api) blockNumber(n rpc.BlockNumber) (uint64, bool, error) {
	switch n {
	case rpc.LatestBlockNumber:
		return a.c.visible(), false, nil
	case rpc.PendingBlockNumber:
		return a.c.visible(), true, nil
	}
	if n < 0 || uint64(n) > a.c.head() {
		return 0, false, errors.New("header not found")
	}
	return uint64(n), false, nil
}

func (a *api) ChainId() (*hexutil.Big, error) {
	return (*hexutil.Big)(chainConfig.ChainID), a.enter("chainId")
}

func (a *api) GasPrice() (*hexutil.Big, error) {
	return (*hexutil.Big)(big.NewInt(1_000_000_000)), a.enter("gasPrice")
}

func (a *api) Syncing() (interface{}, error) {
	if err := a.enter("syncing"); err != nil {
		return nil, err
	}
	if a.c.Syncing != nil {
		return a.c.Syncing(), nil
	}
	return false, nil
}

func (a *api) BlockNumber() (hexutil.Uint64, error) {
	if err := a.enter("blockNumber"); err != nil {
		return 0, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	return hexutil.Uint64(a.c.visible()), nil
}

func (a *api) GetBlockByNumber(n rpc.BlockNumber, full bool) (map[string]interface{}, error) {
	if err := a.enter("getBlockByNumber"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	b, _, err := a.blockNumber(n)
	if err != nil {
		return nil, nil
	}
	h := a.c.headers[b]
	j, _ := json.Marshal(h)
	m := map[string]interface{}{}
	_ = json.Unmarshal(j, &m)
	m["hash"] = h.Hash()
	m["transactions"] = []interface{}{}
	m["uncles"] = []interface{}{}
	return m, nil
}

type callArgs struct {
	From     *common.Address `json:"from"`
	To       *common.Address `json:"to"`
	Value    *hexutil.Big    `json:"value"`
	Data     *hexutil.Bytes  `json:"data"`
	Input    *hexutil.Bytes  `json:"input"`
	Gas      *hexutil.Uint64 `json:"gas"`
	GasPrice *hexutil.Big    `json:"gasPrice"`
}

func (x callArgs) parts() (from common.Address, to *common.Address, value *big.Int, data []byte) {
	if x.From != nil {
		from = *x.From
	}
	if x.Data != nil {
		data = *x.Data
	}
	if x.Input != nil {
		data = *x.Input
	}
	return from, x.To, (*big.Int)(x.Value), data
}

func (a *api) Call(x callArgs, n rpc.BlockNumberOrHash) (hexutil.Bytes, error) {
	if err := a.enter("call"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	num, _ := n.Number()
	b, pending, err := a.blockNumber(num)
	if err != nil {
		return nil, err
	}
	from, to, value, data := x.parts()
	res, err := a.c.simulate(b, pending, from, to, value, data)
	if err != nil {
		return nil, err
	}
	return res.Return(), revertErr(res)
}

func (a *api) EstimateGas(x callArgs) (hexutil.Uint64, error) {
	from, to, value, data := x.parts()
	if err := a.enter("estimateGas", data); err != nil {
		if g, ok := err.(Answer); ok {
			return hexutil.Uint64(g), nil
		}
		return 0, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	res, err := a.c.simulate(0, true, from, to, value, data)
	if err != nil {
		return 0, err
	}
	if err := revertErr(res); err != nil {
		return 0, err
	}
	return hexutil.Uint64(res.UsedGas*2 + 100_000), nil
}

func (a *api) GetCode(addr common.Address, n rpc.BlockNumberOrHash) (hexutil.Bytes, error) {
	if err := a.enter("getCode"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	return a.c.cur.GetCode(addr), nil
}

func (a *api) GetTransactionCount(addr common.Address, n rpc.BlockNumberOrHash) (hexutil.Uint64, error) {
	if err := a.enter("getTransactionCount"); err != nil {
		return 0, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	k := a.c.cur.GetNonce(addr)
	for _, t := range a.c.pending {
		if t.from == addr {
			k++
		}
	}
	return hexutil.Uint64(k), nil
}

type filterArgs struct {
	FromBlock *rpc.BlockNumber `json:"fromBlock"`
	ToBlock   *rpc.BlockNumber `json:"toBlock"`
	Address   []common.Address `json:"address"`
	Topics    [][]common.Hash  `json:"topics"`
}

func (a *api) GetLogs(f filterArgs) ([]*types.Log, error) {
	if err := a.enter("getLogs"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	from, to := a.c.visible(), a.c.visible()
	if f.FromBlock != nil && *f.FromBlock >= 0 {
		from = uint64(*f.FromBlock)
	}
	if f.ToBlock != nil && *f.ToBlock >= 0 {
		to = uint64(*f.ToBlock)
	}
	out := []*types.Log{}
	for b := from; b <= to && b <= a.c.head(); b++ {
	logs:
		for _, l := range a.c.logs[b] {
			ok := len(f.Address) == 0
			for _, x := range f.Address {
				ok = ok || x == l.Address
			}
			if !ok || len(f.Topics) > len(l.Topics) {
				continue
			}
			for i, alts := range f.Topics {
				ok := len(alts) == 0
				for _, x := range alts {
					ok = ok || x == l.Topics[i]
				}
				if !ok {
					continue logs
				}
			}
			out = append(out, l)
		}
	}
	return out, nil
}

func (a *api) SendRawTransaction(raw hexutil.Bytes) (common.Hash, error) {
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		return common.Hash{}, err
	}
	if err := a.enter("sendRawTransaction", tx.Data()); err != nil {
		return common.Hash{}, err
	}
	from, err := types.Sender(types.LatestSignerForChainID(chainConfig.ChainID), tx)
	if err != nil {
		return common.Hash{}, err
	}
	if err := a.take(tx, from); err != nil {
		return common.Hash{}, err
	}
	if a.hook != nil {
		if err := a.hook("sentRawTransaction", tx.Data()); err != nil {
			return common.Hash{}, err
		}
	}
	return tx.Hash(), nil
}

func (a *api) take(tx *types.Transaction, from common.Address) error {
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	k := a.c.cur.GetNonce(from)
	for _, t := range a.c.pending {
		if t.from == from {
			k++
		}
	}
	if tx.Nonce() < k {
		return core.ErrNonceTooLow
	}
	if tx.Nonce() > k {
		return core.ErrNonceTooHigh
	}
	t := &txInfo{tx: tx, from: from}
	a.c.txs[tx.Hash()] = t
	a.c.pending = append(a.c.pending, t)
	a.c.taken = append(a.c.taken, tx)
	if a.c.AutoMine {
		a.c.minePending()
		a.c.seal()
	}
	return a.enterLocked("sentRawTransaction")
}

// enterLocked lets a request fail after it had its effect.
func (a *api) enterLocked(method string) error {
	a.c.Requests[method]++
	if a.c.Fault != nil {
		return a.c.Fault(method)
	}
	return nil
}

func (a *api) GetTransactionReceipt(h common.Hash) (map[string]interface{}, error) {
	if err := a.enter("getTransactionReceipt"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	t, ok := a.c.txs[h]
	if !ok || !t.mined || t.block > a.c.visible() {
		return nil, nil
	}
	j, err := json.Marshal(t.receipt)
	if err != nil {
		return nil, err
	}
	m := map[string]interface{}{}
	return m, json.Unmarshal(j, &m)
}

func (a *api) GetTransactionByHash(h common.Hash) (map[string]interface{}, error) {
	if err := a.enter("getTransactionByHash"); err != nil {
		return nil, err
	}
	a.c.mu.Lock()
	defer a.c.mu.Unlock()
	t, ok := a.c.txs[h]
	if !ok {
		return nil, nil
	}
	j, err := json.Marshal(t.tx)
	if err != nil {
		return nil, err
	}
	m := map[string]interface{}{}
	if err := json.Unmarshal(j, &m); err != nil {
		return nil, err
	}
	m["from"] = t.from
	if t.mined {
		m["blockNumber"] = hexutil.Uint64(t.block)
		m["blockHash"] = a.c.headers[t.block].Hash()
	}
	return m, nil
}

// NewHeads is the subscription to new block headers.
func (a *api) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	if err := a.enter("newHeads"); err != nil {
		return nil, err
	}
	notifier, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	sub := notifier.CreateSubscription()
	ch := make(chan *types.Header, 10000)
	a.c.mu.Lock()
	a.c.heads[ch] = true
	a.c.mu.Unlock()
	go func() {
		defer func() {
			a.c.mu.Lock()
			delete(a.c.heads, ch)
			a.c.mu.Unlock()
		}()
		for {
			select {
			case h := <-ch:
				_ = notifier.Notify(sub.ID, h)
			case <-sub.Err():
				return
			case <-notifier.Closed():
				return
			}
		}
	}()
	return sub, nil
}

// SetFault sets the function that may let requests fail.
func (c *Chain) SetFault(f func(method string) error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Fault = f
}

// Announce tells the subscribers about the (visible) head again.
func (c *Chain) Announce() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for ch := range c.heads {
		select {
		case ch <- c.headers[c.visible()]:
		default:
		}
	}
}

// Subscribers returns the number of subscriptions to new heads.
func (c *Chain) Subscribers() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.heads)
}

func (c *Chain) server() *rpc.Server {
	if c.srv == nil {
		c.srv = rpc.NewServer()
		if err := c.srv.RegisterName("eth", &api{c: c}); err != nil {
			panic(err)
		}
	}
	return c.srv
}

// Client returns an ethclient connected in process.
func (c *Chain) Client() *ethclient.Client { return ethclient.NewClient(rpc.DialInProc(c.server())) }

// ClientWith returns a client whose requests go through a hook: it may let them fail, or wait. It
// is called with the call data for gas estimates, and for transactions before (sendRawTransaction)
// and after (sentRawTransaction) they are taken up.
func (c *Chain) ClientWith(hook func(method string, data []byte) error) *ethclient.Client {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", &api{c: c, hook: hook}); err != nil {
		panic(err)
	}
	return ethclient.NewClient(rpc.DialInProc(srv))
}

// Serve serves the chain over websockets and http until close is called.
func (c *Chain) Serve() (wsURL string, stop func()) { return serve(c.server()) }

// ServeWith serves the chain over websockets to one client whose requests go through a hook, see ClientWith.
func (c *Chain) ServeWith(hook func(method string, data []byte) error) (wsURL string, stop func()) {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", &api{c: c, hook: hook}); err != nil {
		panic(err)
	}
	return serve(srv)
}

func serve(srv *rpc.Server) (wsURL string, stop func()) {
	ws := srv.WebsocketHandler([]string{"*"})
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
			ws.ServeHTTP(w, r)
			return
		}
		srv.ServeHTTP(w, r)
	}))
	return "ws" + strings.TrimPrefix(h.URL, "http"), func() { srv.Stop(); h.CloseClientConnections(); go h.Close() }
}

var _ = ethereum.NotFound
