// Package tk is a stand-in for a Tendermint node: a chain of blocks with Tendermint's own transaction index,
// reachable through the client interface or through Tendermint's RPC protocol (server.go).
package tk

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"sync"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/pubsub/query"
	"github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	"github.com/tendermint/tendermint/state/txindex"
	"github.com/tendermint/tendermint/state/txindex/kv"
	tmtypes "github.com/tendermint/tendermint/types"
	tmdb "github.com/tendermint/tm-db"

	"verif/vh"
)

// Chain is a chain of blocks.
type Chain struct {
	mu         sync.Mutex
	ID         string
	height     int64
	visible    *int64
	catchingUp bool
	idx        *kv.TxIndex
	fault      func(method string) error
	subs       map[int]chan ctypes.ResultEvent
	nsubs      int
	seen       map[string]bool
	results    [][]*abcitypes.ResponseDeliverTx // of all blocks
}

// New makes an empty chain.
func New(id string) *Chain {
	return &Chain{ID: id, idx: kv.NewTxIndex(tmdb.NewMemDB()), subs: map[int]chan ctypes.ResultEvent{}, seen: map[string]bool{}}
}

// Seen says if these transaction bytes are already part of the chain (Tendermint's index knows only the last result then).
func (c *Chain) Seen(tx []byte) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.seen[string(tx)]
}

// Add appends a block with the given transactions and their results.
func (c *Chain) Add(txs [][]byte, res []abcitypes.ResponseDeliverTx) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.height++
	b := txindex.NewBatch(int64(len(txs)))
	c.results = append(c.results, nil)
	for i := range txs {
		vh.Harness(b.Add(&abcitypes.TxResult{Height: c.height, Index: uint32(i), Tx: txs[i], Result: res[i]}), "index")
		c.seen[string(txs[i])] = true
		r := res[i]
		c.results[c.height-1] = append(c.results[c.height-1], &r)
	}
	if len(txs) > 0 {
		vh.Harness(c.idx.AddBatch(b), "index")
	}
	return c.height
}

// Height is the height of the last block.
func (c *Chain) Height() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.height
}

// SetVisible makes the node show an older head, nil the real one.
func (c *Chain) SetVisible(h *int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.visible = h
}

// SetCatchingUp makes the node say that it is syncing.
func (c *Chain) SetCatchingUp(b bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.catchingUp = b
}

// SetFault installs a function that may make requests fail.
func (c *Chain) SetFault(f func(method string) error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fault = f
}

// Head is the height of the last block the node shows.
func (c *Chain) Head() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.head()
}

func (c *Chain) head() int64 {
	if c.visible != nil {
		return *c.visible
	}
	return c.height
}

func (c *Chain) enter(ctx context.Context, method string) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	c.mu.Lock()
	f := c.fault
	c.mu.Unlock()
	if f != nil {
		return f(method)
	}
	return nil
}

// Announce tells subscribers about a new block and gives up on those that don't listen.
func (c *Chain) Announce() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, s := range c.subs {
		select {
		case s <- ctypes.ResultEvent{Query: "tm.event = 'NewBlock'"}:
		default:
		}
	}
}

// Subscribers counts subscriptions.
func (c *Chain) Subscribers() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.subs)
}

func (c *Chain) subscribe(size int) (int, chan ctypes.ResultEvent) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nsubs++
	ch := make(chan ctypes.ResultEvent, size)
	c.subs[c.nsubs] = ch
	return c.nsubs, ch
}

func (c *Chain) unsubscribe(id int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.subs, id)
}

// Block answers as Tendermint: the last block carries the commit of the one before.
func (c *Chain) Block(ctx context.Context, height *int64) (*ctypes.ResultBlock, error) {
	if err := c.enter(ctx, "block"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	h := c.head()
	if height != nil {
		h = *height
	}
	if h == 0 {
		return &ctypes.ResultBlock{}, nil
	}
	return &ctypes.ResultBlock{Block: &tmtypes.Block{
		Header:     tmtypes.Header{ChainID: c.ID, Height: h},
		LastCommit: &tmtypes.Commit{Height: h - 1},
	}}, nil
}

// Status of the node.
func (c *Chain) Status(ctx context.Context) (*ctypes.ResultStatus, error) {
	if err := c.enter(ctx, "status"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	return &ctypes.ResultStatus{SyncInfo: ctypes.SyncInfo{LatestBlockHeight: c.head(), CatchingUp: c.catchingUp}}, nil
}

// BlockchainInfo answers as Tendermint, see rpc/core/blocks.go.
func (c *Chain) BlockchainInfo(ctx context.Context, low, high int64) (*ctypes.ResultBlockchainInfo, error) {
	if err := c.enter(ctx, "blockchain"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if low < 0 || high < 0 {
		return nil, errors.New("heights must be non-negative")
	}
	if low == 0 {
		low = 1
	}
	if high == 0 || high > c.head() {
		high = c.head()
	}
	if low < high-19 {
		low = high - 19
	}
	if low > high {
		return nil, fmt.Errorf("min height %d can't be greater than max height %d", low, high)
	}
	r := &ctypes.ResultBlockchainInfo{LastHeight: c.head()}
	for h := high; h >= low; h-- {
		r.BlockMetas = append(r.BlockMetas, &tmtypes.BlockMeta{Header: tmtypes.Header{ChainID: c.ID, Height: h}, NumTxs: len(c.results[h-1])})
	}
	return r, nil
}

// BlockResults answers as Tendermint, see rpc/core/blocks.go.
func (c *Chain) BlockResults(ctx context.Context, height *int64) (*ctypes.ResultBlockResults, error) {
	if err := c.enter(ctx, "block_results"); err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	h := c.head()
	if height != nil {
		h = *height
	}
	if h <= 0 {
		return nil, errors.New("height must be greater than 0")
	}
	if h > c.head() {
		return nil, fmt.Errorf("height %d must be less than or equal to the current blockchain height %d", h, c.head())
	}
	return &ctypes.ResultBlockResults{Height: h, TxsResults: c.results[h-1]}, nil
}

// TxSearch is Tendermint's, see rpc/core/tx.go.
func (c *Chain) TxSearch(ctx context.Context, q string, _ bool, pagePtr, perPagePtr *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	if err := c.enter(ctx, "tx_search"); err != nil {
		return nil, err
	}
	qu, err := query.New(q)
	if err != nil {
		return nil, err
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	found, err := c.idx.Search(ctx, qu)
	if err != nil {
		return nil, err
	}
	var rs []*abcitypes.TxResult
	for _, r := range found {
		if r.Height <= c.head() {
			rs = append(rs, r)
		}
	}
	less := func(i, j int) bool {
		if rs[i].Height == rs[j].Height {
			return rs[i].Index < rs[j].Index
		}
		return rs[i].Height < rs[j].Height
	}
	switch orderBy {
	case "desc":
		sort.Slice(rs, func(i, j int) bool { return less(j, i) })
	case "asc", "":
		sort.Slice(rs, less)
	default:
		return nil, errors.New("expected order_by to be either `asc` or `desc` or empty")
	}
	per := 30
	if perPagePtr != nil && *perPagePtr >= 1 {
		per = *perPagePtr
		if per > 100 {
			per = 100
		}
	}
	pages := (len(rs)-1)/per + 1
	if pages == 0 {
		pages = 1
	}
	page := 1
	if pagePtr != nil {
		page = *pagePtr
	}
	if page <= 0 || page > pages {
		return nil, errors.New("page out of range")
	}
	res := &ctypes.ResultTxSearch{TotalCount: len(rs)}
	for i := (page - 1) * per; i < len(rs) && i < page*per; i++ {
		r := rs[i]
		res.Txs = append(res.Txs, &ctypes.ResultTx{Hash: tmtypes.Tx(r.Tx).Hash(), Height: r.Height, Index: r.Index, TxResult: r.Result, Tx: r.Tx})
	}
	return res, nil
}

// Client talks to the chain without a network in between.
type Client struct {
	client.Client // not implemented: everything else
	*Chain
}

// Client makes a client.
func (c *Chain) Client() *Client { return &Client{Chain: c} }

// Block and the like are the chain's.
func (c *Client) Block(ctx context.Context, h *int64) (*ctypes.ResultBlock, error) {
	return c.Chain.Block(ctx, h)
}

// Status asks the chain.
func (c *Client) Status(ctx context.Context) (*ctypes.ResultStatus, error) {
	return c.Chain.Status(ctx)
}

// BlockchainInfo asks the chain.
func (c *Client) BlockchainInfo(ctx context.Context, a, b int64) (*ctypes.ResultBlockchainInfo, error) {
	return c.Chain.BlockchainInfo(ctx, a, b)
}

// BlockResults asks the chain.
func (c *Client) BlockResults(ctx context.Context, h *int64) (*ctypes.ResultBlockResults, error) {
	return c.Chain.BlockResults(ctx, h)
}

// TxSearch asks the chain.
func (c *Client) TxSearch(ctx context.Context, q string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	return c.Chain.TxSearch(ctx, q, prove, page, perPage, orderBy)
}

// Subscribe to new blocks.
func (c *Client) Subscribe(ctx context.Context, _, _ string, _ ...int) (<-chan ctypes.ResultEvent, error) {
	if err := c.enter(ctx, "subscribe"); err != nil {
		return nil, err
	}
	_, ch := c.subscribe(1)
	return ch, nil
}
