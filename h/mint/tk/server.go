package tk

import (
	"net/http"
	"net/http/httptest"
	"sync"

	"github.com/tendermint/tendermint/libs/log"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	"github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"
)

// Serve serves the chain to one node by Tendermint's RPC protocol. The hook may let requests fail, or wait;
// broadcast does what broadcast_tx_commit does.
func (c *Chain) Serve(hook func(method string) error, broadcast func(tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error)) (url string, stop func()) {
	done := make(chan struct{})
	routes := map[string]*server.RPCFunc{
		"block": server.NewRPCFunc(func(ctx *rpctypes.Context, height *int64) (*ctypes.ResultBlock, error) {
			if err := hook("block"); err != nil {
				return nil, err
			}
			return c.Block(ctx.Context(), height)
		}, "height"),
		"status": server.NewRPCFunc(func(ctx *rpctypes.Context) (*ctypes.ResultStatus, error) {
			if err := hook("status"); err != nil {
				return nil, err
			}
			return c.Status(ctx.Context())
		}, ""),
		"blockchain": server.NewRPCFunc(func(ctx *rpctypes.Context, a, b int64) (*ctypes.ResultBlockchainInfo, error) {
			if err := hook("blockchain"); err != nil {
				return nil, err
			}
			return c.BlockchainInfo(ctx.Context(), a, b)
		}, "minHeight,maxHeight"),
		"block_results": server.NewRPCFunc(func(ctx *rpctypes.Context, height *int64) (*ctypes.ResultBlockResults, error) {
			if err := hook("block_results"); err != nil {
				return nil, err
			}
			return c.BlockResults(ctx.Context(), height)
		}, "height"),
		"tx_search": server.NewRPCFunc(func(ctx *rpctypes.Context, q string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
			if err := hook("tx_search"); err != nil {
				return nil, err
			}
			return c.TxSearch(ctx.Context(), q, prove, page, perPage, orderBy)
		}, "query,prove,page,per_page,order_by"),
		"broadcast_tx_commit": server.NewRPCFunc(func(ctx *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
			return broadcast(tx)
		}, "tx"),
		"subscribe": server.NewWSRPCFunc(func(ctx *rpctypes.Context, q string) (*ctypes.ResultSubscribe, error) {
			if err := hook("subscribe"); err != nil {
				return nil, err
			}
			id, events := c.subscribe(1000)
			conn, req := ctx.WSConn, ctx.JSONReq.ID
			go func() {
				defer c.unsubscribe(id)
				for {
					select {
					case e := <-events:
						e.Query = q
						if err := conn.WriteRPCResponse(conn.Context(), rpctypes.NewRPCSuccessResponse(req, &e)); err != nil {
							return
						}
					case <-conn.Context().Done():
						return
					case <-done:
						return
					}
				}
			}()
			return &ctypes.ResultSubscribe{}, nil
		}, "query"),
	}
	logger := log.NewNopLogger()
	mux := http.NewServeMux()
	ws := server.NewWebsocketManager(routes)
	ws.SetLogger(logger)
	mux.HandleFunc("/websocket", ws.WebsocketHandler)
	server.RegisterRPCFuncs(mux, routes, logger)
	h := httptest.NewServer(mux)
	var once sync.Once
	return h.URL, func() {
		once.Do(func() {
			close(done)
			h.CloseClientConnections()
			go h.Close()
		})
	}
}
