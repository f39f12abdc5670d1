package ek

import (
	"context"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
)

func TestKit(t *testing.T) {
	for i := 0; i < 3; i++ {
		t0 := time.Now()
		w := NewWorld()
		key, _ := crypto.GenerateKey()
		me := crypto.PubkeyToAddress(key.PublicKey)
		bc := contract.BatchConfig{StartBlockNumber: 50, Keypers: []common.Address{me}, Threshold: 1, BatchSpan: 5, BatchSizeLimit: 1000, TransactionSizeLimit: 100, TransactionGasLimit: 100000, ExecutionTimeout: 10}
		if err := w.Schedule(bc); err != nil {
			t.Fatal(err)
		}
		w.MineTo(52)
		if err := w.AddTx(me, 0, 0, []byte("hello")); err != nil {
			t.Fatal(err)
		}
		if err := w.GiveTokens(me, 100); err != nil {
			t.Fatal(err)
		}
		if err := w.MakeDeposit(me, 50, 3); err != nil {
			t.Fatal(err)
		}
		w.Mine(1)
		t.Log(time.Since(t0))
		cc := w.Caller(key)
		m, err := observe.NewMainChain(0).SyncToHead(context.Background(), cc)
		if err != nil {
			t.Fatal(err)
		}
		t.Logf("%+v %v", m, time.Since(t0))
		heads := make(chan *types.Header)
		url, stop := w.Serve()
		_ = url
		sub, err := cc.Ethclient.SubscribeNewHead(context.Background(), heads)
		if err != nil {
			t.Fatal(err)
		}
		w.MineTo(60)
		t.Log((<-heads).Number)
		sub.Unsubscribe()
		auth, err := cc.Auth()
		if err != nil {
			t.Fatal(err)
		}
		auth.GasLimit = 1000000
		tx, err := cc.ExecutorContract.ExecuteCipherBatch(auth, 0, w.BatchHash(60, 0, 0), [][]byte{[]byte("x")}, 0)
		if err != nil {
			t.Fatal(err)
		}
		w.Mine(1)
		r, err := cc.Ethclient.TransactionReceipt(context.Background(), tx.Hash())
		t.Log(r.Status, err, w.HalfSteps(w.Head()))
		_, _, err = cc.Ethclient.TransactionByHash(context.Background(), tx.Hash())
		auth, _ = cc.Auth()
		_, err2 := cc.KeyperSlasher.Accuse(auth, 2, 0)
		t.Log(err, err2, time.Since(t0))
		stop()
	}
}
