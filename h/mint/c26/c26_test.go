package c26

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/kk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestSignatures(t *testing.T) {
	vh.Check(t, "a keyper signed a batch", vh.N(400, 20000), func(t *rapid.T, c *vh.C) {
		kk.Run(t, c, kk.Mix{Focus: "C26", Steps: 60, Turns: 40, Lag: 30, Txs: 40, Garbage: 30, ByzShare: 4, ByzSign: 25, ByzExec: 2, BigSteps: 5, Configs: 3, Rounds: 6})
	})
}
