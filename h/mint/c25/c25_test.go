package c25

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/kk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestShares(t *testing.T) {
	vh.Check(t, "a keyper released a share", vh.N(800, 20000), func(t *rapid.T, c *vh.C) {
		kk.Run(t, c, kk.Mix{Focus: "C25", Steps: 60, Turns: 40, Lag: 40, Txs: 2, Garbage: 10, ByzShare: 6, ByzExec: 2, Jump: 1, BigSteps: 10, Configs: 6})
	})
}
