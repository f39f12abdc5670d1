package c27

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/kk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestHalfSteps(t *testing.T) {
	vh.Check(t, "a cipher and a plain half step were sent", vh.N(500, 20000), func(t *rapid.T, c *vh.C) {
		kk.Run(t, c, kk.Mix{Focus: "C27", Steps: 60, Turns: 40, Lag: 20, Txs: 20, Garbage: 10, ByzShare: 1, ByzSign: 4, ByzExec: 6, Jump: 1, BigSteps: 10, Configs: 4, Finish: true})
	})
}
