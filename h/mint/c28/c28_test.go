package c28

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/kk"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestAccusations(t *testing.T) {
	vh.Check(t, "a wrong execution or a wrong accusation was seen", vh.N(600, 20000), func(t *rapid.T, c *vh.C) {
		kk.Run(t, c, kk.Mix{Focus: "C28", Steps: 60, Turns: 40, Lag: 30, Txs: 40, Garbage: 5, ByzShare: 1, ByzSign: 15, ByzExec: 35, ByzAccuse: 20, BigSteps: 5, Configs: 3, Rounds: 6})
	})
}
