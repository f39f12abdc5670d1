package c24

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ck"
	"verif/mint/kk"
	"verif/mint/pk"
	"verif/vh"
)

// TestMain also lets the test binary act as the shuttermint program.
func TestMain(m *testing.M) {
	pk.Program()
	vh.Main(m)
}

func TestDKG(t *testing.T) {
	vh.Check(t, "restarts while a DKG was going on that succeeded", vh.N(100, 8000), func(t *rapid.T, c *vh.C) {
		ck.Run(t, c, ck.Mix{Focus: "C24", Turns: 80, Configs: 3, Byz: 40, Late: 50, Odd: 10, Restart: 5, Finish: true})
	})
}

func TestBatches(t *testing.T) {
	vh.Check(t, "a keyper that releases shares was restarted", vh.N(240, 16000), func(t *rapid.T, c *vh.C) {
		kk.Run(t, c, kk.Mix{
			Focus: "C24", Steps: 60, Turns: 40, Lag: 30, Txs: 40, Garbage: 10, ByzShare: 4, ByzSign: 15, ByzExec: 15, ByzAccuse: 10,
			BigSteps: 5, Configs: 3, Rounds: 6, Finish: true, Restart: 12,
		})
	})
}

func TestPrograms(t *testing.T) {
	vh.Check(t, "keyper programs were restarted and batches were judged at the end", vh.N(60, 3000), func(t *rapid.T, c *vh.C) {
		pk.Run(t, c, 150)
	})
}
