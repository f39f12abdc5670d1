package c23

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ck"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestDKG(t *testing.T) {
	vh.Check(t, "a DKG succeeded", vh.N(640, 8000), func(t *rapid.T, c *vh.C) {
		ck.Run(t, c, ck.Mix{Focus: "C23", Turns: 120, Configs: 3, Byz: 60, Late: 40, Odd: 12, Finish: true})
	})
}
