package c35

import (
	"testing"

	"pgregory.net/rapid"

	"verif/mint/ck"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func TestConfigs(t *testing.T) {
	vh.Check(t, "a config scheduled later was adopted", vh.N(640, 8000), func(t *rapid.T, c *vh.C) {
		ck.Run(t, c, ck.Mix{Focus: "C35", Turns: 150, Configs: 5, Byz: 20, Late: 30, Odd: 35})
	})
}
