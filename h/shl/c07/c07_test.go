package c07

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"pgregory.net/rapid"

	"verif/shl/kit"
	"verif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

func drawKey(t *rapid.T, label string) *shcrypto.EpochSecretKey {
	return (*shcrypto.EpochSecretKey)(kit.G1(kit.DrawScalar(t, label)))
}

// perm is the permutation the code applies to n distinguishable items.
func perm(n int, key *shcrypto.EpochSecretKey) []int {
	txs := make([][]byte, n)
	for i := range txs {
		txs[i] = []byte{byte(i >> 8), byte(i)}
	}
	out := shcrypto.Shuffle(txs, key)
	p := make([]int, len(out))
	for i, x := range out {
		p[i] = int(x[0])<<8 | int(x[1])
	}
	return p
}

// TestPermutation: content-independent permutation of the input.
func TestPermutation(t *testing.T) {
	vh.Check(t, "transaction lists with duplicates, empty items and shared backing, shuffled repeatedly, with other global randomness, and through a re-decoded key; non-trivial: two or more items", vh.N(6000, 120000), func(t *rapid.T, c *vh.C) {
		n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 300)).Draw(t, "n")
		key := drawKey(t, "key")
		backing := make([][]byte, n+3)
		for i := range backing {
			backing[i] = []byte("sentinel")
		}
		txs := backing[:n]
		small := rapid.Bool().Draw(t, "dups")
		for i := range txs {
			if small {
				txs[i] = bytes.Repeat([]byte{7}, rapid.IntRange(0, 2).Draw(t, "tx"))
			} else {
				txs[i] = kit.Expand(uint64(i), "tx", rapid.IntRange(0, 40).Draw(t, "len"))
			}
		}
		in := []string{}
		for _, b := range txs {
			in = append(in, string(b))
		}
		rand.Seed(rapid.Int64().Draw(t, "global")) //nolint
		out := shcrypto.Shuffle(txs, key)
		for i, b := range txs {
			if string(b) != in[i] {
				t.Fatalf("input item %d was changed", i)
			}
		}
		for i := n; i < len(backing); i++ {
			if string(backing[i]) != "sentinel" {
				t.Fatalf("memory behind the input was changed")
			}
		}
		if len(out) != n {
			t.Fatalf("%d items became %d", n, len(out))
		}
		a := append([]string{}, in...)
		b := []string{}
		for _, x := range out {
			b = append(b, string(x))
		}
		sort.Strings(a)
		bs := append([]string{}, b...)
		sort.Strings(bs)
		for i := range a {
			if a[i] != bs[i] {
				t.Fatalf("not a permutation")
			}
		}
		// the permutation is a function of key and length only
		rand.Seed(rapid.Int64().Draw(t, "global2")) //nolint
		copyKey := new(shcrypto.EpochSecretKey)
		if err := copyKey.Unmarshal(key.Marshal()); err != nil {
			t.Fatalf("%v", err)
		}
		p := perm(n, copyKey)
		for i := range p {
			if b[i] != in[p[i]] {
				t.Fatalf("content changes the permutation: position %d holds %x, expected item %d", i, b[i], p[i])
			}
		}
		if n > 0 { // result is the caller's: reordering it must not touch the input
			out[0], out[n-1] = out[n-1], []byte("mine")
			for i, x := range txs {
				if string(x) != in[i] {
					t.Fatalf("result aliases the input list")
				}
			}
		}
		c.Case(n >= 2, "n=%d key=%x dups=%v", n, key.Marshal()[:8], small)
	})
}

// TestUniform: over many keys all orders and all positions occur about equally often.
func TestUniform(t *testing.T) {
	vh.Check(t, "thousands of keys per case: counts of all n! orders (n<=4) and of (item,position) pairs (n up to 40), within 6.5 standard deviations; also consecutive keys give unrelated orders; non-trivial: every case", vh.N(8, 60), func(t *rapid.T, c *vh.C) {
		n := rapid.SampledFrom([]int{2, 3, 4, 7, 12, 40}).Draw(t, "n")
		seed := rapid.Uint64Range(0, 1<<40).Draw(t, "seed")
		trials := 6000
		orders := map[string]int{}
		pos := make([]int, n*n)
		same := 0
		prev := ""
		for i := 0; i < trials; i++ {
			p := perm(n, (*shcrypto.EpochSecretKey)(kit.G1(kit.Scalar(seed, fmt.Sprint("k", i)))))
			s := fmt.Sprint(p)
			orders[s]++
			if s == prev {
				same++
			}
			prev = s
			for a, b := range p {
				pos[a*n+b]++
			}
		}
		bound := func(name string, count int, prob float64) {
			mean := float64(trials) * prob
			dev := float64(count) - mean
			// 6.5 sigma plus slack for small means
			if lim := 6.5*sqrt(mean*(1-prob)) + 4; dev > lim || dev < -lim {
				t.Fatalf("n=%d: %s occurred %d times, expected about %.1f", n, name, count, mean)
			}
		}
		if n <= 4 {
			f := 1
			for i := 2; i <= n; i++ {
				f *= i
			}
			if len(orders) != f {
				t.Fatalf("n=%d: only %d of %d orders are reached", n, len(orders), f)
			}
			for o, k := range orders {
				bound("order "+o, k, 1/float64(f))
			}
			bound("repeating the previous order", same, 1/float64(f))
		} else if len(orders) < trials*9/10 && n >= 12 {
			t.Fatalf("n=%d: only %d different orders from %d keys", n, len(orders), trials)
		}
		for i, k := range pos {
			bound(fmt.Sprintf("item %d at position %d", i%n, i/n), k, 1/float64(n))
		}
		c.Case(true, "n=%d seed=%d orders=%d", n, seed, len(orders))
	})
}

func sqrt(x float64) float64 {
	f, _ := new(big.Float).Sqrt(big.NewFloat(x)).Float64()
	return f
}

// TestKeySensitivity: every kind of key change can change the order (whole key is used).
func TestKeySensitivity(t *testing.T) {
	vh.Check(t, "pairs of different keys, incl. a key and its negative, on 64 items; non-trivial: keys differ", vh.N(1500, 40000), func(t *rapid.T, c *vh.C) {
		v := kit.DrawScalar(t, "v")
		w := kit.DrawScalar(t, "w")
		if rapid.Bool().Draw(t, "neg") {
			w = new(big.Int).Mod(new(big.Int).Neg(v), kit.Q)
		}
		a := perm(64, (*shcrypto.EpochSecretKey)(kit.G1(v)))
		b := perm(64, (*shcrypto.EpochSecretKey)(kit.G1(w)))
		if (fmt.Sprint(a) == fmt.Sprint(b)) != (v.Cmp(w) == 0) {
			t.Fatalf("keys %v and %v: same order of 64 items: %v", v, w, fmt.Sprint(a) == fmt.Sprint(b))
		}
		c.Case(v.Cmp(w) != 0, "%x %x", v, w)
	})
}
