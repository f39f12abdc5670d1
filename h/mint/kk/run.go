package kk

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verif/mint/ek"
	"verif/vh"
)

// Run runs keypers for a while.
func Run(t *rapid.T, c *vh.C, mix Mix) *Sim {
	s := New(t, c, mix)
	// up to the first config
	start := s.O.Configs[1].StartBlockNumber
	if !s.pct(10, "adopted late") {
		s.adopt()
		s.shBlock(int(rapid.Int64Range(0, 10).Draw(t, "empty blocks")))
	}
	s.mine(int(start - s.O.Head() - 1))
	for i := 0; i < mix.Steps && !s.stop; i++ {
		s.op()
	}
	for i := 0; i < mix.Rounds && !s.stop; i++ {
		s.round()
	}
	if mix.Finish && s.pct(30, "finish") && !s.stop {
		s.finish()
	}
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
	var ks []string
	for k, n := range s.N {
		c.ClassN(k, n)
		ks = append(ks, fmt.Sprint(k, " ", n))
	}
	sort.Strings(ks)
	c.Case(s.N["decisions"] > 0 && !s.stop && s.interesting(), "%s\n%s", strings.Join(ks, ", "), strings.Join(s.hist, "\n"))
	return s
}

func (s *Sim) interesting() bool {
	switch s.mix.Focus {
	case "C25":
		return s.N["shares released"] > 0
	case "C26":
		return s.N["signatures sent"] > 0
	case "C24":
		return s.N["restarts"] > 0 && s.N["shares released"] > 0
	case "C27":
		return s.N["sent cipher"] > 0 && s.N["sent plain"] > 0
	default:
		return s.N["wrong executions seen"]+s.N["wrong accusations seen"] > 0
	}
}

// op is a random event.
func (s *Sim) op() {
	t, m := s.t, s.mix
	w := []struct {
		n    int
		what string
		f    func()
	}{
		{m.Turns, "turn", s.turn},
		{8, "block", func() {
			n := rapid.IntRange(1, 3).Draw(t, "blocks")
			if s.pct(m.BigSteps, "many blocks") {
				n = rapid.IntRange(4, 40).Draw(t, "blocks")
			}
			s.mine(n)
			s.logf("main chain at %d", s.O.Head())
		}},
		{6, "Shuttermint block", func() { s.relay(50) }},
		{8, "keyper", func() { s.look(s.Kps[vh.Pick(len(s.Kps)).Draw(t, "keyper")]) }},
		{4, "send", func() {
			s.Kps[vh.Pick(len(s.Kps)).Draw(t, "keyper")].send(rapid.IntRange(1, 11).Draw(t, "transactions"))
		}},
		{m.Txs, "user", s.addTx},
		{m.ByzShare, "Byzantine share", s.byzShare},
		{m.ByzSign, "Byzantine signature", s.byzSign},
		{m.ByzExec, "Byzantine execution", s.byzExec},
		{m.ByzAccuse, "Byzantine accusation", s.byzAccuse},
		{m.Jump, "owner", s.ownerJump},
		{m.Configs, "config", func() {
			if len(s.O.Configs) < 4 && s.O.Configs[len(s.O.Configs)-1].StartBlockNumber <= s.O.Head() {
				s.schedule()
			}
		}},
		{6, "adopt", func() { s.adopt() }},
		{m.Configs / 2, "eon restart", func() {
			if n := len(s.eons); n > 0 && n < 6 {
				e := s.eons[n-1]
				s.startEon(e.Start, e.Keypers, e.Threshold)
				s.shBlock(0)
			}
		}},
		{4, "round", func() { s.round() }},
	}
	sum := 0
	for _, x := range w {
		sum += x.n
	}
	r := vh.Pick(sum).Draw(t, "op")
	for _, x := range w {
		if r < x.n {
			x.f()
			return
		}
		r -= x.n
	}
}

// turn lets some time pass in which most keypers do most of what there is to do.
func (s *Sim) turn() {
	for _, k := range s.Kps {
		if s.pct(75, "sends") {
			k.send(rapid.IntRange(1, 11).Draw(s.t, "transactions"))
		}
	}
	s.mine(rapid.IntRange(0, 2).Draw(s.t, "blocks"))
	s.relay(75)
	for _, i := range rapid.Permutation(s.order()).Draw(s.t, "order") {
		if s.pct(75, "looks") && !s.stop {
			s.look(s.Kps[i])
		}
	}
}

func (s *Sim) order() []int {
	var r []int
	for i := range s.Kps {
		r = append(r, i)
	}
	return r
}

// relay makes a Shuttermint block of some of the keypers' messages.
func (s *Sim) relay(pct int) {
	for _, k := range s.Kps {
		if len(k.outbox) > 0 && s.pct(pct, "relay") {
			s.deliver(k, rapid.IntRange(1, 10).Draw(s.t, "messages"))
		}
	}
	s.shBlock(rapid.IntRange(0, 2).Draw(s.t, "empty blocks"))
}

// look lets a keyper see news and decide.
func (s *Sim) look(k *Kp) {
	block, height := s.O.Head(), s.tc.Height()
	if s.pct(s.mix.Lag, "lag") {
		block -= uint64(rapid.IntRange(0, int(min(block-1, 12))).Draw(s.t, "main chain lag"))
	}
	if s.pct(s.mix.Lag, "lag") {
		height -= int64(rapid.IntRange(0, int(min(uint64(height-1), 8))).Draw(s.t, "Shuttermint lag"))
	}
	switch vh.Pick(6).Draw(s.t, "news") {
	case 0:
		block = 0
	case 1:
		height = 0
	}
	if block > 0 && block <= k.main.CurrentBlock+k.cfg.MainChainFollowDistance {
		block = 0
	}
	if height > 0 && height <= k.sh.CurrentBlock {
		height = 0
	}
	k.sync(block, height)
	if k.main.CurrentBlock > 0 && k.main.CurrentBlock >= s.O.Configs[1].StartBlockNumber-1 {
		k.step()
	}
}

// round lets everybody do everything there is to do.
func (s *Sim) round() {
	for _, k := range s.Kps {
		k.send(11)
	}
	s.mine(1)
	for _, k := range s.Kps {
		s.deliver(k, len(k.outbox))
	}
	s.shBlock(0)
	for _, k := range s.Kps {
		b, h := s.O.Head(), s.tc.Height()
		if b <= k.main.CurrentBlock+k.cfg.MainChainFollowDistance {
			b = 0
		}
		if h <= k.sh.CurrentBlock {
			h = 0
		}
		k.sync(b, h)
		k.step()
		if s.stop {
			return
		}
	}
}

// ownerJump lets the owner set the half steps.
func (s *Sim) ownerJump() {
	n := s.O.HalfStepsNow() + rapid.Uint64Range(1, 5).Draw(s.t, "jump")
	if s.O.SetHalfSteps(n) == nil {
		s.logf("the owner sets the half steps to %d", n)
		s.count("jumps")
	}
}

// finish runs without trouble until all batches that are over have been executed.
func (s *Sim) finish() {
	for s.adopt() {
	}
	target := s.O.Head()
	batches := s.closed(target)
	last := target
	for x := uint64(0); x < batches; x++ {
		c, active := s.batchConfig(x)
		if !active {
			continue
		}
		// cipher half steps may be left until timeout and a delay of half a timeout, plain ones for a delay
		honest := false
		for _, a := range c.Keypers {
			for _, k := range s.Kps {
				honest = honest || k.addr == a
			}
		}
		if !honest {
			batches = x
			break
		}
		if e := end(c, x) + 2*c.ExecutionTimeout; e > last {
			last = e
		}
	}
	// after that, each round finishes at least one half step
	rounds := int(last-s.O.Head()) + 12
	stuck, before := 0, uint64(0)
	for i := 0; !s.stop; i++ {
		n := s.O.HalfSteps(s.O.Head())
		if n >= 2*batches {
			s.count("finished everything")
			return
		}
		if n != before {
			before, stuck = n, 0
		} else if i > rounds {
			stuck++
		}
		if stuck > 20 {
			c, _ := s.batchConfig(n / 2)
			s.fail("C27", "half step %d (keypers %s) is not executed by anybody at block %d", n, s.names(c.Keypers), s.O.Head())
			return
		}
		s.round()
	}
}

var _ = ek.HeadsUp
