package ck

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ek"
	"verif/mint/kk"
	"verif/vh"
)

// Run runs keypers for a while.
func Run(t *rapid.T, c *vh.C, mix Mix) {
	s := newSim(t, c, mix)
	defer s.close()
	kk.Deterministic(rapid.Int64Range(0, 1<<40).Draw(t, "randomness"), s.run)
	var ks []string
	for k, n := range s.N {
		c.ClassN(k, n)
		ks = append(ks, fmt.Sprint(k, " ", n))
	}
	sort.Strings(ks)
	c.Case(!s.stop && s.interesting(), "%s\n%s", strings.Join(ks, ", "), strings.Join(s.hist, "\n"))
}

func (s *Sim) interesting() bool {
	switch s.mix.Focus {
	case "C23":
		return s.N["successful DKGs"] > 0
	case "C24":
		return s.N["restarts"] > 0 && s.N["successful DKGs"] > 0
	default:
		return s.N["configs adopted"] > 1
	}
}

func (s *Sim) close() {
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (s *Sim) bootstrap() {
	// the bootstrap command
	i := 1
	if len(s.O.Configs) > 2 && usable(&s.O.Configs[2]) && s.pct(50, "bootstraps with a later config") {
		i = 2
	}
	c := s.O.Configs[i]
	s.block([]draft{
		{key: s.boot, msg: shmsg.NewBatchConfig(c.StartBatchIndex, c.Keypers, c.Threshold, s.O.Config, uint64(i), false, false)},
		{key: s.boot, msg: shmsg.NewBatchConfigStarted(uint64(i))},
	})
}

func (s *Sim) run() {
	t := s.t
	for i := rapid.IntRange(0, 3).Draw(t, "blocks before"); i > 0; i-- {
		s.block(nil)
	}
	if s.pct(15, "second config at once") {
		s.schedule()
	}
	s.bootstrap()
	want := 2 + rapid.IntRange(0, s.mix.Configs-1).Draw(t, "configs")
	// how busy the main chain is: configs start, batches end
	busy := rapid.IntRange(5, 60).Draw(t, "main chain blocks")
	for i := 0; i < s.mix.Turns && !s.stop; i++ {
		if len(s.O.Configs) < want && s.pct(8, "schedule") {
			s.schedule()
		}
		if s.pct(busy, "main chain block") {
			s.O.Mine(1)
		}
		s.turn(false)
		if s.quiet() && len(s.O.Configs) >= want {
			break
		}
	}
	if s.stop {
		return
	}
	// everybody comes back who ever does
	for _, k := range s.Nodes {
		if k.from < never && k.from > s.tc.Height() {
			k.from = s.tc.Height()
			k.early = min64(k.early, k.from)
		}
	}
	late := s.tc.Height()
	for i := 0; i < int(14*s.L) && !s.stop; i++ {
		s.turn(true)
		if i > int(2*s.L) && s.quiet() {
			break
		}
	}
	if s.stop {
		return
	}
	s.outcome(late)
	if s.mix.Finish && !s.stop {
		s.finish()
	}
}

// quiet says if no DKG is going on and nothing is waiting.
func (s *Sim) quiet() bool {
	if len(s.m.eons) == 0 {
		return false
	}
	h := s.tc.Height()
	for _, e := range s.m.eons {
		if h < e.S+3*s.L+s.lag+s.delay+2 {
			return false
		}
	}
	for _, k := range s.Nodes {
		if len(k.outbox) > 0 {
			return false
		}
	}
	return true
}

// works says if a keyper follows the protocol from a height on.
func (k *Node) works(from int64) bool { return !k.byz && k.from <= from }

// outcome checks what is guaranteed after enough time.
func (s *Sim) outcome(late int64) {
	if s.N["refused by CheckTx"] > 0 {
		return
	}
	// configs
	last := s.m.cfgs[len(s.m.cfgs)-1]
	n := uint64(0)
	for _, a := range last.Keypers {
		if s.node(a).works(late) {
			n++
		}
	}
	if n >= last.Threshold {
		for i := int(last.ConfigIndex) + 1; i < len(s.O.Configs); i++ {
			if usable(&s.O.Configs[i]) {
				s.fail("C35", "config %d wasn't adopted by Shuttermint", i)
				return
			}
		}
		s.count("all configs adopted")
	}
	// the DKGs
	for _, e := range s.m.eons {
		if s.tc.Height() < e.S+3*s.L+s.lag+2 {
			continue
		}
		var steady []*Node
		for _, a := range e.cfg.Keypers {
			if k := s.node(a); k.works(e.S) {
				steady = append(steady, k)
			}
		}
		q := e.qualified()
		for _, k := range steady {
			i := indexOf(e.cfg.Keypers, k.addr)
			found := false
			for _, d := range q {
				found = found || d == i
			}
			if !found {
				s.fail("C23", "k%d takes part in eon %d from start to end, but is disqualified", k.id, e.n)
				return
			}
			p := k.m.eons[e.n]
			if p == nil || p.phase != finalized {
				s.fail("C23", "k%d didn't finish eon %d", k.id, e.n)
				return
			}
			if p.success != (uint64(len(q)) >= e.cfg.Threshold) {
				s.fail("C23", "k%d: eon %d success %v with qualified dealers %v", k.id, e.n, p.success, q)
				return
			}
		}
		if len(steady) > 0 && len(steady) < len(e.cfg.Keypers) {
			s.count("DKGs with others missing")
		}
	}
	// a restart
	if len(s.m.eons) == 0 {
		return
	}
	e := s.m.eons[len(s.m.eons)-1]
	if e.S+3*s.L+s.lag+2 > s.tc.Height() {
		return
	}
	works, ok := uint64(0), uint64(0)
	for _, a := range e.cfg.Keypers {
		k := s.node(a)
		if k.works(late) {
			works++
			if p := k.m.eons[e.n]; p != nil && p.success {
				ok++
			}
		}
	}
	if c := s.m.cfgFor(e.start, s.tc.Height()); c.ConfigIndex != e.cfg.ConfigIndex {
		return // votes are about another config
	}
	if works >= e.cfg.Threshold && ok == 0 && s.N["Shuttermint restarted"] == 0 {
		s.fail("C23", "eon %d failed and wasn't started again", e.n)
		return
	}
	if ok >= e.cfg.Threshold {
		s.count("usable eons")
	}
}

// finish lets users encrypt for batches of the last eon and waits for their execution.
func (s *Sim) finish() {
	t := s.t
	e := s.m.eons[len(s.m.eons)-1]
	var good []*Node
	var g *shcrypto.EonPublicKey
	for _, a := range e.cfg.Keypers {
		k := s.node(a)
		if !k.byz && k.online() && k.m.eons[e.n] != nil && k.m.eons[e.n].success {
			good = append(good, k)
			if ekg, err := k.st.FindEKGByEon(e.n); err == nil {
				g = ekg.EpochKG.PublicKey
			}
		}
	}
	if uint64(len(good)) < e.cfg.Threshold || g == nil {
		return
	}
	// let them catch up until a batch of the eon is open
	for i := 0; ; i++ {
		b, open := s.O.OpenBatch()
		if open && b >= e.start && s.O.Head() > s.O.Configs[len(s.O.Configs)-1].StartBlockNumber && s.O.HalfStepsNow()+4 >= 2*b &&
			s.O.HalfStepsNow()/2 >= e.start && s.O.HalfStepsNow()/2 >= s.O.ConfigFor(b).StartBatchIndex {
			break
		}
		if i > 150 || s.stop {
			s.count("never caught up")
			return
		}
		s.O.Mine(1)
		s.turn(true)
	}
	// votes may be left over from an earlier restart
	restarted := func() bool { return s.m.eons[len(s.m.eons)-1] != e }
	b, open := s.O.OpenBatch()
	if !open || b < e.start || restarted() {
		return
	}
	bc := s.O.ConfigFor(b)
	sc := s.m.cfgFor(b, s.tc.Height())
	// the keypers of Shuttermint's config release the shares, those of the main chain's sign
	n := uint64(0)
	for _, k := range good {
		if indexOf(sc.Keypers, k.addr) >= 0 && indexOf(bc.Keypers, k.addr) >= 0 {
			n++
		}
	}
	if int(sc.ConfigIndex) >= len(s.O.Configs) || s.O.Configs[sc.ConfigIndex].StartBlockNumber != bc.StartBlockNumber || n < e.cfg.Threshold || n < bc.Threshold {
		return
	}
	// those who may ask for a restart
	restart := uint64(0)
	vc := s.m.cfgFor(e.start, s.tc.Height())
	for _, a := range vc.Keypers {
		if k := s.node(a); k == nil || k.byz || k.m.eons[e.n] == nil || !k.m.eons[e.n].success {
			restart++
		}
	}
	if restart >= vc.Threshold {
		s.count("could be restarted")
		return
	}
	var plain [][]byte
	for i := rapid.IntRange(1, 3).Draw(t, "transactions"); i > 0; i-- {
		m := rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "message")
		var sigma shcrypto.Block
		copy(sigma[:], crypto.Keccak256([]byte(fmt.Sprint(i))))
		raw := shcrypto.Encrypt(append([]byte{}, m...), g, shcrypto.ComputeEpochID(epochBytes(b)), sigma).Marshal()
		if s.O.Add(ek.Owner, b, 0, raw) != nil {
			break
		}
		plain = append(plain, m)
	}
	s.logf("%d transactions for batch %d of eon %d", len(plain), b, e.n)
	end := bc.StartBlockNumber + (b-bc.StartBatchIndex+1)*bc.BatchSpan
	if s.O.Head() < end {
		s.O.Mine(int(end - s.O.Head()))
	}
	limit := end + bc.ExecutionTimeout - 3
	for s.O.Head() < limit && !s.stop && s.O.HalfStepsNow() <= 2*b+1 {
		s.turn(true)
		s.O.Mine(1)
	}
	executed := s.O.HalfStepsNow() > 2*b+1
	for i := int64(0); i < s.lag+s.delay+3 && !s.stop; i++ {
		s.turn(true)
	}
	if s.stop || s.N["refused by CheckTx"] > 0 || restarted() {
		return
	}
	sort.Slice(plain, func(i, j int) bool { return bytes.Compare(plain[i], plain[j]) < 0 })
	for _, k := range good {
		ekg, err := k.st.FindEKGByEon(e.n)
		if err != nil || ekg.EpochKG.SecretKeys[b] == nil {
			s.fail("C23", "k%d has no secret key for epoch %d (%v)", k.id, b, err)
			return
		}
		if indexOf(bc.Keypers, k.addr) < 0 {
			continue
		}
		batch := k.st.Batches[b]
		if s.O.HalfStepsNow() > 2*b && batch == nil {
			continue // bookkeeping is over
		}
		if batch == nil {
			s.fail("C23", "k%d hasn't decrypted batch %d", k.id, b)
			return
		}
		got := append([][]byte{}, batch.DecryptedTransactions...)
		sort.Slice(got, func(i, j int) bool { return bytes.Compare(got[i], got[j]) < 0 })
		if fmt.Sprintf("%x", got) != fmt.Sprintf("%x", plain) {
			s.fail("C23", "k%d decrypted batch %d to %x instead of %x", k.id, b, got, plain)
			return
		}
	}
	s.count("batches decrypted")
	if !executed {
		s.fail("C23", "batch %d wasn't executed before the timeout, half steps %d", b, s.O.HalfStepsNow())
		return
	}
	s.count("batches executed")
}
