package ck

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

const (
	off = iota
	dealing
	accusing
	apologizing
	finalized
)

// model is what the Shuttermint chain says.
type model struct {
	s      *Sim
	cfgs   []shutterevents.BatchConfig // with heights
	eons   []*eon
	keysAt map[common.Address]int64 // height of the check-in
}

type dealt struct {
	gammas *shcrypto.Gammas
	eval   map[int]*big.Int // receiver -> first usable one
}

type pair struct{ accuser, accused int }

// eon is what was said in time.
type eon struct {
	s       *Sim
	n       uint64
	start   uint64
	S       int64
	cfg     shutterevents.BatchConfig
	dealers []*dealt
	accused map[pair]bool
	apology map[pair]*big.Int
	ok      map[string]bool // cache of verifications
}

// cfgFor is the config of a batch at a height.
func (m *model) cfgFor(batch uint64, h int64) *shutterevents.BatchConfig {
	for i := len(m.cfgs) - 1; i >= 0; i-- {
		if c := &m.cfgs[i]; c.Height <= h && c.StartBatchIndex <= batch {
			return c
		}
	}
	return nil
}

func (m *model) eon(n uint64) *eon {
	for _, e := range m.eons {
		if e.n == n {
			return e
		}
	}
	return nil
}

func (e *eon) phase(h int64) int {
	p := dealing + int((h-e.S)/e.s.L)
	if p > finalized {
		p = finalized
	}
	return p
}

func inRange(v *big.Int) bool { return v.Sign() >= 0 && v.Cmp(bn256.Order) < 0 }

func (m *model) apply(h int64, x shutterevents.IEvent) {
	s := m.s
	switch ev := x.(type) {
	case *shutterevents.CheckIn:
		if m.keysAt == nil {
			m.keysAt = map[common.Address]int64{}
		}
		if _, ok := m.keysAt[ev.Sender]; !ok {
			m.keysAt[ev.Sender] = h
		}
		s.logf("check-in of %s", s.name(ev.Sender))
	case *shutterevents.BatchConfig:
		c := *ev
		c.Height = h
		m.cfgs = append(m.cfgs, c)
		s.logf("Shuttermint accepted config %d", c.ConfigIndex)
		s.count("configs adopted")
		m.adopted(&c)
	case *shutterevents.EonStarted:
		cfg := m.cfgFor(ev.BatchIndex, h)
		e := &eon{s: s, n: ev.Eon, start: ev.BatchIndex, S: h, cfg: *cfg, accused: map[pair]bool{}, apology: map[pair]*big.Int{}, ok: map[string]bool{}}
		for range cfg.Keypers {
			e.dealers = append(e.dealers, &dealt{eval: map[int]*big.Int{}})
		}
		for _, o := range m.eons {
			if o.start == e.start {
				s.count("restarted eons")
			}
		}
		m.eons = append(m.eons, e)
		s.logf("eon %d starts for batches from %d on, threshold %d of %s", e.n, e.start, cfg.Threshold, s.names(cfg.Keypers))
		s.count("eons")
	case *shutterevents.PolyCommitment:
		if e, i := m.find(ev.Eon, ev.Sender); i >= 0 {
			s.logf("eon %d: commitment of %s, degree %d", e.n, s.name(ev.Sender), len(*ev.Gammas)-1)
			if e.phase(h) == dealing && e.dealers[i].gammas == nil && len(*ev.Gammas) == int(e.cfg.Threshold) {
				e.dealers[i].gammas = ev.Gammas
			}
		}
	case *shutterevents.PolyEval:
		if e, i := m.find(ev.Eon, ev.Sender); i >= 0 {
			s.logf("eon %d: evals of %s for %s", e.n, s.name(ev.Sender), s.names(ev.Receivers))
			if e.phase(h) != dealing {
				return
			}
			for j, r := range ev.Receivers {
				x := indexOf(e.cfg.Keypers, r)
				if x < 0 || x == i || e.dealers[i].eval[x] != nil {
					continue
				}
				b, err := s.node(r).cfg.EncryptionKey.Decrypt(ev.EncryptedEvals[j], nil, nil)
				if err != nil {
					continue
				}
				if v := new(big.Int).SetBytes(b); inRange(v) {
					e.dealers[i].eval[x] = v
				}
			}
		}
	case *shutterevents.Accusation:
		if e, i := m.find(ev.Eon, ev.Sender); i >= 0 {
			s.logf("eon %d: %s accuses %s", e.n, s.name(ev.Sender), s.names(ev.Accused))
			if e.phase(h) != accusing {
				return
			}
			for _, a := range ev.Accused {
				if x := indexOf(e.cfg.Keypers, a); x >= 0 {
					e.accused[pair{i, x}] = true
				}
			}
			s.count("accusations")
		}
	case *shutterevents.Apology:
		if e, i := m.find(ev.Eon, ev.Sender); i >= 0 {
			s.logf("eon %d: %s apologizes to %s", e.n, s.name(ev.Sender), s.names(ev.Accusers))
			if e.phase(h) != apologizing {
				return
			}
			for j, a := range ev.Accusers {
				p := pair{indexOf(e.cfg.Keypers, a), i}
				if p.accuser >= 0 && e.apology[p] == nil && inRange(ev.PolyEval[j]) {
					e.apology[p] = ev.PolyEval[j]
				}
			}
			s.count("apologies")
		}
	}
}

func (m *model) find(n uint64, a common.Address) (*eon, int) {
	e := m.eon(n)
	if e == nil {
		return nil, -1
	}
	return e, indexOf(e.cfg.Keypers, a)
}

func (s *Sim) node(a common.Address) *Node {
	for _, k := range s.Nodes {
		if k.addr == a {
			return k
		}
	}
	return nil
}

// correct says if an evaluation is the one a dealer committed to.
func (e *eon) correct(dealer, receiver int, v *big.Int) bool {
	g := e.dealers[dealer].gammas
	if g == nil || v == nil {
		return false
	}
	id := fmt.Sprint(dealer, " ", receiver, " ", v)
	r, ok := e.ok[id]
	if !ok {
		r = string(new(bn256.G2).ScalarBaseMult(v).Marshal()) == string(at(*g, receiver).Marshal())
		e.ok[id] = r
	}
	return r
}

// at is the commitment's evaluation for a keyper.
func at(g shcrypto.Gammas, keyper int) *bn256.G2 {
	x := big.NewInt(int64(keyper) + 1)
	r := new(bn256.G2).Set(g[len(g)-1])
	for i := len(g) - 2; i >= 0; i-- {
		r.ScalarMult(r, x)
		r.Add(r, g[i])
	}
	return r
}

// qualified lists the dealers who count.
func (e *eon) qualified() []int {
	var r []int
	for d, x := range e.dealers {
		if x.gammas == nil {
			continue
		}
		good := true
		for p := range e.accused {
			if p.accused == d && e.apology[p] == nil {
				good = false
			}
		}
		for p, v := range e.apology {
			if p.accused == d && !e.correct(d, p.accuser, v) {
				good = false
			}
		}
		if good {
			r = append(r, d)
		}
	}
	return r
}

// share is a keyper's share, nil if it has no result.
func (e *eon) share(k *Node) *big.Int {
	i := indexOf(e.cfg.Keypers, k.addr)
	q := e.qualified()
	if uint64(len(q)) < e.cfg.Threshold {
		return nil
	}
	sum := new(big.Int)
	for _, d := range q {
		v := e.apology[pair{i, d}]
		if v == nil && d == i {
			v = k.m.own[e.n]
		} else if v == nil {
			v = e.dealers[d].eval[i]
		}
		if !e.correct(d, i, v) {
			return nil
		}
		sum.Add(sum, v)
	}
	return sum.Mod(sum, bn256.Order)
}

// public sums the commitments of the dealers who count, evaluated for a keyper, or at zero.
func (e *eon) public(keyper int) *bn256.G2 {
	var r *bn256.G2
	for _, d := range e.qualified() {
		g := *e.dealers[d].gammas
		p := g[0]
		if keyper >= 0 {
			p = at(g, keyper)
		}
		if r == nil {
			r = new(bn256.G2).Set(p)
		} else {
			r.Add(r, p)
		}
	}
	return r
}

// nodeModel is what is known about a keyper.
type nodeModel struct {
	checkedIn bool
	voted     map[uint64]bool
	eons      map[uint64]*part
	own       map[uint64]*big.Int // its own evaluation for itself
}

// part is a keyper's part in an eon.
type part struct {
	phase    int
	waiting  []int // receivers without an evaluation
	gammas   *shcrypto.Gammas
	success  bool
	finished int64
}

func newNodeModel() *nodeModel {
	return &nodeModel{voted: map[uint64]bool{}, eons: map[uint64]*part{}, own: map[uint64]*big.Int{}}
}

// bad lists the dealers a keyper has to accuse.
func (e *eon) bad(i int) []int {
	var r []int
	for d, x := range e.dealers {
		if d != i && !e.correct(d, i, x.eval[i]) {
			r = append(r, d)
		}
	}
	return r
}

// judge compares the actions of a decision with what they should be.
func (k *Node) judge(actions []fx.IAction) {
	s, v := k.s, k.sh.CurrentBlock
	var msgs []*shmsg.Message
	var casts []*fx.EonKeyBroadcast
	defer func() {
		// after the ends of DKGs
		for _, a := range actions {
			if x, ok := a.(*fx.SendShuttermintMessage); ok && x.Msg.GetEpochSecretKeyShare() != nil && !s.stop {
				k.judgeShare(x.Msg.GetEpochSecretKeyShare())
			}
		}
	}()
	for _, a := range actions {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			switch {
			case x.Msg.GetEpochSecretKeyShare() != nil, x.Msg.GetDecryptionSignature() != nil:
			default:
				msgs = append(msgs, x.Msg)
			}
		case *fx.EonKeyBroadcast:
			casts = append(casts, x)
		}
	}
	if len(actions) > 0 {
		s.logf("k%d at %d: %d actions", k.id, v, len(actions))
	}
	if s.stop {
		return
	}
	take := func(what string, ok func(m *shmsg.Message) bool) *shmsg.Message {
		if len(msgs) > 0 && ok(msgs[0]) {
			m := msgs[0]
			msgs = msgs[1:]
			return m
		}
		got := "nothing"
		if len(msgs) > 0 {
			got = msgs[0].String()
		}
		s.fail("C23", "k%d at height %d: expected %s, got %s", k.id, v, what, cut(got))
		return nil
	}
	member := false
	for _, c := range s.m.cfgs {
		member = member || c.Height <= v && c.Height > 0 && indexOf(c.Keypers, k.addr) >= 0
	}
	if !member {
		if len(actions) > 0 {
			s.fail("C23", "k%d isn't a keyper but acts: %v", k.id, actions)
		}
		return
	}
	if at, ok := s.m.keysAt[k.addr]; !k.m.checkedIn && !(ok && at <= v) {
		k.m.checkedIn = true
		m := take("a check-in", func(m *shmsg.Message) bool { return m.GetCheckIn() != nil })
		if m == nil {
			return
		}
	}
	k.judgeVote(&msgs)
	if s.stop {
		return
	}
	for _, e := range s.m.eons {
		i := indexOf(e.cfg.Keypers, k.addr)
		if e.S > v || i < 0 {
			continue
		}
		p := k.m.eons[e.n]
		if p == nil {
			p = &part{}
			k.m.eons[e.n] = p
		}
		if p.phase == finalized {
			continue
		}
		ph := e.phase(v + 1)
		if p.phase == off {
			p.phase = dealing
			if ph == dealing {
				m := take("a commitment", func(m *shmsg.Message) bool { return m.GetPolyCommitment() != nil && m.GetPolyCommitment().Eon == e.n })
				if m == nil {
					return
				}
				g := shcrypto.Gammas{}
				for _, b := range m.GetPolyCommitment().Gammas {
					pt := new(bn256.G2)
					if _, err := pt.Unmarshal(b); err != nil {
						s.fail("C23", "k%d commits to rubbish: %+v", k.id, err)
						return
					}
					g = append(g, pt)
				}
				if len(g) != int(e.cfg.Threshold) {
					s.fail("C23", "k%d at height %d: degree %d of the commitment of eon %d", k.id, v, len(g)-1, e.n)
					return
				}
				p.gammas = &g
				for r := range e.cfg.Keypers {
					if r != i {
						p.waiting = append(p.waiting, r)
					}
				}
			}
		}
		if p.phase == dealing && ph >= accusing {
			p.phase = accusing
			if bad := e.bad(i); ph == accusing && len(bad) > 0 {
				m := take(fmt.Sprint("an accusation of ", bad), func(m *shmsg.Message) bool { return m.GetAccusation() != nil && m.GetAccusation().Eon == e.n })
				if m == nil {
					return
				}
				var got []int
				for _, a := range m.GetAccusation().Accused {
					got = append(got, indexOf(e.cfg.Keypers, common.BytesToAddress(a)))
				}
				sort.Ints(got)
				if fmt.Sprint(got) != fmt.Sprint(bad) {
					s.fail("C23", "k%d at height %d accuses %v instead of %v in eon %d", k.id, v, got, bad, e.n)
					return
				}
			}
		}
		if p.phase == accusing && ph >= apologizing {
			p.phase = apologizing
			var accusers []int
			for x := range e.accused {
				if x.accused == i {
					accusers = append(accusers, x.accuser)
				}
			}
			sort.Ints(accusers)
			if ph == apologizing && len(accusers) > 0 {
				m := take(fmt.Sprint("apologies to ", accusers), func(m *shmsg.Message) bool { return m.GetApology() != nil && m.GetApology().Eon == e.n })
				if m == nil {
					return
				}
				var got []int
				for j, a := range m.GetApology().Accusers {
					x := indexOf(e.cfg.Keypers, common.BytesToAddress(a))
					got = append(got, x)
					if p.gammas != nil {
						if y := new(big.Int).SetBytes(m.GetApology().PolyEvals[j]); string(new(bn256.G2).ScalarBaseMult(y).Marshal()) != string(at(*p.gammas, x).Marshal()) {
							s.fail("C23", "k%d apologizes to %d with a wrong evaluation in eon %d", k.id, x, e.n)
							return
						}
					}
				}
				sort.Ints(got)
				if fmt.Sprint(got) != fmt.Sprint(accusers) {
					s.fail("C23", "k%d at height %d apologizes to %v instead of %v in eon %d", k.id, v, got, accusers, e.n)
					return
				}
			}
		}
		if p.phase == apologizing && ph >= finalized {
			p.phase = finalized
			p.finished = v
			if !k.judgeResult(e, i, p, &casts, take) {
				return
			}
		}
		if len(p.waiting) > 0 && p.phase > dealing {
			p.waiting = nil
		}
		var now, later []int
		for _, r := range p.waiting {
			if at, ok := s.m.keysAt[e.cfg.Keypers[r]]; ok && at <= v {
				now = append(now, r)
			} else {
				later = append(later, r)
			}
		}
		p.waiting = later
		if len(now) > 0 {
			m := take(fmt.Sprint("evaluations for ", now), func(m *shmsg.Message) bool { return m.GetPolyEval() != nil && m.GetPolyEval().Eon == e.n })
			if m == nil || !k.judgeEvals(e, p, now, m.GetPolyEval()) {
				return
			}
		}
	}
	if len(msgs) > 0 {
		s.fail("C23", "k%d at height %d: unexpected message %s", k.id, v, cut(msgs[0].String()))
	}
	if len(casts) > 0 {
		s.fail("C23", "k%d at height %d: unexpected broadcast %v", k.id, v, casts[0])
	}
}

func cut(x string) string {
	if len(x) > 300 {
		return x[:300] + "…"
	}
	return x
}

func (k *Node) judgeEvals(e *eon, p *part, now []int, m *shmsg.PolyEval) bool {
	var got []int
	for j, a := range m.Receivers {
		x := indexOf(e.cfg.Keypers, common.BytesToAddress(a))
		got = append(got, x)
		if x < 0 || k.s.Nodes[k.s.node(e.cfg.Keypers[x]).id].byz {
			continue
		}
		b, err := k.s.node(e.cfg.Keypers[x]).cfg.EncryptionKey.Decrypt(m.EncryptedEvals[j], nil, nil)
		if err != nil || string(new(bn256.G2).ScalarBaseMult(new(big.Int).SetBytes(b)).Marshal()) != string(at(*p.gammas, x).Marshal()) {
			k.s.fail("C23", "k%d sends %d a wrong evaluation in eon %d (%v)", k.id, x, e.n, err)
			return false
		}
	}
	sort.Ints(got)
	if fmt.Sprint(got) != fmt.Sprint(now) {
		k.s.fail("C23", "k%d sends evaluations to %v instead of %v in eon %d", k.id, got, now, e.n)
		return false
	}
	return true
}

// judgeResult looks at the end of a DKG.
func (k *Node) judgeResult(e *eon, i int, p *part, casts *[]*fx.EonKeyBroadcast, take func(string, func(*shmsg.Message) bool) *shmsg.Message) bool {
	s := k.s
	ekg, err := k.st.FindEKGByEon(e.n)
	if err == nil {
		// the one thing not on the chain
		k.m.own[e.n] = k.ownEval(e.n, i)
	} else if p.gammas != nil {
		k.m.own[e.n] = k.ownEval(e.n, i)
	}
	want := e.share(k)
	q := e.qualified()
	if want == nil {
		s.count("failed DKGs")
		s.logf("k%d: eon %d failed, qualified %v", k.id, e.n, q)
		if err == nil {
			s.fail("C23", "k%d has a result for eon %d, which failed (qualified dealers %v)", k.id, e.n, q)
			return false
		}
		return take(fmt.Sprintf("a vote to restart eon %d", e.n), func(m *shmsg.Message) bool {
			return m.GetEonStartVote() != nil && m.GetEonStartVote().StartBatchIndex == e.start
		}) != nil
	}
	p.success = true
	s.count("successful DKGs")
	s.logf("k%d: eon %d succeeded, qualified %v", k.id, e.n, q)
	if err != nil {
		s.fail("C23", "k%d has no result for eon %d, qualified dealers are %v", k.id, e.n, q)
		return false
	}
	pub := e.public(-1)
	if len(*casts) == 0 || (*casts)[0].StartBatchIndex != e.start || (*casts)[0].KeyperIndex != uint64(i) ||
		string((*bn256.G2)((*casts)[0].EonPublicKey).Marshal()) != string(pub.Marshal()) {
		s.fail("C23", "k%d doesn't broadcast the key of eon %d (qualified dealers %v), but %v", k.id, e.n, q, *casts)
		return false
	}
	*casts = (*casts)[1:]
	g := ekg.EpochKG
	if g.Eon != e.n || g.NumKeypers != uint64(len(e.cfg.Keypers)) || g.Threshold != e.cfg.Threshold || g.Keyper != uint64(i) ||
		(*big.Int)(g.SecretKeyShare).Cmp(want) != 0 || string((*bn256.G2)(g.PublicKey).Marshal()) != string(pub.Marshal()) {
		s.fail("C23", "k%d has a wrong result for eon %d", k.id, e.n)
		return false
	}
	for j := range e.cfg.Keypers {
		if string((*bn256.G2)(g.PublicKeyShares[j]).Marshal()) != string(e.public(j).Marshal()) {
			s.fail("C23", "k%d has a wrong public key share of keyper %d for eon %d", k.id, j, e.n)
			return false
		}
	}
	return true
}

// ownEval is what a keyper's own polynomial evaluates to for itself.
func (k *Node) ownEval(n uint64, i int) *big.Int {
	for _, d := range k.st.DKGs {
		if d.Eon == n && d.Pure != nil && d.Pure.Polynomial != nil {
			return d.Pure.Polynomial.EvalForKeyper(i)
		}
	}
	return nil
}

// judgeShare looks at an epoch secret key share.
func (k *Node) judgeShare(m *shmsg.EpochSecretKeyShare) {
	s := k.s
	e := s.m.eon(m.Eon)
	if e == nil || k.m.eons[m.Eon] == nil || !k.m.eons[m.Eon].success {
		s.fail("C23", "k%d sends a share for eon %d without a result", k.id, m.Eon)
		return
	}
	want := shcrypto.ComputeEpochSecretKeyShare((*shcrypto.EonSecretKeyShare)(e.share(k)), shcrypto.ComputeEpochID(epochBytes(m.Epoch)))
	if string(m.Share) != string(want.Marshal()) {
		s.fail("C23", "k%d sends a wrong share for %d in eon %d", k.id, m.Epoch, m.Eon)
	}
	s.count("shares")
}

// judgeVote looks at votes for configs.
func (k *Node) judgeVote(msgs *[]*shmsg.Message) {
	s, v := k.s, k.sh.CurrentBlock
	var got *shmsg.BatchConfig
	if len(*msgs) > 0 && (*msgs)[0].GetBatchConfig() != nil {
		got = (*msgs)[0].GetBatchConfig()
		*msgs = (*msgs)[1:]
	}
	last := uint64(0)
	for _, c := range s.m.cfgs {
		if c.Height <= v {
			last = c.ConfigIndex
		}
	}
	// the next one Shuttermint can take
	want := 0
	for i := int(last) + 1; i < len(s.schedAt) && s.schedAt[i] <= k.main.CurrentBlock; i++ {
		if usable(&s.O.Configs[i]) {
			want = i
			break
		}
	}
	if want > 0 && k.m.voted[uint64(want)] {
		want = 0
	}
	if want == 0 {
		if got != nil {
			s.fail("C35", "k%d at height %d votes for %v", k.id, v, got)
		}
		return
	}
	if got == nil {
		s.fail("C35", "k%d at height %d doesn't vote for config %d", k.id, v, want)
		return
	}
	k.m.voted[uint64(want)] = true
	if d := differs(got, s, want); d != "" {
		s.fail("C35", "k%d votes for config %d with a different %s: %v", k.id, want, d, got)
	}
	s.count("config votes")
}

func differs(m *shmsg.BatchConfig, s *Sim, i int) string {
	c := s.O.Configs[i]
	switch {
	case m.ConfigIndex != uint64(i):
		return "index"
	case m.StartBatchIndex != c.StartBatchIndex:
		return "start"
	case m.Threshold != c.Threshold:
		return "threshold"
	case common.BytesToAddress(m.ConfigContractAddress) != s.O.Config:
		return "contract"
	case m.Started || m.ValidatorsUpdated:
		return "state"
	case len(m.Keypers) != len(c.Keypers):
		return "number of keypers"
	}
	for j, a := range m.Keypers {
		if common.BytesToAddress(a) != c.Keypers[j] {
			return "keyper"
		}
	}
	return ""
}

// adopted looks at a config Shuttermint accepted.
func (m *model) adopted(c *shutterevents.BatchConfig) {
	s := m.s
	i := int(c.ConfigIndex)
	prev := m.cfgs[len(m.cfgs)-2].ConfigIndex
	if i >= len(s.O.Configs) || c.ConfigIndex <= prev {
		s.fail("C35", "Shuttermint accepted a config with index %d", i)
		return
	}
	for j := int(prev) + 1; j < i; j++ {
		if usable(&s.O.Configs[j]) && prev > 0 {
			s.fail("C35", "Shuttermint accepted config %d, but not %d", i, j)
			return
		}
	}
	mc := s.O.Configs[i]
	same := c.StartBatchIndex == mc.StartBatchIndex && c.Threshold == mc.Threshold && len(c.Keypers) == len(mc.Keypers)
	for j := 0; same && j < len(mc.Keypers); j++ {
		same = mc.Keypers[j] == c.Keypers[j]
	}
	if !same {
		s.fail("C35", "Shuttermint accepted config %d as %v", i, c)
	}
}

func epochBytes(e uint64) []byte {
	var b [8]byte
	for i := 7; i >= 0; i-- {
		b[i] = byte(e)
		e >>= 8
	}
	return b[:]
}
