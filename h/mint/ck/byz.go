package ck

import (
	crand "crypto/rand"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/mint/ak"
	"verif/vh"
)

// plan is what a Byzantine keyper does in an eon.
type plan struct {
	poly    *shcrypto.Polynomial
	queue   map[int64][]*shmsg.Message
	sorry   int64 // when to apologize
	apology string
}

func (s *Sim) one(label string, of ...string) string {
	return rapid.SampledFrom(of).Draw(s.t, label)
}

// byzantine makes the messages of the Byzantine keypers for the next block.
func (s *Sim) byzantine() []draft {
	var r []draft
	h := s.tc.Height() + 1
	for _, k := range s.Nodes {
		if !k.byz {
			continue
		}
		say := func(m *shmsg.Message) { r = append(r, draft{key: k.key, msg: m, k: k}) }
		last := s.m.cfgs[len(s.m.cfgs)-1]
		member := false
		for _, c := range s.m.cfgs {
			member = member || indexOf(c.Keypers, k.addr) >= 0
		}
		if !member {
			continue
		}
		if _, ok := s.m.keysAt[k.addr]; !ok && s.pct(30, "check-in") {
			say(shmsg.NewCheckIn(ak.Val(k.id), &k.cfg.EncryptionKey.PublicKey))
		}
		// votes
		n := 0
		for _, a := range last.Keypers {
			if x := s.node(a); x != nil && x.byz {
				n++
			}
		}
		if indexOf(last.Keypers, k.addr) >= 0 {
			next := int(last.ConfigIndex) + 1
			for next < len(s.O.Configs) && !usable(&s.O.Configs[next]) {
				next++
			}
			switch {
			case next < len(s.O.Configs) && s.pct(20, "votes"):
				c := s.O.Configs[next]
				ks, th := c.Keypers, c.Threshold
				if uint64(n) < last.Threshold && s.pct(40, "for something else") {
					ks, th = []common.Address{k.addr}, 1
				}
				say(shmsg.NewBatchConfig(c.StartBatchIndex, ks, th, s.O.Config, uint64(next), false, false))
			case uint64(n) < last.Threshold && s.pct(1, "invents a config"):
				say(shmsg.NewBatchConfig(last.StartBatchIndex+rapid.Uint64Range(0, 5).Draw(s.t, "start"), []common.Address{k.addr}, 1, s.O.Config, last.ConfigIndex+rapid.Uint64Range(1, 3).Draw(s.t, "index"), false, false))
			}
		}
		if len(s.m.eons) > 0 && s.pct(2, "wants a restart") {
			say(shmsg.NewEonStartVote(s.m.eons[len(s.m.eons)-1].start))
		}
		for _, e := range s.m.eons {
			i := indexOf(e.cfg.Keypers, k.addr)
			if i < 0 || e.phase(h) == finalized {
				continue
			}
			p := k.plans[e.n]
			if p == nil {
				p = s.plan(k, e, i)
				k.plans[e.n] = p
			}
			for _, m := range p.queue[h] {
				say(m)
			}
			if h == p.sorry {
				s.apologize(k, e, i, p, say)
			}
		}
	}
	return r
}

func (s *Sim) in(e *eon, phase int, what string) int64 {
	if s.pct(7, "out of phase") {
		return e.S + rapid.Int64Range(1, 3*s.L).Draw(s.t, what)
	}
	lo := e.S + int64(phase-dealing)*s.L
	if phase == dealing {
		lo++
	}
	return rapid.Int64Range(lo, e.S+int64(phase-dealing+1)*s.L-1).Draw(s.t, what)
}

func (s *Sim) plan(k *Node, e *eon, i int) *plan {
	p := &plan{queue: map[int64][]*shmsg.Message{}}
	at := func(h int64, m *shmsg.Message) { p.queue[h] = append(p.queue[h], m) }
	var err error
	p.poly, err = shcrypto.RandomPolynomial(crand.Reader, shcrypto.DegreeFromThreshold(e.cfg.Threshold))
	vh.Harness(err, "polynomial")
	polite := s.pct(30, "mostly correct")
	pick := func(label string, good int, of ...string) string {
		if polite && s.pct(90, "correct") || s.pct(good, "correct") {
			return of[0]
		}
		return s.one(label, of...)
	}
	commit := pick("commitment", 60, "good", "none", "degree", "twice", "empty")
	s.count("Byzantine commitment " + commit)
	h := s.in(e, dealing, "commitment at")
	switch commit {
	case "good":
		at(h, shmsg.NewPolyCommitment(e.n, p.poly.Gammas()))
	case "degree":
		d := e.cfg.Threshold
		if d > 1 && s.pct(50, "smaller") {
			d -= 2
		}
		q, err := shcrypto.RandomPolynomial(crand.Reader, d)
		vh.Harness(err, "polynomial")
		at(h, shmsg.NewPolyCommitment(e.n, q.Gammas()))
	case "empty":
		at(h, shmsg.NewPolyCommitment(e.n, &shcrypto.Gammas{}))
	case "twice":
		q, err := shcrypto.RandomPolynomial(crand.Reader, shcrypto.DegreeFromThreshold(e.cfg.Threshold))
		vh.Harness(err, "polynomial")
		at(h, shmsg.NewPolyCommitment(e.n, p.poly.Gammas()))
		at(s.in(e, dealing, "again at"), shmsg.NewPolyCommitment(e.n, q.Gammas()))
	}
	for r, a := range e.cfg.Keypers {
		if r == i {
			continue
		}
		pub := &s.node(a).cfg.EncryptionKey.PublicKey
		v := p.poly.EvalForKeyper(r)
		kind := pick("eval", 50, "good", "none", "wrong", "garbage", "large", "order", "twice", "other receiver")
		s.count("Byzantine eval " + kind)
		enc := func(b []byte) []byte {
			x, err := ecies.Encrypt(crand.Reader, pub, b, nil, nil)
			vh.Harness(err, "encrypt")
			return x
		}
		var cs [][]byte
		switch kind {
		case "good":
			cs = [][]byte{enc(v.Bytes())}
		case "wrong":
			cs = [][]byte{enc(new(big.Int).Add(v, big.NewInt(1)).Bytes())}
		case "garbage":
			cs = [][]byte{rapid.SliceOfN(rapid.Byte(), 1, 150).Draw(s.t, "garbage")}
		case "large": // the right one but for a multiple of the order
			cs = [][]byte{enc(new(big.Int).Add(v, bn256.Order).Bytes())}
		case "order":
			cs = [][]byte{enc(bn256.Order.Bytes())}
		case "twice":
			cs = [][]byte{enc(v.Bytes()), enc(new(big.Int).Sub(bn256.Order, v).Bytes())}
			if s.pct(50, "wrong first") {
				cs[0], cs[1] = cs[1], cs[0]
			}
		case "other receiver":
			cs = [][]byte{enc(p.poly.EvalForKeyper(r + 1).Bytes())}
		}
		for _, c := range cs {
			at(s.in(e, dealing, "eval at"), shmsg.NewPolyEval(e.n, []common.Address{a}, [][]byte{c}))
		}
	}
	if s.pct(50, "accuses") {
		var as []common.Address
		for r, a := range e.cfg.Keypers {
			if r != i && s.pct(50, "accused") {
				as = append(as, a)
			}
		}
		if len(as) > 0 {
			at(s.in(e, accusing, "accuses at"), shmsg.NewAccusation(e.n, as))
			s.count("Byzantine accusation")
		}
	}
	p.apology = pick("apology", 40, "good", "none", "wrong", "range", "some", "unsolicited", "unsolicited wrong")
	p.sorry = s.in(e, apologizing, "apologizes at")
	return p
}

func (s *Sim) apologize(k *Node, e *eon, i int, p *plan, say func(*shmsg.Message)) {
	var as []common.Address
	var vs []*big.Int
	for r, a := range e.cfg.Keypers {
		if r == i {
			continue
		}
		v := p.poly.EvalForKeyper(r)
		accused := e.accused[pair{r, i}]
		switch p.apology {
		case "none":
			continue
		case "wrong":
			if s.pct(50, "wrong") {
				v = new(big.Int).Add(v, big.NewInt(1))
			}
		case "range":
			if s.pct(50, "range") {
				v = new(big.Int).Add(v, bn256.Order)
			}
		case "some":
			if s.pct(50, "leaves out") {
				continue
			}
		case "unsolicited":
			accused = accused || s.pct(50, "unsolicited")
		case "unsolicited wrong":
			if !accused && s.pct(50, "unsolicited") {
				accused = true
				v = new(big.Int).Add(v, big.NewInt(1))
			}
		}
		if accused {
			as, vs = append(as, a), append(vs, v)
		}
	}
	if len(as) > 0 {
		say(shmsg.NewApology(e.n, as, vs))
		s.count("Byzantine apology " + p.apology)
	}
}
