package kk

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"verif/mint/ek"
	"verif/vh"
)

// share is a published share.
type share struct{ eon, batch uint64 }

// judge compares what a keyper decided with what it had to decide.
func (k *Kp) judge(as []fx.IAction) {
	s := k.s
	b, h := k.main.CurrentBlock, k.sh.CurrentBlock
	defer func() { k.decided = h }()
	for x, m := range k.batches {
		c, _ := s.batchConfig(x)
		k.signatures(x, m, c)
	}
	s.logf("k%d decides at block %d height %d: %d actions", k.id, b, h, len(as))
	var shares []share
	sigs := map[uint64][]byte{}
	var steps, other []fx.IAction
	for _, a := range as {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			switch {
			case x.Msg.GetEpochSecretKeyShare() != nil:
				m := x.Msg.GetEpochSecretKeyShare()
				shares = append(shares, share{m.Eon, m.Epoch})
				s.logf("k%d: share for %d in eon %d", k.id, m.Epoch, m.Eon)
				k.checkShare(m.Eon, m.Epoch, m.Share, b, h)
			case x.Msg.GetDecryptionSignature() != nil:
				m := x.Msg.GetDecryptionSignature()
				s.logf("k%d: signature for %d", k.id, m.BatchIndex)
				if _, ok := sigs[m.BatchIndex]; ok {
					s.fail("C26", "k%d signed batch %d twice", k.id, m.BatchIndex)
				}
				sigs[m.BatchIndex] = m.Signature
			case x.Msg.GetBatchConfig() != nil:
			default:
				vh.Harness(fmt.Errorf("%v", x), "message")
			}
		case *fx.ExecuteCipherBatch, *fx.ExecutePlainBatch, *fx.SkipCipherBatch:
			s.logf("k%d: %v", k.id, a)
			steps = append(steps, a)
		case *fx.Accuse, *fx.Appeal:
			s.logf("k%d: %v", k.id, a)
			other = append(other, a)
		default:
			vh.Harness(fmt.Errorf("%T", a), "action")
		}
		if s.stop {
			return
		}
	}
	for _, f := range []func(){
		func() { k.learn(b, h, sigs) },
		func() { k.judgeShares(shares, b, h) },
		func() { k.judgeSteps(steps, b) },
		func() { k.judgeOther(other, b) },
	} {
		f()
		if s.stop {
			return
		}
	}
}

func eid(eon, epoch uint64) string { return fmt.Sprint(eon, "/", epoch) }

// known says if a keyper has the epoch secret key.
func (k *Kp) known(e *Eon, epoch uint64) bool {
	return uint64(len(k.got[eid(e.Eon, epoch)])) >= e.Threshold
}

func (k *Kp) hasEon(e *Eon) bool {
	return e != nil && e.index(k.addr) >= 0 && !e.Failed[k.id] && k.sh.CurrentBlock+1 >= e.Done
}

// learn processes what arrived on Shuttermint and judges the signatures.
func (k *Kp) learn(b uint64, h int64, sent map[uint64][]byte) {
	s := k.s
	for _, x := range s.shs {
		e := s.eon(x.eon)
		if x.height <= k.decided || x.height > h || !x.valid || !k.hasEon(e) {
			continue
		}
		id := eid(x.eon, x.epoch)
		if k.got[id] == nil {
			k.got[id] = map[common.Address]bool{}
		}
		if uint64(len(k.got[id])) < e.Threshold {
			k.got[id][x.sender] = true
		}
	}
	for _, e := range s.eons {
		if !k.hasEon(e) {
			continue
		}
		for x := uint64(0); x < s.closed(b); x++ {
			c, active := s.batchConfig(x)
			if k.batches[x] != nil || !active || b < end(c, x) || !k.known(e, x) {
				continue
			}
			m := &mbatch{txs: s.plain(e, x), sigs: map[common.Address][]byte{}}
			raw := s.O.BatchTxs(x, 0, s.O.Head())
			m.empty, m.hash = len(raw) == 0, ek.ChainHash(m.txs)
			m.sign = s.O.SigHash(x, ek.ChainHash(raw), m.hash)
			k.batches[x] = m
			s.count("batches decrypted")
			if len(m.txs) < len(raw) {
				s.count("batches with undecryptable transactions")
			}
			have := k.signatures(x, m, c)
			late := b >= end(c, x)+c.ExecutionTimeout-1
			if sig, ok := sent[x]; ok {
				if !validSig(m.sign, k.addr, sig) {
					s.fail("C26", "k%d's signature of batch %d with transactions %x is not one over the hash of its %d decrypted transactions %x", k.id, x, raw, len(m.txs), m.txs)
					return
				}
				if m.empty {
					s.fail("C26", "k%d signed the empty batch %d", k.id, x)
					return
				}
				m.signed = true
				s.count("signatures sent")
			} else if !m.empty && !late && indexOf(c.Keypers, k.addr) >= 0 && uint64(have) < c.Threshold {
				s.fail("C26", "k%d did not sign batch %d which it can decrypt at block %d (ended %d, times out %d) and of which it has seen %d of %d signatures", k.id, x, b, end(c, x), end(c, x)+c.ExecutionTimeout, have, c.Threshold)
				return
			}
			delete(sent, x)
		}
	}
	for x, sig := range sent {
		s.fail("C26", "k%d sent signature %x for batch %d at block %d height %d although it cannot have decrypted it just now (decrypted earlier: %v)", k.id, sig, x, b, h, k.batches[x] != nil)
		return
	}
}

// signatures counts the usable signatures a keyper has come across.
func (k *Kp) signatures(x uint64, m *mbatch, c *contract.BatchConfig) int {
	if d := k.sh.Batches[x]; d != nil {
		for i := 0; i < len(d.DecryptionSignatures); i++ {
			g := d.DecryptionSignatures[i]
			if m.sigs[g.Sender] == nil && indexOf(c.Keypers, g.Sender) >= 0 && validSig(m.sign, g.Sender, g.Signature) {
				m.sigs[g.Sender] = g.Signature
			}
		}
	}
	return len(m.sigs)
}

func (k *Kp) checkShare(eon, batch uint64, raw []byte, b uint64, h int64) {
	s := k.s
	c, active := s.batchConfig(batch)
	if !active || b < end(c, batch) {
		s.fail("C25", "k%d released its share for batch %d at block %d before the batch is over", k.id, batch, b)
		return
	}
	e := s.eonFor(batch, h)
	if e == nil || e.Eon != eon {
		s.fail("C25", "k%d released a share of eon %d for batch %d, responsible is %v", k.id, eon, batch, e)
		return
	}
	i := e.index(k.addr)
	if !bytes.Equal(s.shareOf(e, i, batch).Marshal(), raw) {
		s.fail("C25", "k%d's share for batch %d in eon %d is wrong", k.id, batch, eon)
	}
}

func (k *Kp) judgeShares(shares []share, b uint64, h int64) {
	s := k.s
	sent := map[uint64]bool{}
	for _, x := range shares {
		if k.shared[x.batch] {
			s.fail("C25", "k%d released its share for batch %d again", k.id, x.batch)
			return
		}
		k.shared[x.batch], sent[x.batch] = true, true
		s.count("shares released")
	}
	// Shuttermint has no config without keypers
	at := s.configAt(b)
	for at > 0 && len(s.O.Configs[at].Keypers) == 0 {
		at--
	}
	known := false
	for _, c := range s.cfgs {
		known = known || c.height <= h && c.index == uint64(at)
	}
	if !known {
		return
	}
	cur := s.closed(b)
	if cur > k.next+1 {
		s.count("decisions about several batches")
	}
	for x := k.next; x < cur; x++ {
		c, active := s.batchConfig(x)
		if !active || b >= end(c, x)+c.ExecutionTimeout-1 {
			s.count("batches timed out before being handled")
			continue
		}
		sc := s.shConfigFor(x, h)
		e := s.eonFor(x, h)
		if sc == nil || indexOf(sc.keypers, k.addr) < 0 || !k.hasEon(e) {
			continue
		}
		if !sent[x] && !k.known(e, x) {
			s.fail("C25", "k%d did not release its share for batch %d of eon %d at block %d (batch ended at %d, times out at %d)", k.id, x, e.Eon, b, end(c, x), end(c, x)+c.ExecutionTimeout)
			return
		}
	}
	k.next = cur
}

// delay is how long a keyper has to leave a half step to others.
func (k *Kp) delay(c *contract.BatchConfig, hs uint64) uint64 {
	n := uint64(len(c.Keypers))
	if n <= 1 {
		return 0
	}
	st := k.cfg.ExecutionStaggering
	if m := c.ExecutionTimeout / (2 * (n - 1)); m < st {
		st = m
	}
	i := indexOf(c.Keypers, k.addr)
	if i < 0 {
		i = 0
	}
	return (hs + uint64(i)) % n * st
}

// due is the action a keyper has to take for a half step.
func (k *Kp) due(hs uint64, b uint64) string {
	s := k.s
	x := hs / 2
	c, active := s.batchConfig(x)
	if !active {
		return ""
	}
	e, d := end(c, x), k.delay(c, hs)
	if hs%2 == 0 && b >= e+c.ExecutionTimeout {
		if b >= e+c.ExecutionTimeout+d {
			return fmt.Sprintf("skip %d", x)
		}
		return ""
	}
	i := indexOf(c.Keypers, k.addr)
	if i < 0 || b < e+d {
		return ""
	}
	if hs%2 == 1 {
		return fmt.Sprintf("plain %d %x", x, s.O.BatchTxs(x, 1, s.O.Head()))
	}
	m := k.batches[x]
	if m == nil || !m.empty && uint64(k.signatures(x, m, c)) < c.Threshold {
		return ""
	}
	return fmt.Sprintf("cipher %d %x %x by %d", x, ek.ChainHash(s.O.BatchTxs(x, 0, s.O.Head())), m.txs, i)
}

func showStep(a fx.IAction) (string, uint64) {
	switch x := a.(type) {
	case *fx.ExecuteCipherBatch:
		return fmt.Sprintf("cipher %d %x %x by %d", x.BatchIndex, x.CipherBatchHash, x.Transactions, x.KeyperIndex), 2 * x.BatchIndex
	case *fx.ExecutePlainBatch:
		return fmt.Sprintf("plain %d %x", x.BatchIndex, x.Transactions), 2*x.BatchIndex + 1
	case *fx.SkipCipherBatch:
		return fmt.Sprintf("skip %d", x.BatchIndex), 2 * x.BatchIndex
	}
	return "", 0
}

// signed says if what is sent and what has to be sent differ in the execution of a batch that takes
// signatures.
func (k *Kp) signed(got, want []string) bool {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "", ""
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g == w {
			continue
		}
		for _, a := range []string{g, w} {
			var x uint64
			if n, _ := fmt.Sscanf(a, "cipher %d", &x); n == 1 && k.batches[x] != nil && !k.batches[x].empty {
				return true
			}
		}
		return false
	}
	return false
}

func (k *Kp) judgeSteps(steps []fx.IAction, b uint64) {
	s := k.s
	next := s.O.HalfSteps(b)
	if k.pending != nil && next > *k.pending {
		k.pending = nil
	}
	var want []string
	if k.pending == nil {
		for hs := next; hs < 2*s.closed(b); hs++ {
			w := k.due(hs, b)
			if w == "" {
				break
			}
			want = append(want, w)
		}
	}
	var got []string
	for _, a := range steps {
		g, hs := showStep(a)
		got = append(got, g)
		id := fmt.Sprint(hs)
		if k.sent[id] {
			s.fail("C27", "k%d sends half step %d again", k.id, hs)
			return
		}
		k.sent[id] = true
		p := hs
		k.pending = &p
	}
	ok := len(got) <= len(want) && (len(got) > 0 || len(want) == 0)
	for i := range got {
		ok = ok && got[i] == want[i]
	}
	if !ok {
		prop := "C27"
		if s.mix.Focus == "C26" && k.signed(got, want) {
			prop = "C26"
		}
		if len(got) > 0 && len(want) > 0 && strings.HasPrefix(got[0], "cipher") && strings.HasPrefix(want[0], "cipher") && len(got) <= len(want) {
			prop = "C26" // the right half steps but the wrong transactions
			if s.mix.Focus == "C27" {
				prop = "C27"
			}
		}
		s.fail(prop, "k%d at block %d with %d half steps executed sends\n%s\ninstead of\n%s", k.id, b, next, strings.Join(got, "\n"), strings.Join(want, "\n"))
		return
	}
	if len(got) == 0 {
		return
	}
	for _, g := range got {
		s.count("sent " + strings.Fields(g)[0])
	}
	if len(got) > 1 {
		s.count("several half steps at once")
	}
	if b == s.O.Head() {
		k.acceptedSteps(steps, next)
	}
}

// trial runs actions in the next block of a copy of the chain.
func (k *Kp) trial(as []fx.IAction) (failed string, w *ek.World) {
	x := *k.s.O.World
	w = &x
	w.Chain = k.s.O.Chain.Fork()
	caller := w.Caller(k.key)
	for _, a := range as {
		auth, err := caller.Auth()
		vh.Harness(err, "auth")
		tx, err := a.(fx.MainChainTX).SendTX(caller, auth)
		if err != nil {
			return fmt.Sprintf("%v: %v", a, err), w
		}
		w.AutoMine = false
		w.Mine(1)
		if r := w.Receipt(tx.Hash()); r == nil || r.Status != 1 {
			return fmt.Sprintf("%v: reverted", a), w
		}
	}
	return "", w
}

// acceptedSteps checks that the executor contract takes half steps sent now.
func (k *Kp) acceptedSteps(steps []fx.IAction, next uint64) {
	s := k.s
	if n := len(s.O.Pending()); n > 0 || s.O.HalfStepsNow() != next || s.mix.Focus != "C27" {
		return
	}
	// each takes a block in the trial
	if len(steps) > 2 {
		steps = steps[:2]
	}
	failed, w := k.trial(steps)
	if failed != "" {
		s.fail("C27", "k%d at block %d: the executor contract refuses %s", k.id, s.O.Head(), failed)
		return
	}
	if n := w.HalfSteps(w.Head()); n != next+uint64(len(steps)) {
		s.fail("C27", "k%d at block %d: %d half steps after executing %d from %d on", k.id, s.O.Head(), n, len(steps), next)
		return
	}
	s.count("executions tried on the contract")
}

func (k *Kp) judgeOther(as []fx.IAction, b uint64) {
	s := k.s
	accuse, appeal := map[uint64]bool{}, map[uint64]bool{}
	for _, a := range as {
		switch x := a.(type) {
		case *fx.Accuse:
			if accuse[x.HalfStep] || k.accused[x.HalfStep] {
				s.fail("C28", "k%d accuses for half step %d again", k.id, x.HalfStep)
				return
			}
			accuse[x.HalfStep], k.accused[x.HalfStep] = true, true
		case *fx.Appeal:
			hs := x.Authorization.HalfStep
			if appeal[hs] || k.appeals[hs] {
				s.fail("C28", "k%d appeals for half step %d again", k.id, hs)
				return
			}
			appeal[hs], k.appeals[hs] = true, true
		}
	}
	var hss []uint64
	for hs := range s.exec {
		hss = append(hss, hs)
	}
	sort.Slice(hss, func(i, j int) bool { return hss[i] < hss[j] })
	for _, hs := range hss {
		ex := s.exec[hs]
		m := k.batches[hs/2]
		c, _ := s.batchConfig(hs / 2)
		if ex.block > b || m == nil {
			continue
		}
		ac := s.acc[hs]
		if ac != nil && ac.block > b {
			ac = nil
		}
		wrong := ex.hash != m.hash
		if wrong && !k.judged[hs] {
			s.count("wrong executions seen")
			if ac == nil && !accuse[hs] && indexOf(c.Keypers, k.addr) >= 0 {
				s.fail("C28", "k%d does not accuse for half step %d in which %x was executed instead of %x", k.id, hs, ex.hash, m.hash)
				return
			}
		}
		if accuse[hs] && !wrong {
			s.fail("C28", "k%d accuses for half step %d in which the right transactions were executed", k.id, hs)
			return
		}
		if accuse[hs] && indexOf(c.Keypers, k.addr) < 0 {
			s.fail("C28", "k%d accuses for half step %d without being a keyper of the batch", k.id, hs)
			return
		}
		if accuse[hs] && k.judged[hs] {
			s.fail("C28", "k%d accuses late for half step %d", k.id, hs)
			return
		}
		delete(accuse, hs)
		k.judged[hs] = true
		have := k.signatures(hs/2, m, c)
		if ac != nil && (ac.appealed == 0 || ac.appealed > b) && !wrong {
			s.count("wrong accusations seen")
			if uint64(have) >= c.Threshold && !k.appeals[hs] {
				s.fail("C28", "k%d does not appeal for half step %d of which it has %d of %d signatures", k.id, hs, have, c.Threshold)
				return
			}
			if appeal[hs] && uint64(have) < c.Threshold {
				s.fail("C28", "k%d appeals for half step %d of which it has %d of %d signatures", k.id, hs, have, c.Threshold)
				return
			}
			delete(appeal, hs)
		}
	}
	for hs := range accuse {
		s.fail("C28", "k%d accuses for half step %d for which there is no reason at block %d", k.id, hs, b)
		return
	}
	for hs := range appeal {
		s.fail("C28", "k%d appeals for half step %d for which there is no reason at block %d", k.id, hs, b)
		return
	}
	for _, a := range as {
		if b != s.O.Head() || len(s.O.Pending()) > 0 || s.mix.Focus != "C28" {
			break
		}
		// nothing that isn't in the view may have happened since
		half := uint64(0)
		switch x := a.(type) {
		case *fx.Accuse:
			half = x.HalfStep
		case *fx.Appeal:
			half = x.Authorization.HalfStep
		}
		if s.touched[half] {
			continue
		}
		failed, w := k.trial([]fx.IAction{a})
		if failed != "" {
			s.fail("C28", "k%d at block %d: the slasher refuses %s", k.id, b, failed)
			return
		}
		out, err := w.View(w.Head(), w.Slasher, ek.SlasherABI, "accusations", half)
		vh.Harness(err, "accusations")
		_, isAppeal := a.(*fx.Appeal)
		if out[0].(bool) != true || out[1].(bool) != isAppeal {
			s.fail("C28", "k%d at block %d: after %v the accusation is %v", k.id, b, a, out)
			return
		}
		s.count(fmt.Sprintf("%T accepted by the slasher", a))
	}
}
