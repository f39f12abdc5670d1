package ak

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// Cfg is a batch config of the model.
type Cfg struct {
	Start, Threshold, Index uint64
	Keypers                 []common.Address
	Contract                common.Address
	Started, Updated        bool
}

// Has tells whether a is one of the keypers.
func (c *Cfg) Has(a common.Address) bool {
	for _, k := range c.Keypers {
		if k == a {
			return true
		}
	}
	return false
}

func (c *Cfg) sameKeypers(o *Cfg) bool {
	if len(c.Keypers) != len(o.Keypers) {
		return false
	}
	for i := range c.Keypers {
		if c.Keypers[i] != o.Keypers[i] {
			return false
		}
	}
	return true
}

func (c *Cfg) key() string {
	return fmt.Sprint(c.Start, c.Threshold, c.Index, c.Keypers, c.Contract, c.Started, c.Updated)
}

type eon struct {
	cfg         Cfg
	evals       map[[2]common.Address]bool
	commitments map[common.Address]bool
	accusations map[common.Address]bool
	apologies   map[common.Address]bool
}

// Model is an independent description of what the application does.
type Model struct {
	Chain      string
	Cfgs       []*Cfg
	votes      map[common.Address]string
	startVotes map[uint64]map[common.Address]uint64 // config index -> sender -> start batch index
	started    map[common.Address]bool
	Eons       []*eon // eon number i+1
	nonces     map[common.Address]map[uint64]bool
	ids        map[common.Address]string
	sigCfg     map[uint64]*Cfg
	sigs       map[uint64]map[common.Address]bool
	Validators map[string]int64
	Dev        bool
	Why        string // why the last transaction was refused
	// mempool
	mpCount map[common.Address]int
	mpNonce map[common.Address]map[uint64]bool
}

// NewModel is the model after InitChain.
func NewModel(g Genesis) *Model {
	m := &Model{
		Chain:      Chain,
		Cfgs:       []*Cfg{{Threshold: g.Threshold, Keypers: g.Keypers}},
		votes:      map[common.Address]string{},
		startVotes: map[uint64]map[common.Address]uint64{},
		started:    map[common.Address]bool{},
		nonces:     map[common.Address]map[uint64]bool{},
		ids:        map[common.Address]string{},
		sigCfg:     map[uint64]*Cfg{},
		sigs:       map[uint64]map[common.Address]bool{},
		Validators: map[string]int64{},
	}
	for k, v := range g.Validators {
		m.Validators[k] = v
	}
	m.Commit()
	return m
}

// Last is the latest config.
func (m *Model) Last() *Cfg { return m.Cfgs[len(m.Cfgs)-1] }

// CfgFor is the config responsible for a batch.
func (m *Model) CfgFor(batch uint64) *Cfg {
	var r *Cfg
	for _, c := range m.Cfgs {
		if c.Start <= batch {
			r = c // starts do not decrease, the last one wins
		}
	}
	return r
}

// Member tells whether a is a keyper of any config.
func (m *Model) Member(a common.Address) bool {
	for _, c := range m.Cfgs {
		if c.Has(a) {
			return true
		}
	}
	return false
}

// NonceUsed tells whether the pair was used by a delivered transaction.
func (m *Model) NonceUsed(a common.Address, n uint64) bool { return m.nonces[a][n] }

// CheckedIn tells whether a has checked in.
func (m *Model) CheckedIn(a common.Address) bool { _, ok := m.ids[a]; return ok }

// Check is CheckTx.
func (m *Model) Check(tx []byte) bool {
	a, msg, ok := Decode(tx)
	m.Why = ""
	switch {
	case !ok:
		m.Why = "decode"
	case string(msg.ChainId) != m.Chain:
		m.Why = "chain"
	case m.nonces[a][msg.RandomNonce], m.mpNonce[a][msg.RandomNonce]:
		m.Why = "nonce"
	case !m.Member(a):
		m.Why = "outsider"
	case m.mpCount[a] >= 10:
		m.Why = "limit"
	}
	if m.Why != "" {
		return false
	}
	m.mpCount[a]++
	if m.mpNonce[a] == nil {
		m.mpNonce[a] = map[uint64]bool{}
	}
	m.mpNonce[a][msg.RandomNonce] = true
	return true
}

// Commit starts a new mempool allowance.
func (m *Model) Commit() {
	m.mpCount = map[common.Address]int{}
	m.mpNonce = map[common.Address]map[uint64]bool{}
}

// Deliver is DeliverTx: whether the transaction is accepted and the events it emits.
func (m *Model) Deliver(tx []byte) (bool, []shutterevents.IEvent) {
	a, msg, ok := Decode(tx)
	m.Why = "content"
	if !ok {
		m.Why = "decode"
		return false, nil
	}
	if string(msg.ChainId) != m.Chain {
		m.Why = "chain"
		return false, nil
	}
	if m.nonces[a][msg.RandomNonce] {
		m.Why = "nonce"
		return false, nil
	}
	if m.nonces[a] == nil {
		m.nonces[a] = map[uint64]bool{}
	}
	m.nonces[a][msg.RandomNonce] = true
	p := msg.GetMsg()
	switch {
	case p.GetBatchConfig() != nil:
		return m.batchConfig(a, p.GetBatchConfig())
	case p.GetBatchConfigStarted() != nil:
		if len(m.Cfgs) >= 2 && !m.Cfgs[len(m.Cfgs)-2].Has(a) {
			return m.no("sender")
		}
		if len(m.Cfgs) < 2 || p.GetBatchConfigStarted().BatchConfigIndex != m.Last().Index {
			return false, nil
		}
		if !m.Last().Started {
			m.started[a] = true
		}
		return true, nil
	case p.GetCheckIn() != nil:
		return m.checkIn(a, p.GetCheckIn())
	case p.GetEonStartVote() != nil:
		return m.eonVote(a, p.GetEonStartVote().StartBatchIndex)
	case p.GetDecryptionSignature() != nil:
		s := p.GetDecryptionSignature()
		c := m.sigCfg[s.BatchIndex]
		if c == nil {
			c = m.CfgFor(s.BatchIndex)
		}
		if !c.Has(a) {
			return m.no("sender")
		}
		if m.sigs[s.BatchIndex][a] {
			return m.no("again")
		}
		if m.sigs[s.BatchIndex] == nil {
			m.sigs[s.BatchIndex] = map[common.Address]bool{}
			m.sigCfg[s.BatchIndex] = c
		}
		m.sigs[s.BatchIndex][a] = true
		return true, []shutterevents.IEvent{&shutterevents.DecryptionSignature{BatchIndex: s.BatchIndex, Sender: a, Signature: s.Signature}}
	case p.GetPolyEval() != nil, p.GetPolyCommitment() != nil, p.GetAccusation() != nil, p.GetApology() != nil:
		return m.dkg(a, p)
	case p.GetEpochSecretKeyShare() != nil:
		s := p.GetEpochSecretKeyShare()
		pt := new(bn256.G1)
		if _, err := pt.Unmarshal(s.Share); err != nil {
			return false, nil
		}
		return true, []shutterevents.IEvent{&rawShare{s.Eon, s.Epoch, a, pt.Marshal()}}
	}
	return false, nil
}

func (m *Model) batchConfig(a common.Address, b *shmsg.BatchConfig) (bool, []shutterevents.IEvent) {
	c := &Cfg{Start: b.StartBatchIndex, Threshold: b.Threshold, Index: b.ConfigIndex, Started: b.Started, Updated: b.ValidatorsUpdated}
	seen := map[string]bool{}
	for _, k := range b.Keypers {
		if len(k) != 20 || seen[string(k)] {
			return false, nil
		}
		seen[string(k)] = true
		c.Keypers = append(c.Keypers, common.BytesToAddress(k))
	}
	if len(b.ConfigContractAddress) != 20 {
		return false, nil
	}
	c.Contract = common.BytesToAddress(b.ConfigContractAddress)
	last := m.Last()
	if c.key() == last.key() {
		return true, nil
	}
	if len(c.Keypers) == 0 || c.Threshold == 0 || new(big.Int).SetUint64(c.Threshold).Cmp(big.NewInt(int64(len(c.Keypers)))) > 0 ||
		c.Start < last.Start || c.Index <= last.Index {
		return false, nil
	}
	if !last.Has(a) {
		return m.no("sender")
	}
	if _, ok := m.votes[a]; ok {
		return m.no("again")
	}
	m.votes[a] = c.key()
	n := uint64(0)
	for _, v := range m.votes {
		if v == c.key() {
			n++
		}
	}
	if n < last.Threshold {
		return true, nil
	}
	m.votes = map[common.Address]string{}
	m.started = map[common.Address]bool{}
	m.Cfgs = append(m.Cfgs, c)
	evs := []shutterevents.IEvent{&shutterevents.BatchConfig{Keypers: c.Keypers, StartBatchIndex: c.Start, Threshold: c.Threshold, ConfigIndex: c.Index}}
	if len(m.Eons) == 0 || m.Eons[len(m.Eons)-1].cfg.Threshold != c.Threshold || !m.Eons[len(m.Eons)-1].cfg.sameKeypers(c) {
		evs = append(evs, m.startEon(c, c.Start))
	}
	return true, evs
}

func (m *Model) startEon(c *Cfg, start uint64) shutterevents.IEvent {
	m.Eons = append(m.Eons, &eon{*c, map[[2]common.Address]bool{}, map[common.Address]bool{}, map[common.Address]bool{}, map[common.Address]bool{}})
	return &shutterevents.EonStarted{Eon: uint64(len(m.Eons)), BatchIndex: start}
}

func (m *Model) checkIn(a common.Address, c *shmsg.CheckIn) (bool, []shutterevents.IEvent) {
	if !m.Member(a) {
		return m.no("sender")
	}
	if m.CheckedIn(a) {
		return m.no("again")
	}
	if len(c.ValidatorPublicKey) != 32 {
		return false, nil
	}
	pub, err := crypto.DecompressPubkey(c.EncryptionPublicKey)
	if err != nil {
		return false, nil
	}
	m.ids[a] = string(c.ValidatorPublicKey)
	return true, []shutterevents.IEvent{&rawCheckIn{a, crypto.FromECDSAPub(pub)}}
}

func (m *Model) eonVote(a common.Address, start uint64) (bool, []shutterevents.IEvent) {
	c := m.CfgFor(start)
	if !c.Has(a) {
		return m.no("sender")
	}
	if m.startVotes[c.Index] == nil {
		m.startVotes[c.Index] = map[common.Address]uint64{}
	}
	m.startVotes[c.Index][a] = start
	n := uint64(0)
	for _, v := range m.startVotes[c.Index] {
		if v == start {
			n++
		}
	}
	if n < c.Threshold {
		return true, nil
	}
	delete(m.startVotes, c.Index)
	return true, []shutterevents.IEvent{m.startEon(c, start)}
}

func (m *Model) eonOf(n uint64) *eon {
	if n == 0 || n > uint64(len(m.Eons)) {
		return nil
	}
	return m.Eons[n-1]
}

func peers(e *eon, a common.Address, raw [][]byte) ([]common.Address, bool) {
	var r []common.Address
	seen := map[string]bool{}
	for _, b := range raw {
		if len(b) != 20 || seen[string(b)] {
			return nil, false
		}
		seen[string(b)] = true
		r = append(r, common.BytesToAddress(b))
	}
	for _, p := range r {
		if p == a || !e.cfg.Has(p) {
			return nil, false
		}
	}
	return r, true
}

func (m *Model) dkg(a common.Address, p *shmsg.Message) (bool, []shutterevents.IEvent) {
	no := func() (bool, []shutterevents.IEvent) { return false, nil }
	again := func() (bool, []shutterevents.IEvent) { return m.no("again") }
	sender := func() (bool, []shutterevents.IEvent) { return m.no("sender") }
	one := func(e shutterevents.IEvent) (bool, []shutterevents.IEvent) { return true, []shutterevents.IEvent{e} }
	if x := p.GetPolyEval(); x != nil {
		e := m.eonOf(x.Eon)
		if e != nil && !e.cfg.Has(a) {
			return sender()
		}
		if e == nil || len(x.Receivers) != len(x.EncryptedEvals) {
			return no()
		}
		rs, ok := peers(e, a, x.Receivers)
		if !ok {
			return no()
		}
		for _, r := range rs {
			if e.evals[[2]common.Address{a, r}] {
				return again()
			}
		}
		for _, r := range rs {
			e.evals[[2]common.Address{a, r}] = true
		}
		return one(&shutterevents.PolyEval{Sender: a, Eon: x.Eon, Receivers: rs, EncryptedEvals: x.EncryptedEvals})
	}
	if x := p.GetPolyCommitment(); x != nil {
		e := m.eonOf(x.Eon)
		if e != nil && !e.cfg.Has(a) {
			return sender()
		}
		if e != nil && e.commitments[a] {
			return again()
		}
		if e == nil {
			return no()
		}
		var pts [][]byte
		for _, g := range x.Gammas {
			pt := new(bn256.G2)
			if _, err := pt.Unmarshal(g); err != nil {
				return no()
			}
			pts = append(pts, pt.Marshal())
		}
		e.commitments[a] = true
		return one(&rawCommitment{x.Eon, a, pts})
	}
	if x := p.GetAccusation(); x != nil {
		e := m.eonOf(x.Eon)
		if e != nil && !e.cfg.Has(a) {
			return sender()
		}
		if e != nil && e.accusations[a] {
			return again()
		}
		if e == nil {
			return no()
		}
		rs, ok := peers(e, a, x.Accused)
		if !ok {
			return no()
		}
		e.accusations[a] = true
		return one(&shutterevents.Accusation{Eon: x.Eon, Sender: a, Accused: rs})
	}
	x := p.GetApology()
	e := m.eonOf(x.Eon)
	if e != nil && !e.cfg.Has(a) {
		return sender()
	}
	if e != nil && e.apologies[a] {
		return again()
	}
	if e == nil || len(x.Accusers) != len(x.PolyEvals) {
		return no()
	}
	rs, ok := peers(e, a, x.Accusers)
	if !ok {
		return no()
	}
	var es []*big.Int
	for _, b := range x.PolyEvals {
		es = append(es, new(big.Int).SetBytes(b))
	}
	e.apologies[a] = true
	return one(&shutterevents.Apology{Eon: x.Eon, Sender: a, Accusers: rs, PolyEval: es})
}

const noValidator = "novalidator\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"

// EndBlock returns the validator updates of the block.
func (m *Model) EndBlock() []abcitypes.ValidatorUpdate {
	last := m.Last()
	if len(m.Cfgs) > 1 && uint64(len(m.started)) >= m.Cfgs[len(m.Cfgs)-2].Threshold {
		last.Started = true
		m.started = map[common.Address]bool{}
	}
	in := uint64(0)
	for _, k := range last.Keypers {
		if m.CheckedIn(k) {
			in++
		}
	}
	if last.Started && in >= last.Threshold {
		last.Updated = true
	}
	now := m.Validators
	for _, c := range m.Cfgs {
		if c.Started && c.Updated {
			now = map[string]int64{}
			for _, k := range c.Keypers {
				if v, ok := m.ids[k]; ok {
					now[v] += 10
				} else {
					now[noValidator] += 10
				}
			}
		}
	}
	diff := map[string]int64{}
	for k := range m.Validators {
		if _, ok := now[k]; !ok {
			diff[k] = 0
		}
	}
	for k, v := range now {
		if m.Validators[k] != v {
			diff[k] = v
		}
	}
	m.Validators = now
	if m.Dev {
		return nil
	}
	var ks []string
	for k := range diff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []abcitypes.ValidatorUpdate
	for _, k := range ks {
		r = append(r, Update([]byte(k), diff[k]))
	}
	return r
}

// Updates renders validator updates for comparison.
func Updates(us []abcitypes.ValidatorUpdate) string {
	var b strings.Builder
	for _, u := range us {
		fmt.Fprintf(&b, "%x=%d ", u.PubKey.GetEd25519(), u.Power)
	}
	return b.String()
}

// rawX events carry points and keys as bytes.
type (
	rawShare struct {
		eon, epoch uint64
		sender     common.Address
		share      []byte
	}
	rawCheckIn struct {
		sender common.Address
		key    []byte
	}
	rawCommitment struct {
		eon    uint64
		sender common.Address
		pts    [][]byte
	}
)

func (*rawShare) MakeABCIEvent() abcitypes.Event      { panic("not an event of the application") }
func (*rawCheckIn) MakeABCIEvent() abcitypes.Event    { panic("not an event of the application") }
func (*rawCommitment) MakeABCIEvent() abcitypes.Event { panic("not an event of the application") }

// Show renders an event, without its height, for comparison.
func Show(e shutterevents.IEvent) string {
	switch x := e.(type) {
	case *shutterevents.Accusation:
		return fmt.Sprintf("Accusation %d %x %x", x.Eon, x.Sender, x.Accused)
	case *shutterevents.Apology:
		return fmt.Sprintf("Apology %d %x %x %v", x.Eon, x.Sender, x.Accusers, x.PolyEval)
	case *shutterevents.BatchConfig:
		return fmt.Sprintf("BatchConfig %d %d %d %x", x.StartBatchIndex, x.Threshold, x.ConfigIndex, x.Keypers)
	case *shutterevents.CheckIn:
		return Show(&rawCheckIn{x.Sender, crypto.FromECDSAPub(x.EncryptionPublicKey.ExportECDSA())})
	case *rawCheckIn:
		return fmt.Sprintf("CheckIn %x %x", x.sender, x.key)
	case *shutterevents.DecryptionSignature:
		return fmt.Sprintf("DecryptionSignature %d %x %x", x.BatchIndex, x.Sender, x.Signature)
	case *shutterevents.EonStarted:
		return fmt.Sprintf("EonStarted %d %d", x.Eon, x.BatchIndex)
	case *shutterevents.PolyCommitment:
		r := &rawCommitment{x.Eon, x.Sender, nil}
		if x.Gammas != nil {
			for _, g := range *x.Gammas {
				r.pts = append(r.pts, g.Marshal())
			}
		}
		return Show(r)
	case *rawCommitment:
		return fmt.Sprintf("PolyCommitment %d %x %x", x.eon, x.sender, x.pts)
	case *shutterevents.PolyEval:
		return fmt.Sprintf("PolyEval %d %x %x %x", x.Eon, x.Sender, x.Receivers, x.EncryptedEvals)
	case *shutterevents.EpochSecretKeyShare:
		b, _ := x.Share.GobEncode()
		return Show(&rawShare{x.Eon, x.Epoch, x.Sender, b})
	case *rawShare:
		return fmt.Sprintf("EpochSecretKeyShare %d %d %x %x", x.eon, x.epoch, x.sender, x.share)
	}
	return fmt.Sprintf("unknown %T", e)
}

// ShowAll renders a list of events.
func ShowAll(es []shutterevents.IEvent) string {
	var r []string
	for _, e := range es {
		r = append(r, Show(e))
	}
	return strings.Join(r, "\n")
}

// Parse renders ABCI events.
func Parse(evs []abcitypes.Event) string {
	var r []string
	for _, ev := range evs {
		e, err := shutterevents.MakeEvent(ev, 1)
		if err != nil {
			r = append(r, fmt.Sprintf("unparsable event %v: %v", ev, err))
			continue
		}
		r = append(r, Show(e))
	}
	return strings.Join(r, "\n")
}

// SameEvents compares ABCI events byte by byte.
func SameEvents(a, b []abcitypes.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || len(a[i].Attributes) != len(b[i].Attributes) {
			return false
		}
		for j := range a[i].Attributes {
			x, y := a[i].Attributes[j], b[i].Attributes[j]
			if !bytes.Equal(x.Key, y.Key) || !bytes.Equal(x.Value, y.Value) || x.Index != y.Index {
				return false
			}
		}
	}
	return true
}

func (m *Model) no(why string) (bool, []shutterevents.IEvent) {
	m.Why = why
	return false, nil
}
