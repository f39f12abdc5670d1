package ak

import (
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/vh"
)

// Pool is the number of keys used as keypers, Outsiders follow them.
const (
	Pool      = 6
	Outsiders = 2
)

// KeyOf is the key index of the i-th of a pool of keypers, which may be larger than Pool.
func KeyOf(i int) int {
	if i < Pool {
		return i
	}
	return 300 + i
}

func keysOf(is []int) []int {
	for k, i := range is {
		is[k] = KeyOf(i)
	}
	return is
}

// maxPool is the largest number of keypers.
const maxPool = 80

// drawPool draws the number of keypers in a history.
func drawPool(t *rapid.T) int {
	switch k := pick(t, "pool", 100); {
	case k >= 97:
		return rapid.IntRange(60, maxPool).Draw(t, "huge pool")
	case k >= 85:
		return rapid.IntRange(Pool+1, 24).Draw(t, "large pool")
	}
	return Pool
}

// drawThreshold draws a threshold for n keypers, so small that histories reach it.
func drawThreshold(t *rapid.T, label string, n int) uint64 {
	if n > Pool && chance(t, label+" small", 60) {
		n = 3
	}
	return uint64(rapid.IntRange(1, n).Draw(t, label))
}

// Mix weighs the kinds of messages.
type Mix struct {
	Config, Started, CheckIn, EonVote, Sig, Eval, Commit, Accuse, Apology, Share, Odd int
	// Twisted: percentage of messages with wrong content, Bad: of transactions that are replays, altered and so on
	Twisted, Bad int
	// Members: percentage of senders drawn from the entitled ones
	Members int
}

// Kinds of messages, for classes.
var kinds = []string{"config", "started", "checkin", "eonvote", "sig", "eval", "commit", "accuse", "apology", "share", "odd"}

func (m Mix) weights() []int {
	return []int{m.Config, m.Started, m.CheckIn, m.EonVote, m.Sig, m.Eval, m.Commit, m.Accuse, m.Apology, m.Share, m.Odd}
}

// Even is a mix of everything.
var Even = Mix{Config: 12, Started: 6, CheckIn: 8, EonVote: 8, Sig: 6, Eval: 8, Commit: 6, Accuse: 6, Apology: 6, Share: 3, Odd: 1, Twisted: 12, Bad: 10, Members: 88}

// Tx is a generated transaction.
type Tx struct {
	Raw    []byte
	Kind   string
	Sender int // key index, -1 if there is none
	Bad    string
	Msg    *shmsg.Message
	Desc   string
}

// Driver generates transactions fitting the model's state.
type Driver struct {
	M         *Model
	G         Genesis
	Mix       Mix
	proposals []*shmsg.BatchConfig
	election  int
	nonce     uint64
	Sent      []Tx
	nonces    map[int][]uint64
	Log       []string
	Pool      int
	Chain     string   // chain id of the transactions
	Vals      [][]byte // validator keys of check-ins, if given
}

func pick(t *rapid.T, label string, n int) int { return rapid.IntRange(0, n-1).Draw(t, label) }

func chance(t *rapid.T, label string, percent int) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-percent
}

func weighted(t *rapid.T, label string, ws []int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	panic("unreachable")
}

// subset draws k distinct keys below n, in random order.
func subset(t *rapid.T, label string, n, k int) []int {
	p := rapid.Permutation(iota_(n)).Draw(t, label)
	return p[:k]
}

func iota_(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// DrawGenesis draws the start of a chain.
func DrawGenesis(t *rapid.T, pool int) Genesis {
	n := rapid.IntRange(1, pool-1).Draw(t, "genesis keypers")
	g := Genesis{Keypers: Addrs(keysOf(subset(t, "genesis set", pool, n))), Validators: map[string]int64{}}
	g.Threshold = drawThreshold(t, "genesis threshold", n)
	for i := 0; i < rapid.IntRange(1, 3).Draw(t, "genesis validators"); i++ {
		g.Validators[string(Val(i))] = int64(rapid.IntRange(1, 20).Draw(t, "power"))
	}
	return g
}

// NewDriver starts a history.
func NewDriver(t *rapid.T, mix Mix) *Driver {
	pool := drawPool(t)
	return DriverFor(DrawGenesis(t, pool), mix, pool)
}

// DriverFor starts a history with this genesis and number of keypers.
func DriverFor(g Genesis, mix Mix, pool int) *Driver {
	d := &Driver{M: NewModel(g), G: g, Mix: mix, Pool: pool, Chain: Chain, nonces: map[int][]uint64{}}
	d.Log = append(d.Log, fmt.Sprintf("genesis threshold %d of %s", g.Threshold, names(g.Keypers)))
	return d
}

// NewApp makes an application started with the driver's genesis.
func (d *Driver) NewApp() *app.ShutterApp {
	a := app.NewShutterApp()
	a.InitChain(d.G.InitChain())
	return a
}

// Name gives a short name to an address.
func Name(a common.Address) string {
	if i, ok := indexes()[a]; ok {
		return fmt.Sprintf("k%d", i)
	}
	return a.Hex()[:8]
}

// indexes of the keys of all keypers and outsiders.
var indexes = sync.OnceValue(func() map[common.Address]int {
	r := map[common.Address]int{}
	for i := 0; i < Pool+Outsiders; i++ {
		r[Addr(i)] = i
	}
	for i := Pool; i < maxPool; i++ {
		r[Addr(KeyOf(i))] = KeyOf(i)
	}
	return r
})

func names(as []common.Address) string {
	var r []string
	for _, a := range as {
		r = append(r, Name(a))
	}
	return "[" + strings.Join(r, " ") + "]"
}

func bnames(as [][]byte) string {
	var r []string
	for _, a := range as {
		if len(a) == 20 {
			r = append(r, Name(common.BytesToAddress(a)))
		} else {
			r = append(r, fmt.Sprintf("%dB", len(a)))
		}
	}
	return "[" + strings.Join(r, " ") + "]"
}

func keyIndex(a common.Address) int {
	return indexes()[a]
}

// sender draws a key index, mostly one of the entitled.
func (d *Driver) sender(t *rapid.T, entitled []common.Address) int {
	if len(entitled) > 0 && chance(t, "member", d.Mix.Members) {
		return keyIndex(entitled[pick(t, "sender", len(entitled))])
	}
	if d.Pool > Pool && rapid.Bool().Draw(t, "of pool") {
		return KeyOf(pick(t, "any of pool", d.Pool))
	}
	return pick(t, "any sender", Pool+Outsiders)
}

func addrBytes(as []common.Address) [][]byte {
	var r [][]byte
	for _, a := range as {
		r = append(r, a.Bytes())
	}
	return r
}

func (d *Driver) newProposal(t *rapid.T) *shmsg.BatchConfig {
	last := d.M.Last()
	if len(d.proposals) > 0 && chance(t, "near copy", 60) {
		b := proto.Clone(d.proposals[0]).(*shmsg.BatchConfig)
		switch pick(t, "difference", 7) {
		case 0:
			b.ConfigContractAddress = Addr(100 + pick(t, "contract", 2)).Bytes()
		case 1:
			b.Started = !b.Started
		case 2:
			b.ValidatorsUpdated = !b.ValidatorsUpdated
		case 3:
			b.Threshold = uint64(rapid.IntRange(1, len(b.Keypers)).Draw(t, "threshold"))
		case 4:
			b.StartBatchIndex++
		case 5:
			b.ConfigIndex++
		case 6:
			n := len(b.Keypers)
			b.Keypers[0], b.Keypers[n-1] = b.Keypers[n-1], b.Keypers[0]
		}
		return b
	}
	n := rapid.IntRange(1, d.Pool).Draw(t, "keypers")
	ks := Addrs(keysOf(subset(t, "keyper set", d.Pool, n)))
	th := drawThreshold(t, "threshold", n)
	if len(d.M.Cfgs) > 1 && chance(t, "same set", 30) {
		ks, th = last.Keypers, last.Threshold
		if chance(t, "older set", 30) {
			c := d.M.Cfgs[pick(t, "older", len(d.M.Cfgs))]
			ks, th = c.Keypers, c.Threshold
		}
	}
	b := &shmsg.BatchConfig{
		StartBatchIndex:       last.Start + rapid.SampledFrom([]uint64{0, 0, 1, 5, 10}).Draw(t, "start step"),
		Keypers:               addrBytes(ks),
		Threshold:             th,
		ConfigContractAddress: Addr(100 + pick(t, "contract", 2)).Bytes(),
		ConfigIndex:           last.Index + rapid.SampledFrom([]uint64{1, 1, 1, 2, 1000}).Draw(t, "index step"),
	}
	if chance(t, "started flag", 8) {
		b.Started = true
	}
	if chance(t, "updated flag", 5) {
		b.ValidatorsUpdated = true
	}
	return b
}

func (d *Driver) twistConfig(t *rapid.T, b *shmsg.BatchConfig) *shmsg.BatchConfig {
	b = proto.Clone(b).(*shmsg.BatchConfig)
	last := d.M.Last()
	switch pick(t, "twist", 15) {
	case 0:
		b.Threshold = 0
	case 1:
		b.Threshold = uint64(len(b.Keypers)) + 1
	case 2:
		b.Threshold = vh.U64().Draw(t, "threshold")
	case 3:
		b.Threshold |= rapid.SampledFrom([]uint64{1 << 63, 1 << 32, 1<<63 | 1<<62}).Draw(t, "high bit")
	case 4:
		b.Keypers = append(b.Keypers, b.Keypers[0])
	case 5:
		b.Keypers = nil
	case 6:
		i := pick(t, "which", len(b.Keypers))
		b.Keypers[i] = b.Keypers[i][:19]
	case 7:
		i := pick(t, "which", len(b.Keypers))
		b.Keypers[i] = append(append([]byte{}, b.Keypers[i]...), 0)
	case 8:
		b.ConfigContractAddress = b.ConfigContractAddress[:rapid.IntRange(0, 19).Draw(t, "len")]
	case 9:
		b.ConfigIndex = last.Index
	case 10:
		if last.Index > 0 {
			b.ConfigIndex = last.Index - 1
		}
	case 11:
		if last.Start > 0 {
			b.StartBatchIndex = last.Start - 1
		}
	case 12:
		b.StartBatchIndex = vh.U64().Draw(t, "start")
	case 13:
		b.ConfigIndex = vh.U64().Draw(t, "index")
	case 14: // the config adopted last, to the letter or nearly
		b = &shmsg.BatchConfig{StartBatchIndex: last.Start, Keypers: addrBytes(last.Keypers), Threshold: last.Threshold,
			ConfigContractAddress: last.Contract.Bytes(), ConfigIndex: last.Index, Started: last.Started, ValidatorsUpdated: last.Updated}
		if chance(t, "nearly", 30) {
			b.Started = !b.Started
		}
	}
	return b
}

// bytesList draws a short list of byte strings.
func blob(t *rapid.T) []byte {
	n := rapid.SampledFrom([]int{0, 1, 3, 32, 65, 113, 200}).Draw(t, "blob length")
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "blob")
}

func (d *Driver) eonNumber(t *rapid.T) uint64 {
	n := len(d.M.Eons)
	if n == 0 || chance(t, "odd eon", d.Mix.Twisted/2) {
		return rapid.OneOf(rapid.Uint64Range(0, uint64(n)+2), vh.U64()).Draw(t, "eon")
	}
	if chance(t, "latest eon", 60) {
		return uint64(n)
	}
	return uint64(rapid.IntRange(1, n).Draw(t, "eon"))
}

func (d *Driver) eonKeypers(n uint64) []common.Address {
	if e := d.M.eonOf(n); e != nil {
		return e.cfg.Keypers
	}
	return d.M.Last().Keypers
}

func insert(t *rapid.T, l [][]byte, b []byte) [][]byte {
	i := pick(t, "position", len(l)+1)
	return append(append(append([][]byte{}, l[:i]...), b), l[i:]...)
}

// good drops the addresses that cannot be receivers of sender's messages.
func (d *Driver) good(eonNumber uint64, sender int, l [][]byte) [][]byte {
	var r [][]byte
	seen := map[string]bool{}
	for _, b := range l {
		e := d.M.eonOf(eonNumber)
		if len(b) != 20 || seen[string(b)] || b20(b) == Addr(sender) || e == nil || !e.cfg.Has(b20(b)) {
			continue
		}
		seen[string(b)] = true
		r = append(r, b)
	}
	return r
}

func b20(b []byte) common.Address { return common.BytesToAddress(b) }

func fill(l [][]byte, n int) [][]byte {
	for len(l) < n {
		l = append(l, []byte{1})
	}
	return l[:n]
}

// corrected repairs the content of an earlier message.
func (d *Driver) corrected(tx Tx) (*shmsg.Message, bool) {
	if tx.Msg == nil || tx.Sender < 0 {
		return nil, false
	}
	m := proto.Clone(tx.Msg).(*shmsg.Message)
	switch {
	case m.GetPolyEval() != nil:
		x := m.GetPolyEval()
		x.Receivers = d.good(x.Eon, tx.Sender, x.Receivers)
		x.EncryptedEvals = fill(x.EncryptedEvals, len(x.Receivers))
	case m.GetAccusation() != nil:
		x := m.GetAccusation()
		x.Accused = d.good(x.Eon, tx.Sender, x.Accused)
	case m.GetApology() != nil:
		x := m.GetApology()
		x.Accusers = d.good(x.Eon, tx.Sender, x.Accusers)
		x.PolyEvals = fill(x.PolyEvals, len(x.Accusers))
	case m.GetPolyCommitment() != nil:
		for i := range m.GetPolyCommitment().Gammas {
			m.GetPolyCommitment().Gammas[i] = G2(i)
		}
	case m.GetCheckIn() != nil:
		m.GetCheckIn().ValidatorPublicKey = Val(0)
		m.GetCheckIn().EncryptionPublicKey = crypto.CompressPubkey(&Key(200).PublicKey)
	case m.GetBatchConfig() != nil && len(d.proposals) > 0:
		m.Payload = &shmsg.Message_BatchConfig{BatchConfig: d.proposals[0]}
	default:
		return nil, false
	}
	return m, true
}

// targets draws receivers for a DKG message of sender.
func (d *Driver) targets(t *rapid.T, eonNumber uint64, sender int) [][]byte {
	var others []common.Address
	for _, a := range d.eonKeypers(eonNumber) {
		if a != Addr(sender) {
			others = append(others, a)
		}
	}
	var r [][]byte
	if len(others) > 0 {
		k := rapid.IntRange(0, len(others)).Draw(t, "targets")
		for _, i := range subset(t, "target set", len(others), k) {
			r = append(r, others[i].Bytes())
		}
	}
	if chance(t, "twist targets", d.Mix.Twisted) {
		switch pick(t, "twist", 5) {
		case 0:
			r = insert(t, r, Addr(sender).Bytes())
		case 1:
			r = insert(t, r, Addr(Pool).Bytes())
		case 2:
			if len(r) > 0 {
				r = append(r, r[0])
			}
		case 3:
			r = insert(t, r, rapid.SliceOfN(rapid.Byte(), 0, 33).Draw(t, "address"))
		case 4:
			if len(r) > 0 {
				r[len(r)-1] = r[len(r)-1][1:]
			}
		}
	}
	return r
}

func (d *Driver) blobs(t *rapid.T, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, blob(t))
	}
	if chance(t, "count", d.Mix.Twisted/2) {
		if n > 0 && rapid.Bool().Draw(t, "fewer") {
			return r[1:]
		}
		r = append(r, blob(t))
	}
	return r
}

// Message draws a message and its sender.
func (d *Driver) Message(t *rapid.T) (sender int, kind string, msg *shmsg.Message, desc string) {
	kind = kinds[weighted(t, "kind", d.Mix.weights())]
	return d.MessageOf(t, kind)
}

// MessageOf draws a message of a kind.
func (d *Driver) MessageOf(t *rapid.T, kind string) (int, string, *shmsg.Message, string) {
	m := d.M
	twisted := func() bool { return chance(t, "twisted", d.Mix.Twisted) }
	switch kind {
	case "config":
		if d.election != len(m.Cfgs) {
			d.proposals, d.election = nil, len(m.Cfgs)
		}
		var b *shmsg.BatchConfig
		if len(d.proposals) == 0 || (len(d.proposals) < 3 && chance(t, "new proposal", 12)) {
			b = d.newProposal(t)
			d.proposals = append(d.proposals, b)
		} else {
			b = d.proposals[0]
			if chance(t, "other proposal", 30) {
				b = d.proposals[pick(t, "proposal", len(d.proposals))]
			}
		}
		if twisted() {
			b = d.twistConfig(t, b)
		}
		voters := m.Last().Keypers
		if chance(t, "not yet", 65) {
			var open []common.Address
			for _, k := range voters {
				if _, ok := m.votes[k]; !ok {
					open = append(open, k)
				}
			}
			if len(open) > 0 {
				voters = open
			}
		}
		s := d.sender(t, voters)
		return s, kind, &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: b}},
			fmt.Sprintf("config #%d start %d %d of %s contract %d flags %v %v", b.ConfigIndex, b.StartBatchIndex, b.Threshold, bnames(b.Keypers), len(b.ConfigContractAddress), b.Started, b.ValidatorsUpdated)
	case "started":
		i := m.Last().Index
		if twisted() {
			i = rapid.OneOf(rapid.Uint64Range(0, i+1), vh.U64()).Draw(t, "config index")
		}
		ks := m.Last().Keypers
		if len(m.Cfgs) > 1 && chance(t, "previous", 85) {
			ks = m.Cfgs[len(m.Cfgs)-2].Keypers
		}
		return d.sender(t, ks), kind, shmsg.NewBatchConfigStarted(i), fmt.Sprintf("started #%d", i)
	case "checkin":
		var in, out []common.Address
		for _, c := range m.Cfgs {
			for _, k := range c.Keypers {
				if m.CheckedIn(k) {
					in = append(in, k)
				} else {
					out = append(out, k)
				}
			}
		}
		if len(out) == 0 || chance(t, "again", 8) {
			out = in
		}
		c := &shmsg.CheckIn{ValidatorPublicKey: Val(rapid.IntRange(0, d.Pool+1).Draw(t, "validator")), EncryptionPublicKey: crypto.CompressPubkey(&Key(200 + pick(t, "enc key", 8)).PublicKey)}
		if chance(t, "placeholder", 2) {
			c.ValidatorPublicKey = []byte(noValidator)
		}
		if d.Vals != nil {
			c.ValidatorPublicKey = append([]byte{}, d.Vals[pick(t, "validator key", len(d.Vals))]...)
		}
		if twisted() {
			switch pick(t, "twist", 4) {
			case 0:
				c.ValidatorPublicKey = c.ValidatorPublicKey[:rapid.IntRange(0, 31).Draw(t, "len")]
			case 1:
				c.ValidatorPublicKey = append(c.ValidatorPublicKey, 1)
			case 2:
				c.EncryptionPublicKey = blob(t)
			case 3:
				c.EncryptionPublicKey = crypto.FromECDSAPub(&Key(200).PublicKey)
			}
		}
		return d.sender(t, out), kind, &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: c}}, fmt.Sprintf("checkin %x %x", c.ValidatorPublicKey, c.EncryptionPublicKey)
	case "eonvote":
		b := d.batch(t)
		return d.sender(t, m.CfgFor(b).Keypers), kind, shmsg.NewEonStartVote(b), fmt.Sprintf("eonvote %d", b)
	case "sig":
		b := d.batch(t)
		c := m.CfgFor(b)
		if x := m.sigCfg[b]; x != nil && chance(t, "first config", 70) {
			c = x
		}
		sig := blob(t)
		return d.sender(t, c.Keypers), kind, shmsg.NewDecryptionSignature(b, sig), fmt.Sprintf("sig %d %x", b, sig)
	case "eval":
		e := d.eonNumber(t)
		s := d.sender(t, d.eonKeypers(e))
		rs := d.targets(t, e, s)
		x := &shmsg.PolyEval{Eon: e, Receivers: rs, EncryptedEvals: d.blobs(t, len(rs))}
		return s, kind, &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: x}}, fmt.Sprintf("eval %d %s %x", e, bnames(rs), x.EncryptedEvals)
	case "commit":
		e := d.eonNumber(t)
		s := d.sender(t, d.eonKeypers(e))
		x := &shmsg.PolyCommitment{Eon: e}
		for i := 0; i < rapid.IntRange(0, 4).Draw(t, "gammas"); i++ {
			x.Gammas = append(x.Gammas, G2(pick(t, "gamma", 12)))
		}
		if twisted() && len(x.Gammas) > 0 {
			i := pick(t, "which", len(x.Gammas))
			g := append([]byte{}, x.Gammas[i]...)
			switch pick(t, "twist", 4) {
			case 0:
				g = g[:rapid.IntRange(0, 127).Draw(t, "len")]
			case 1:
				g[pick(t, "byte", 128)] ^= 1 << uint(pick(t, "bit", 8))
			case 2:
				g = make([]byte, 128) // the point at infinity
			case 3:
				for i := range g {
					g[i] = 0xff
				}
			}
			x.Gammas[i] = g
		}
		return s, kind, &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: x}}, fmt.Sprintf("commit %d %d gammas", e, len(x.Gammas))
	case "accuse":
		e := d.eonNumber(t)
		s := d.sender(t, d.eonKeypers(e))
		rs := d.targets(t, e, s)
		return s, kind, &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: e, Accused: rs}}}, fmt.Sprintf("accuse %d %s", e, bnames(rs))
	case "apology":
		e := d.eonNumber(t)
		s := d.sender(t, d.eonKeypers(e))
		rs := d.targets(t, e, s)
		var evals [][]byte
		for range rs {
			evals = append(evals, new(big.Int).SetBytes(blob(t)).Bytes())
		}
		if chance(t, "count", d.Mix.Twisted/2) {
			evals = append(evals, []byte{1})
		}
		return s, kind, &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: e, Accusers: rs, PolyEvals: evals}}}, fmt.Sprintf("apology %d %s %x", e, bnames(rs), evals)
	case "share":
		x := &shmsg.EpochSecretKeyShare{Eon: d.eonNumber(t), Epoch: rapid.OneOf(rapid.Uint64Range(0, 20), vh.U64()).Draw(t, "epoch"), Share: G1(pick(t, "share", 12))}
		if twisted() {
			g := append([]byte{}, x.Share...)
			switch pick(t, "twist", 4) {
			case 0:
				g = g[:rapid.IntRange(0, 63).Draw(t, "len")]
			case 1:
				g[pick(t, "byte", 64)] ^= 1 << uint(pick(t, "bit", 8))
			case 2:
				g = make([]byte, 64)
			case 3:
				for i := range g {
					g[i] = 0xff
				}
			}
			x.Share = g
		}
		return d.sender(t, d.eonKeypers(x.Eon)), kind, &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: x}}, fmt.Sprintf("share %d %d %x", x.Eon, x.Epoch, x.Share)
	}
	var msg *shmsg.Message
	if rapid.Bool().Draw(t, "empty message") {
		msg = &shmsg.Message{}
	}
	return d.sender(t, m.Last().Keypers), "odd", msg, fmt.Sprintf("no payload %v", msg == nil)
}

// batch draws a batch index near the configs.
func (d *Driver) batch(t *rapid.T) uint64 {
	if chance(t, "far batch", d.Mix.Twisted/2) {
		return vh.U64().Draw(t, "batch")
	}
	c := d.M.Last()
	if len(d.M.Cfgs) > 1 && chance(t, "older config", 25) {
		c = d.M.Cfgs[pick(t, "config", len(d.M.Cfgs))]
	}
	b := c.Start + uint64(rapid.IntRange(0, 3).Draw(t, "batch"))
	if chance(t, "before", 15) && c.Start > 0 {
		b = c.Start - 1
	}
	return b
}

// Fresh draws a nonce that sender has not used; values collide across senders on purpose.
func (d *Driver) Fresh(sender int) uint64 {
	d.nonce++
	n := d.nonce / 3 // shared with other senders, often
	for d.M.NonceUsed(Addr(sender), n) || contains(d.nonces[sender], n) {
		n++
	}
	d.nonces[sender] = append(d.nonces[sender], n)
	return n
}

func contains(l []uint64, n uint64) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

// Next draws a transaction. The caller has to give it to the model.
func (d *Driver) Next(t *rapid.T) Tx {
	tx := d.next(t)
	tx.Desc = fmt.Sprintf("k%d: %s", tx.Sender, tx.Desc)
	if tx.Bad != "" {
		tx.Desc = "(" + tx.Bad + ") " + tx.Desc
	}
	d.Sent = append(d.Sent, tx)
	d.Log = append(d.Log, tx.Desc)
	return tx
}

func (d *Driver) next(t *rapid.T) Tx {
	if chance(t, "bad", d.Mix.Bad) {
		k := pick(t, "how bad", 9)
		if len(d.Sent) > 0 && k < 4 {
			old := d.Sent[pick(t, "earlier", len(d.Sent))]
			if chance(t, "recent", 50) {
				old = d.Sent[len(d.Sent)-1-pick(t, "back", min(len(d.Sent), 5))]
			}
			switch k {
			case 0, 1:
				old.Bad = "replayed"
				return old
			case 2: // altered on the way
				old.Bad = "altered"
				old.Raw = append([]byte{}, old.Raw...)
				if len(old.Raw) > 0 {
					i := pick(t, "byte", len(old.Raw))
					old.Raw[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_="[pick(t, "char", 65)]
				}
				return old
			case 3: // the payload of one under the signature of another
				other := d.Sent[pick(t, "other", len(d.Sent))]
				a, b := RawOf(old.Raw), RawOf(other.Raw)
				if len(a) > 65 && len(b) > 65 {
					old.Raw = Encode(append(append([]byte{}, a[:65]...), b[65:]...))
					old.Bad = "spliced"
					return old
				}
			}
		}
		s, kind, msg, desc := d.Message(t)
		tx := Tx{Kind: kind, Sender: s, Msg: msg, Desc: desc}
		switch k {
		case 4:
			tx.Bad = "wrong chain"
			chain := rapid.SampledFrom([]string{"", d.Chain + "2", d.Chain[:len(d.Chain)-1], strings.ToUpper(d.Chain[:1]) + d.Chain[1:], d.Chain + "\x00"}).Draw(t, "chain")
			n := d.Fresh(s)
			// the refused transaction leaves its nonce free
			d.nonces[s] = d.nonces[s][:len(d.nonces[s])-1]
			tx.Raw = Sign(Key(s), chain, n, msg)
			return tx
		case 5:
			if l := d.nonces[s]; len(l) > 0 {
				tx.Bad = "used nonce"
				tx.Raw = Sign(Key(s), d.Chain, l[pick(t, "which nonce", len(l))], msg)
				return tx
			}
		case 6:
			tx.Bad = "someone else's nonce"
			n := uint64(pick(t, "nonce", int(d.nonce)+1))
			tx.Raw = Sign(Key(s), d.Chain, n, msg)
			d.nonces[s] = append(d.nonces[s], n)
			return tx
		case 7:
			tx.Bad = "truncated"
			raw := Sign(Key(s), d.Chain, d.Fresh(s), msg)
			tx.Raw = raw[:pick(t, "length", len(raw))]
			return tx
		default:
			tx.Bad = "noise"
			tx.Sender = -1
			tx.Raw = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "noise")
			if rapid.Bool().Draw(t, "encoded") {
				tx.Raw = Encode(tx.Raw)
			}
			return tx
		}
		tx.Raw = Sign(Key(s), d.Chain, d.Fresh(s), msg)
		return tx
	}
	if len(d.Sent) > 0 && chance(t, "correct an earlier one", d.Mix.Twisted/2) {
		old := d.Sent[len(d.Sent)-1-pick(t, "back", min(len(d.Sent), 4))]
		if msg, ok := d.corrected(old); ok {
			s := old.Sender
			return Tx{Raw: Sign(Key(s), d.Chain, d.Fresh(s), msg), Kind: old.Kind, Sender: s, Msg: msg, Desc: "corrected " + old.Desc}
		}
	}
	s, kind, msg, desc := d.Message(t)
	return Tx{Raw: Sign(Key(s), d.Chain, d.Fresh(s), msg), Kind: kind, Sender: s, Msg: msg, Desc: desc}
}

// Note appends to the log.
func (d *Driver) Note(format string, args ...interface{}) {
	d.Log = append(d.Log, fmt.Sprintf(format, args...))
}

// History is the log in one string.
func (d *Driver) History() string { return strings.Join(d.Log, "\n") }

// Short is a bounded version of the history for samples.
func (d *Driver) Short() string {
	s := strings.Join(d.Log, " | ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// Deliver delivers a transaction to an application.
func Deliver(a *app.ShutterApp, raw []byte) abcitypes.ResponseDeliverTx {
	return a.DeliverTx(abcitypes.RequestDeliverTx{Tx: raw})
}

// CheckTx gives a transaction to the mempool check.
func CheckTx(a *app.ShutterApp, raw []byte) bool {
	return a.CheckTx(abcitypes.RequestCheckTx{Tx: raw}).Code == 0
}

// EndBlock ends a block.
func EndBlock(a *app.ShutterApp, height int64) []abcitypes.ValidatorUpdate {
	return a.EndBlock(abcitypes.RequestEndBlock{Height: height}).ValidatorUpdates
}
