// Package ak holds what the checks of the shuttermint application share: keys, signed transactions,
// a reference model of the application and generators of messages.
package ak

import (
	"crypto/ecdsa"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/vh"
)

// Chain is the chain id used in the checks.
const Chain = "verif-chain"

var (
	keyMu sync.Mutex
	keys  = map[int]*ecdsa.PrivateKey{}
	addrs = map[int]common.Address{}
)

// Key is the i-th member of a fixed list of secp256k1 keys.
func Key(i int) *ecdsa.PrivateKey {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keys[i]; ok {
		return k
	}
	for salt := 0; ; salt++ {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("verif key %d %d", i, salt))))
		if err == nil {
			keys[i] = k
			addrs[i] = crypto.PubkeyToAddress(k.PublicKey)
			return k
		}
	}
}

// Addr is the address of Key(i).
func Addr(i int) common.Address {
	Key(i)
	keyMu.Lock()
	defer keyMu.Unlock()
	return addrs[i]
}

// Addrs lists addresses of several keys.
func Addrs(idx []int) []common.Address {
	var r []common.Address
	for _, i := range idx {
		r = append(r, Addr(i))
	}
	return r
}

// Sign encodes msg as a transaction signed by key.
func Sign(key *ecdsa.PrivateKey, chain string, nonce uint64, msg *shmsg.Message) []byte {
	return SignProto(key, &shmsg.MessageWithNonce{Msg: msg, ChainId: []byte(chain), RandomNonce: nonce})
}

// SignProto signs an arbitrary message.
func SignProto(key *ecdsa.PrivateKey, m proto.Message) []byte {
	b, err := shmsg.SignMessage(m, key)
	vh.Harness(err, "sign message")
	return []byte(base64.RawURLEncoding.EncodeToString(b))
}

// SignBytes signs arbitrary bytes the way messages are signed, written independently of shmsg.
func SignBytes(key *ecdsa.PrivateKey, payload []byte) []byte {
	h := sha3.New256()
	h.Write([]byte{0x19})
	h.Write([]byte("shmsg"))
	h.Write(payload)
	sig, err := crypto.Sign(h.Sum(nil), key)
	vh.Harness(err, "sign bytes")
	return append(sig, payload...)
}

// Decode is an independent decoder of transactions.
func Decode(tx []byte) (signer common.Address, msg *shmsg.MessageWithNonce, ok bool) {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return signer, nil, false
	}
	return DecodeRaw(raw)
}

// DecodeRaw decodes signed bytes.
func DecodeRaw(raw []byte) (signer common.Address, msg *shmsg.MessageWithNonce, ok bool) {
	if len(raw) < 65 {
		return signer, nil, false
	}
	h := sha3.New256()
	h.Write([]byte{0x19})
	h.Write([]byte("shmsg"))
	h.Write(raw[65:])
	pub, err := crypto.Ecrecover(h.Sum(nil), raw[:65])
	if err != nil {
		return signer, nil, false
	}
	copy(signer[:], crypto.Keccak256(pub[1:])[12:])
	msg = &shmsg.MessageWithNonce{}
	if proto.Unmarshal(raw[65:], msg) != nil {
		return signer, nil, false
	}
	return signer, msg, true
}

// Val is the i-th validator key.
func Val(i int) []byte {
	// alike but for one byte at the end, the start or in the middle
	b := crypto.Keccak256([]byte("validator"))
	b[[]int{31, 0, 16}[i%3]] ^= byte(i + 1)
	return b
}

// Update makes an ABCI validator update.
func Update(key []byte, power int64) abcitypes.ValidatorUpdate {
	return abcitypes.ValidatorUpdate{Power: power, PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: key}}}
}

// Genesis describes the start of a chain.
type Genesis struct {
	Keypers    []common.Address
	Threshold  uint64
	Validators map[string]int64
}

// InitChain makes the request.
func (g Genesis) InitChain() abcitypes.RequestInitChain {
	st := app.NewGenesisAppState(g.Keypers, int(g.Threshold))
	type gen struct {
		Keypers   []common.MixedcaseAddress `json:"keypers"`
		Threshold string                    `json:"threshold"`
	}
	b, err := json.Marshal(gen{st.Keypers, fmt.Sprint(g.Threshold)})
	vh.Harness(err, "genesis")
	req := abcitypes.RequestInitChain{ChainId: Chain, AppStateBytes: b}
	for k, p := range g.Validators {
		req.Validators = append(req.Validators, Update([]byte(k), p))
	}
	return req
}

var g2cache = map[int][]byte{}

// G2 is the encoding of a fixed point, a multiple of the generator of bn256's G2.
func G2(i int) []byte {
	keyMu.Lock()
	defer keyMu.Unlock()
	if b, ok := g2cache[i]; ok {
		return b
	}
	b := new(bn256.G2).ScalarBaseMult(big.NewInt(int64(i) + 1)).Marshal()
	g2cache[i] = b
	return b
}

var g1cache = map[int][]byte{}

// G1 is the same for G1.
func G1(i int) []byte {
	keyMu.Lock()
	defer keyMu.Unlock()
	if b, ok := g1cache[i]; ok {
		return b
	}
	b := new(bn256.G1).ScalarBaseMult(big.NewInt(int64(i) + 1)).Marshal()
	g1cache[i] = b
	return b
}

func Encode(b []byte) []byte { return []byte(base64.RawURLEncoding.EncodeToString(b)) }

func RawOf(tx []byte) []byte {
	b, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return nil
	}
	return b
}
