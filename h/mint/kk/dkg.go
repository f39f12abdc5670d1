// Package kk runs real keyper deciders against a stand-in for the main chain (ek) and one for the Shuttermint chain (tk), and compares
// what they decide with a model written from the statements of the properties C25 to C28.
package kk

import (
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"io"
	mrand "math/rand"
	"sync"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"verif/vh"
)

// Deterministic replaces the source of randomness while f runs.
func Deterministic(seed int64, f func()) {
	old := crand.Reader
	crand.Reader = io.Reader(mrand.New(mrand.NewSource(seed))) //nolint:gosec
	defer func() { crand.Reader = old }()
	f()
}

var (
	dkgMu    sync.Mutex
	dkgCache = map[string][]puredkg.Result{}
)

// DKG returns the results of an undisturbed DKG.
func DKG(n, threshold, variant int) []puredkg.Result {
	dkgMu.Lock()
	defer dkgMu.Unlock()
	key := fmt.Sprint(n, " ", threshold, " ", variant)
	if r, ok := dkgCache[key]; ok {
		return r
	}
	var rs []puredkg.Result
	Deterministic(int64(n*1000+threshold*10+variant), func() {
		var ps []puredkg.PureDKG
		for i := 0; i < n; i++ {
			ps = append(ps, puredkg.NewPureDKG(1, uint64(n), uint64(threshold), uint64(i)))
		}
		var cs []puredkg.PolyCommitmentMsg
		var es []puredkg.PolyEvalMsg
		for i := range ps {
			c, e, err := ps[i].StartPhase1Dealing()
			vh.Harness(err, "dealing")
			cs, es = append(cs, c), append(es, e...)
		}
		for i := range ps {
			for _, c := range cs {
				vh.Harness(ps[i].HandlePolyCommitmentMsg(c), "commitment")
			}
			for _, e := range es {
				if e.Receiver == uint64(i) {
					vh.Harness(ps[i].HandlePolyEvalMsg(e), "eval")
				}
			}
		}
		for i := range ps {
			ps[i].StartPhase2Accusing()
			ps[i].StartPhase3Apologizing()
			ps[i].Finalize()
			r, err := ps[i].ComputeResult()
			vh.Harness(err, "result")
			rs = append(rs, r)
		}
	})
	dkgCache[key] = rs
	return rs
}

// EpochBytes is what is hashed to the epoch id.
func EpochBytes(epoch uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], epoch)
	return b[:]
}

// EpochKey computes the epoch secret key from the first shares.
func EpochKey(rs []puredkg.Result, epoch uint64) *shcrypto.EpochSecretKey {
	id := shcrypto.ComputeEpochID(EpochBytes(epoch))
	var idx []int
	var ss []*shcrypto.EpochSecretKeyShare
	for i := 0; i < int(rs[0].Threshold); i++ {
		idx = append(idx, i)
		ss = append(ss, shcrypto.ComputeEpochSecretKeyShare(rs[i].SecretKeyShare, id))
	}
	k, err := shcrypto.ComputeEpochSecretKey(idx, ss, rs[0].Threshold)
	vh.Harness(err, "epoch key")
	return k
}
