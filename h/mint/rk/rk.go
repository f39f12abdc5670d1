// Package rk stops keypers and starts them again from what they have stored, next to a twin that goes on.
package rk

import (
	"bytes"
	crand "crypto/rand"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"verif/vh"
)

// reader is a source of randomness that doesn't care about the single bytes that some functions of the standard library sometimes read.
type reader struct{ r io.Reader }

func (r reader) Read(p []byte) (int, error) {
	if len(p) == 1 {
		p[0] = 0
		return 1, nil
	}
	return r.r.Read(p)
}

// Seeded runs f with the randomness that belongs to a seed.
func Seeded(seed int64, f func()) {
	old := crand.Reader
	crand.Reader = reader{mrand.New(mrand.NewSource(seed))} //nolint:gosec
	defer func() { crand.Reader = old }()
	f()
}

// stored is the content of the file.
type stored struct {
	State     *keyper.State
	Shutter   *observe.Shutter
	MainChain *observe.MainChain
}

// Restart stores a keyper that has decided on actions and loads it again, in a scratch directory.
func Restart(dir string, cfg keyper.Config, st *keyper.State, sh *observe.Shutter, main *observe.MainChain, actions []fx.IAction) (
	*keyper.State, *observe.Shutter, *observe.MainChain, []fx.IAction, error,
) {
	st.Actions = actions
	var b bytes.Buffer
	err := gob.NewEncoder(&b).Encode(stored{st, sh, main})
	if err != nil {
		return nil, nil, nil, nil, fmt.Errorf("the state cannot be stored: %w", err)
	}
	vh.Harness(os.WriteFile(filepath.Join(dir, "state.gob"), b.Bytes(), 0o600), "state file")
	cfg.DBDir = dir
	k := keyper.NewKeyper(cfg)
	if err = k.LoadState(); err != nil {
		return nil, nil, nil, nil, fmt.Errorf("the state cannot be loaded: %w", err)
	}
	as := k.State.Actions
	k.State.ActionCounter += uint64(len(as))
	k.State.Actions = nil
	w := k.CurrentWorld()
	return k.State, w.Shutter, w.MainChain, as, nil
}

// Describe lists messages to Shuttermint, executions and others.
func Describe(actions []fx.IAction, decrypt func(common.Address, []byte) ([]byte, error)) string {
	var inOrder, others []string
	for _, a := range actions {
		switch x := a.(type) {
		case *fx.SendShuttermintMessage:
			m := x.Msg
			switch {
			case m.GetPolyEval() != nil:
				s := fmt.Sprint("evals in eon ", m.GetPolyEval().Eon)
				for i, r := range m.GetPolyEval().Receivers {
					b, err := decrypt(common.BytesToAddress(r), m.GetPolyEval().EncryptedEvals[i])
					s += fmt.Sprintf(" %x %x %v", r, b, err)
				}
				inOrder = append(inOrder, s)
			case m.GetApology() != nil:
				var l []string
				for i, r := range m.GetApology().Accusers {
					l = append(l, fmt.Sprintf("%x %x", r, m.GetApology().PolyEvals[i]))
				}
				sort.Strings(l)
				inOrder = append(inOrder, fmt.Sprint("apology in eon ", m.GetApology().Eon, l))
			default:
				inOrder = append(inOrder, x.Description+": "+m.String())
			}
		case *fx.ExecuteCipherBatch, *fx.ExecutePlainBatch, *fx.SkipCipherBatch:
			inOrder = append(inOrder, dump(a))
		default:
			others = append(others, dump(a))
		}
	}
	sort.Strings(others)
	return strings.Join(append(inOrder, others...), "\n")
}

func dump(a fx.IAction) string {
	var b bytes.Buffer
	vh.Harness(gob.NewEncoder(&b).Encode(a), "encoding of an action")
	return fmt.Sprintf("%T %v %s", a, a, hex.EncodeToString(b.Bytes()))
}
