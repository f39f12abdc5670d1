// Package c36 checks the JavaScript library (shcryptowasm): its modules are built from the working
// tree, loaded in node and called with generated arguments.
package c36

import (
	"bufio"
	"bytes"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/vh"
)

const source = "/repo/shuttermint"

//go:embed wasm_exec.js.txt
var wasmExec []byte

//go:embed driver.js.txt
var driver []byte

// Arg is an argument of a call: some bytes, and the JavaScript type they are given as.
type Arg struct {
	Type string `json:"type"`
	Hex  string `json:"hex"`
}

func u8(b []byte) Arg { return Arg{"u8", hex.EncodeToString(b)} }

// isBytes tells whether the library takes this type for bytes.
func (a Arg) isBytes() bool {
	switch a.Type {
	case "u8", "clamped", "buffer", "view":
		return true
	}
	return false
}

func (a Arg) bytes() []byte {
	b, err := hex.DecodeString(a.Hex)
	vh.Harness(err, "argument")
	return b
}

// Result is what a call returned.
type Result struct {
	Type  string    `json:"type"`
	Value string    `json:"value"`
	Args  []*string `json:"args"`
}

func (r Result) isError() bool {
	return r.Type == "string" && strings.HasPrefix(r.Value, "Error: ")
}

// Module is a running instance of one of the library's modules.
type Module struct {
	Name  string
	Funcs []string
	cmd   *exec.Cmd
	in    *bufio.Writer
	lines chan string
	log   *bytes.Buffer
}

var (
	dirOnce sync.Once
	dir     string
	built   = map[string]error{}
	running = map[string]*Module{}
)

func scratch() string {
	dirOnce.Do(func() {
		var err error
		dir, err = os.MkdirTemp("", "c36-")
		vh.Harness(err, "scratch folder")
		vh.Harness(os.WriteFile(filepath.Join(dir, "wasm_exec.js"), wasmExec, 0o644), "wasm_exec.js")
		vh.Harness(os.WriteFile(filepath.Join(dir, "driver.js"), driver, 0o644), "driver.js")
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(source, f))
			vh.Harness(err, f)
			vh.Harness(os.WriteFile(filepath.Join(dir, f), b, 0o644), f)
		}
	})
	return dir
}

// Build compiles a module. An error means that the module's own source is to blame.
func Build(name string) error {
	if err, ok := built[name]; ok {
		return err
	}
	d := scratch()
	cmd := exec.Command("go", "build", "-modfile", filepath.Join(d, "go.mod"),
		"-o", filepath.Join(d, name+".wasm"), "./shcryptowasm/"+name+"_wasm.go")
	cmd.Dir = source
	cmd.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if !strings.Contains(string(out), "shcryptowasm") {
			vh.Harness(fmt.Errorf("%w: %s", err, out), "building "+name)
		}
		err = fmt.Errorf("module %s can't be built: %s", name, out)
	}
	built[name] = err
	return err
}

// Load returns the running instance of a module, starting it if necessary.
func Load(name string) (*Module, error) {
	if m := running[name]; m != nil {
		return m, nil
	}
	if err := Build(name); err != nil {
		return nil, err
	}
	d := scratch()
	m := &Module{Name: name, log: &bytes.Buffer{}, lines: make(chan string, 1)}
	m.cmd = exec.Command("node", filepath.Join(d, "driver.js"), filepath.Join(d, "wasm_exec.js"), filepath.Join(d, name+".wasm"))
	m.cmd.Stdout, m.cmd.Stderr = m.log, m.log
	r, w, err := os.Pipe()
	vh.Harness(err, "pipe")
	m.cmd.ExtraFiles = []*os.File{w}
	in, err := m.cmd.StdinPipe()
	vh.Harness(err, "pipe")
	m.in = bufio.NewWriter(in)
	vh.Harness(m.cmd.Start(), "node")
	w.Close()
	go func() {
		sc := bufio.NewScanner(r)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			m.lines <- sc.Text()
		}
		close(m.lines)
	}()
	line, ok := m.line()
	if !ok {
		return nil, fmt.Errorf("module %s doesn't start: %s", name, m.end())
	}
	var ready struct {
		Ready []string `json:"ready"`
	}
	vh.Harness(json.Unmarshal([]byte(line), &ready), "ready line "+line)
	m.Funcs = ready.Ready
	running[name] = m
	return m, nil
}

func (m *Module) line() (string, bool) {
	select {
	case l, ok := <-m.lines:
		return l, ok
	case <-time.After(90 * time.Second):
		vh.Harness(fmt.Errorf("no answer from node within 90 s"), m.Name)
		return "", false
	}
}

func (m *Module) end() string {
	delete(running, m.Name)
	_ = m.cmd.Process.Kill()
	_ = m.cmd.Wait()
	s := m.log.String()
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// Call calls a function of the module. An error means that the module stopped working.
func (m *Module) Call(f string, args ...Arg) (Result, error) {
	if args == nil {
		args = []Arg{}
	}
	b, err := json.Marshal(map[string]interface{}{"f": f, "args": args})
	vh.Harness(err, "call")
	_, _ = m.in.Write(append(b, '\n'))
	_ = m.in.Flush()
	line, ok := m.line()
	if !ok || strings.Contains(line, `"exited"`) {
		return Result{}, fmt.Errorf("the module ended: %s", m.end())
	}
	var res Result
	vh.Harness(json.Unmarshal([]byte(line), &res), "answer "+line)
	return res, nil
}

func stopAll() {
	for _, m := range running {
		m.end()
	}
	if dir != "" {
		os.RemoveAll(dir)
	}
	dirOnce, dir, built = sync.Once{}, "", map[string]error{}
}
