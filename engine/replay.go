package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type replayCase struct {
	Harness string                 `json:"harness"`
	Inputs  map[string]interface{} `json:"inputs"`
}

type nativeTrace struct {
	Name string
	Val  jsonFloat
}

type jsonFloat float64

func (f *jsonFloat) UnmarshalJSON(b []byte) error {
	s := strings.Trim(string(b), `"`)
	var x float64
	_, err := fmt.Sscan(s, &x)
	*f = jsonFloat(x)
	return err
}

type replayResult struct {
	Status string // ok, fail, panic, timeout, assume
	Label  string
	Detail string
	Traces []nativeTrace
}

// nativeReplay compiles the harnesses with the real package (go test -overlay) and runs the cases.
func nativeReplay(c runCfg, files []string, fns []string, cases []replayCase) ([]replayResult, error) {
	dir, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	rep := map[string]string{}
	for _, f := range files {
		b := filepath.Base(f)
		rep[filepath.Join(c.repo, "zz_verif_"+strings.TrimSuffix(b, ".go")+"_test.go")] = f
	}
	var g bytes.Buffer
	g.WriteString("package cp\n\nimport \"testing\"\n\nvar vHarnesses = map[string]func(){\n")
	for _, f := range fns {
		fmt.Fprintf(&g, "\t%q: %s,\n", f, f)
	}
	g.WriteString("}\n\nfunc TestVerifReplay(t *testing.T) { vReplayMain(vHarnesses) }\n")
	gen := filepath.Join(dir, "gen_test.go")
	os.WriteFile(gen, g.Bytes(), 0o644)
	rep[filepath.Join(c.repo, "zz_verif_gen_test.go")] = gen
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	cf := filepath.Join(dir, "cases.json")
	b, err := json.Marshal(cases)
	if err != nil {
		return nil, err
	}
	os.WriteFile(cf, b, 0o644)
	out := filepath.Join(dir, "out.json")
	bin := filepath.Join(dir, "t.test")
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0",
		"VERIF_CASES="+cf, "VERIF_OUT="+out)
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, ".")
	cmd.Dir = c.repo
	cmd.Env = env
	if o, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go test -c: %v\n%s", err, o)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd = exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "190s")
	cmd.Dir = dir
	cmd.Env = env
	o, runErr := cmd.CombinedOutput()
	rb, err := os.ReadFile(out)
	if err != nil {
		return nil, fmt.Errorf("no replay output: %v %v\n%s", err, runErr, o)
	}
	var res []replayResult
	for _, l := range bytes.Split(rb, []byte("\n")) {
		if len(bytes.TrimSpace(l)) == 0 {
			continue
		}
		var r replayResult
		if err := json.Unmarshal(l, &r); err != nil {
			return nil, fmt.Errorf("replay output: %v: %s", err, l)
		}
		res = append(res, r)
	}
	for len(res) < len(cases) {
		// the process died (fatal error): the case being run is the culprit
		res = append(res, replayResult{Status: "lost", Detail: tail(string(o))})
	}
	return res, nil
}

func tail(s string) string {
	if len(s) > 600 {
		return s[len(s)-600:]
	}
	return s
}
