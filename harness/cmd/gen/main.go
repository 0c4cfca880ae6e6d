// gen replays histories of generations in a process (Generation.tla). Each history is run in a process of its own.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/codegen"
	"github.com/lerenn/asyncapi-codegen/pkg/codegen/options"
	"verifharness/core"
)

type opts struct {
	Keys     string `json:"keys"`
	Naming   string `json:"naming"`
	Dates    bool   `json:"dates"`
	Pointers bool   `json:"pointers"`
	Parts    string `json:"parts"`
}

type step struct {
	From   int             `json:"from"`
	Doc    string          `json:"doc"`
	Opts   opts            `json:"opts"`
	Result json.RawMessage `json:"result,omitempty"`
}

// what comes out of a generation: an error (and then the output is unchanged), or the generated code
type outcome struct {
	Err  bool
	Code string
}

const before = "what was there before\n"

// child runs a history: the documents are in the current directory
func child() {
	var steps []step
	core.Must(json.NewDecoder(os.Stdin).Decode(&steps))
	dir, err := os.MkdirTemp("", "gen")
	core.Must(err)
	defer os.RemoveAll(dir)
	var cgs []codegen.CodeGen
	var res []outcome
	for _, s := range steps {
		var cg codegen.CodeGen
		if s.From > 0 {
			cg = cgs[s.From-1]
		} else {
			cg, err = codegen.FromFile(filepath.Join(os.Getenv("GEN_DOCS"), s.Doc+".json"))
			core.Must(err)
		}
		cgs = append(cgs, cg)
		out := filepath.Join(dir, "out.go")
		core.Must(os.WriteFile(out, []byte(before), 0o644))
		err := cg.Generate(options.Options{
			OutputPath:         out,
			PackageName:        "pkg",
			Generate:           options.GeneratorOptions{Application: s.Opts.Parts == "all", User: s.Opts.Parts == "all", Types: true},
			ConvertKeys:        s.Opts.Keys,
			NamingScheme:       s.Opts.Naming,
			IgnoreStringFormat: !s.Opts.Dates,
			ForcePointers:      s.Opts.Pointers,
			DisableFormatting:  true,
		})
		b, _ := os.ReadFile(out)
		switch {
		case err == nil && string(b) != before:
			h := sha256.Sum256(b)
			res = append(res, outcome{Code: hex.EncodeToString(h[:])})
		case err == nil:
			res = append(res, outcome{Code: "nothing is generated"})
		case string(b) != before:
			res = append(res, outcome{Err: true, Code: "output is written"})
		default:
			res = append(res, outcome{Err: true})
		}
	}
	core.Must(json.NewEncoder(os.Stdout).Encode(res))
}

func run(steps []step) (res []outcome, failure string) {
	exe, err := os.Executable()
	core.Must(err)
	in, _ := json.Marshal(steps)
	cmd := exec.Command(exe, "child")
	cmd.Stdin = bytes.NewReader(in)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, err.Error() + "\n" + stderr.String()
	}
	core.Must(json.Unmarshal(out, &res))
	return res, ""
}

var alone = map[string]outcome{}

func historyMode(line []byte, r *core.Result) {
	var s struct {
		Steps []step `json:"steps"`
	}
	core.Must(json.Unmarshal(line, &s))
	bad := func(where string, expected, observed any) {
		r.Mismatches = append(r.Mismatches, core.Mismatch{Scenario: json.RawMessage(line), Where: where, Expected: expected, Observed: observed})
	}
	got, failure := run(s.Steps)
	r.Checked++
	if failure != "" {
		bad("history of generations", "each of them ends", failure)
		return
	}
	for i, st := range s.Steps {
		r.Steps++
		key, _ := json.Marshal([]any{st.Doc, st.Opts})
		want, ok := alone[string(key)]
		if !ok {
			one, failure := run([]step{{Doc: st.Doc, Opts: st.Opts}})
			if failure != "" {
				bad("a single generation", "it ends", failure)
				return
			}
			want = one[0]
			alone[string(key)] = want
		}
		if fails := strings.HasPrefix(string(st.Result), `["error"`); want != (outcome{Err: true}) && fails {
			bad("a single generation", "an error, and the output as it was", want)
			return
		} else if want.Err && !fails {
			bad("a single generation", "code", want)
			return
		}
		if got[i] != want {
			bad("the generation number "+string(rune('1'+i)), want, got[i])
			return
		}
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		child()
		return
	}
	core.Main(map[string]core.Mode{"history": historyMode})
}
