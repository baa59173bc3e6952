package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type finding struct{ property, harness, label, what string }

// readFindings parses known-findings.txt: "finding: property=ID harness=NAME label=LABEL :: what".
func readFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) label=(.+?) :: (.*)$`)
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return out
}

type replayFile struct {
	Property string       `json:"property"`
	Tier     string       `json:"tier"`
	Cases    []replayCase `json:"cases"`
}

type replayCase struct {
	Harness string   `json:"harness"`
	Label   string   `json:"label"`
	Inputs  []input  `json:"inputs"`
	Covers  []string `json:"covers,omitempty"`
}

// replay runs cases natively against the real code; result[i] is "ok", "assume:<..>", "fail:<label>" or "panic:<msg>".
func (e *Engine) replay(prop string, cases []replayCase, file string) ([]string, error) {
	tier := "quick"
	if e.thorough {
		tier = "thorough"
	}
	b, _ := json.MarshalIndent(replayFile{prop, tier, cases}, "", " ")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return nil, err
	}
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ov := map[string]map[string]string{"Replace": e.overlayFiles}
	ob, _ := json.Marshal(ov)
	ovf := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ovf, ob, 0o644); err != nil {
		return nil, err
	}
	out := filepath.Join(tmp, "out.json")
	cmd := exec.Command("bash", "-c", fmt.Sprintf(". /opt/vp/env.sh && cd %s && exec go test -tags=testing -overlay %s -vet=off -count=1 -timeout 300s -run '^TestVerifReplay$' ./app", e.repo, ovf))
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+file, "VERIF_REPLAY_OUT="+out, "CGO_ENABLED=1")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	rerr := cmd.Run()
	rb, err := os.ReadFile(out)
	if err != nil {
		return nil, fmt.Errorf("replay did not run: %v\n%s", rerr, tail(buf.String(), 4000))
	}
	var res []string
	if err := json.Unmarshal(rb, &res); err != nil {
		return nil, err
	}
	if e.verbose {
		fmt.Println(tail(buf.String(), 2000))
	}
	return res, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func reproduced(label, res string) bool {
	if strings.HasPrefix(label, "unexpected panic") {
		return strings.HasPrefix(res, "panic:")
	}
	return res == "fail:"+label || strings.HasPrefix(res, "fail:")
}

func main() {
	if len(os.Args) < 2 || os.Args[1] != "check" {
		fmt.Println("usage: engine check -prop ID [-tier quick|thorough]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "regexp on harness names")
	verbose := fs.Bool("v", false, "")
	noReplay := fs.Bool("noreplay", false, "")
	workers := fs.Int("j", 0, "")
	budget := fs.Int("budget", 0, "seconds")
	solver := fs.String("solver", "z3 smt.arith.solver=2", "")
	witness := fs.Int("witness", -1, "replay this many path models per harness natively (engine self-check)")
	prof := fs.Bool("fns", false, "print call counts")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	debug.SetGCPercent(300)
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	e := &Engine{repo: *repo, verif: *verif, solverBin: *solver, solverTimeout: 8000, maxSteps: 3000000, verbose: *verbose, stacks: os.Getenv("VERIF_STACK") != "", thorough: *tier == "thorough"}
	e.workersN = *workers
	if e.workersN == 0 {
		e.workersN = runtime.NumCPU()
		if e.workersN > 8 {
			e.workersN = 8
		}
	}
	e.budget = 400 * time.Second
	if e.thorough {
		e.budget = 640 * time.Second
		e.solverTimeout = 20000
		e.maxSteps = 10000000
	}
	if *budget > 0 {
		e.budget = time.Duration(*budget) * time.Second
	}
	defer killAll()
	if err := e.load(); err != nil {
		fmt.Println("ERROR:", err)
		killAll()
		os.Exit(2)
	}
	re := regexp.MustCompile("^Verif_" + *prop + "_")
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	e.build(e.main)
	hs := e.harnesses(func(n string) bool {
		return (*prop == "" || re.MatchString(n)) && (onlyRe == nil || onlyRe.MatchString(n))
	})
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", *prop)
		os.Exit(2)
	}
	if *witness < 0 {
		*witness = 0
		if e.thorough {
			*witness = 3
		}
	}
	e.witnessN = *witness
	ws, err := e.explore(hs)
	if err != nil {
		fmt.Println("ERROR:", err)
		killAll()
		os.Exit(2)
	}
	for _, h := range hs {
		fmt.Println(h.summary())
		var ks []string
		for k := range h.inconcl {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("    inconclusive x%d: %s\n", h.inconcl[k], k)
		}
		if *verbose {
			fmt.Printf("    covers %v labels %v bounds %v\n", h.covered, h.labels, h.bounds)
		}
	}
	if *prof {
		cnt := map[string]int{}
		for _, w := range ws {
			for _, fi := range w.fns {
				cnt[fi.name] += fi.calls
			}
		}
		var ns []string
		for n := range cnt {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool { return cnt[ns[i]] > cnt[ns[j]] })
		for i, n := range ns {
			if i < 80 {
				fmt.Println(cnt[n], n)
			}
		}
	}

	// ---- violations: replay against the real code
	os.MkdirAll(filepath.Join(e.verif, "evidence", "replay"), 0o755)
	var vs []*Violation
	for _, h := range hs {
		for _, v := range h.violations {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Harness+vs[i].Label < vs[j].Harness+vs[j].Label })
	exit := 0
	confirmed, spurious := 0, 0
	var lines []string
	witnesses, witnessBad := 0, 0
	if len(vs) > 0 && !*noReplay {
		var cases []replayCase
		var owner []int
		for i, v := range vs {
			for _, in := range append([][]input{v.Inputs}, v.Alts...) {
				cases = append(cases, replayCase{Harness: v.Harness, Label: v.Label, Inputs: in})
				owner = append(owner, i)
			}
		}
		res, err := e.replay(*prop, cases, filepath.Join(e.verif, "evidence", "replay", *prop+"-all.json"))
		if err != nil {
			fmt.Println("replay:", err)
		}
		for i, v := range vs {
			v.Status = "spurious"
			if err != nil {
				v.Status = "not replayed"
			}
			for k, r := range res {
				if owner[k] == i && reproduced(v.Label, r) {
					v.Status = "confirmed"
					v.Inputs = cases[k].Inputs
					break
				}
				if owner[k] == i && *verbose {
					fmt.Printf("    replay of %s [%s]: %s\n", v.Harness, v.Label, r)
				}
			}
		}
	}
	known := readFindings(filepath.Join(e.verif, "known-findings.txt"))
	n := 0
	for _, v := range vs {
		file := filepath.Join(e.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", *prop, n))
		n++
		b, _ := json.MarshalIndent(replayFile{*prop, *tier, []replayCase{{Harness: v.Harness, Label: v.Label, Inputs: v.Inputs}}}, "", " ")
		os.WriteFile(file, b, 0o644)
		if *noReplay {
			v.Status = "confirmed"
		}
		fmt.Printf("counterexample %s: %s [%s] x%d\n", v.Status, v.Harness, v.Label, v.Count)
		if *verbose || v.Status != "confirmed" {
			for _, in := range v.Inputs {
				fmt.Printf("      %s = %s\n", in.Name, in.Value)
			}
		}
		if v.Status != "confirmed" {
			spurious++
			continue
		}
		isKnown := false
		for _, f := range known {
			if f.property == *prop && f.harness == v.Harness && f.label == v.Label {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, f.what))
				isKnown = true
			}
		}
		if isKnown {
			continue
		}
		confirmed++
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, file))
		exit = 1
	}
	// ---- witness replays: models of finished paths must run natively without a failure
	var witnessNotes []string
	if e.witnessN > 0 {
		var cases []replayCase
		for _, h := range hs {
			cases = append(cases, h.witnesses...)
		}
		if len(cases) > 0 {
			res, err := e.replay(*prop, cases, filepath.Join(e.verif, "evidence", "replay", *prop+"-witness.json"))
			if err != nil {
				fmt.Println("witness replay:", err)
			}
			for i, r := range res {
				witnesses++
				if r != "ok" {
					witnessBad++
					fmt.Printf("witness of %s: %s\n", cases[i].Harness, r)
					witnessNotes = append(witnessNotes, cases[i].Harness+": "+r)
					if *verbose {
						for _, in := range cases[i].Inputs {
							fmt.Printf("      %s = %s\n", in.Name, in.Value)
						}
					}
				}
			}
			fmt.Printf("witnesses replayed natively: %d, diverging: %d\n", witnesses, witnessBad)
		}
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	e.evidence(*prop, *tier, hs, ws, vs, confirmed, spurious, witnesses, witnessBad, witnessNotes, time.Since(t0))
	fmt.Printf("%s %s: %d harnesses, %d confirmed, %d spurious, load %.1fs setup %.1fs total %.1fs\n", *prop, *tier, len(hs), confirmed, spurious, e.loadS, e.setupS, time.Since(t0).Seconds())
	killAll()
	os.Remove(e.indexFile)
	os.Exit(exit)
}

func (e *Engine) evidence(prop, tier string, hs []*Harness, ws []*Worker, vs []*Violation, confirmed, spurious, witnesses, witnessBad int, wn []string, wall time.Duration) {
	var st SolverStats
	fnset := map[string]bool{}
	stubbed := map[string]bool{}
	modelled := map[string]bool{}
	for _, w := range ws {
		st.add(w.solver.stats)
		for fn, fi := range w.fns {
			if fi.calls == 0 {
				continue
			}
			p := pkgOf(fn)
			switch {
			case strings.HasPrefix(p, modPath) && !strings.HasSuffix(p, "/verifrt") && !strings.Contains(fi.name, "Verif") && fi.intr == nil && !fi.skip && fi.calledInPath:
				fnset[fi.name] = true
			case fi.skip:
				stubbed[fi.name] = true
			case fi.repl != nil:
				modelled[fi.name] = true
			}
		}
	}
	keys := func(m map[string]bool) []string {
		r := []string{}
		for k := range m {
			r = append(r, strings.ReplaceAll(k, modPath+"/", ""))
		}
		sort.Strings(r)
		return r
	}
	paths, forks, asserts, triv, unknown := 0, 0, 0, 0, 0
	var steps int64
	harn := []map[string]interface{}{}
	inc := []string{}
	samples := []interface{}{}
	bounds := map[string]string{}
	for _, h := range hs {
		for k, v := range h.paths {
			if k != "pruned" {
				paths += v
			}
		}
		forks += h.forks
		asserts += h.asserts
		triv += h.assertsTriv
		unknown += h.unknown
		steps += h.steps
		harn = append(harn, map[string]interface{}{"harness": h.Name, "paths": h.paths, "assertions_decided": h.asserts, "assertions_by_simplification": h.assertsTriv, "assertion_sites_reached": h.labels, "covered": h.covered, "instructions": h.steps})
		for k, n := range h.inconcl {
			inc = append(inc, fmt.Sprintf("%s: %s (x%d)", h.Name, k, n))
		}
		for k, v := range h.bounds {
			bounds[h.Name+"/"+k] = v
		}
		for i, s := range h.witnesses {
			if i < 1 {
				samples = append(samples, s)
			}
		}
	}
	sort.Strings(inc)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := []string{}
	for _, v := range vs {
		viol = append(viol, fmt.Sprintf("%s [%s] %s", v.Harness, v.Label, v.Status))
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall.Seconds(), "violations": confirmed,
		"coverage": map[string]interface{}{
			"explanation":                  "Bounded symbolic execution of the SSA form of the current /repo sources: every feasible path of each harness is followed, branch feasibility and assertions are decided by an SMT solver over all values of the symbolic inputs within the stated bounds; counterexamples are replayed natively.",
			"harnesses":                    harn,
			"paths_completed":              paths,
			"forks":                        forks,
			"assertions_decided":           asserts,
			"assertions_by_simplification": triv,
			"ssa_instructions_executed":    steps,
			"functions_encoded":            keys(fnset),
			"functions_modelled":           keys(modelled),
			"functions_stubbed":            keys(stubbed),
			"bounds":                       bounds,
			"solver":                       map[string]interface{}{"binary": e.solverBin, "queries": st.Queries, "sat": st.SatN, "unsat": st.UnsatN, "unknown": st.UnknownN, "fallbacks": st.Fallbacks, "time_s": st.Time.Seconds()},
			"inconclusive":                 inc,
			"branches_kept_without_answer": unknown,
			"counterexamples":              viol,
			"spurious_counterexamples":     spurious,
			"witnesses_replayed_natively":  witnesses,
			"witnesses_diverging":          witnessBad,
			"witness_notes":                wn,
			"samples":                      samples,
			"exhaustive_within_bounds":     len(inc) == 0,
			"load_s":                       e.loadS, "setup_s": e.setupS,
		},
		"assumptions": []string{
			"account addresses, module names and table sizes are concrete; amounts, times, ratios and flags are symbolic within the bounds listed",
			"the multi-store, proto/amino codecs, bech32, events, telemetry, gas and logging are modelled (functions_modelled, functions_stubbed); Go integer widths, slices, maps, interfaces, defers and panics are executed as in the language",
			"the SMT solver and the x/tools SSA builder are trusted",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

var _ = big.NewInt
