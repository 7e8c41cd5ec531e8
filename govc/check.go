package main

// The check of one property: every contract with a clause of the property, plus the contracts it relies on, plus the
// concrete driver (which replays failures, and stands in, bounded, where the verifier does not reach).

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type knownFinding struct{ prop, key, text string }

func loadKnown() (kf []knownFinding) {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN-FINDINGS.txt"))
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			kf = append(kf, knownFinding{m[1], m[2], m[3]})
		}
	}
	return
}

type driverResult struct {
	Ran        bool     `json:"ran"`
	Err        string   `json:"error,omitempty"`
	Evals      int      `json:"evaluations"`
	Distinct   int      `json:"distinct_nontrivial"`
	Bound      string   `json:"bound"`
	Samples    []string `json:"samples"`
	Violations []string `json:"violations"` // "key: description"
	Cmd        string   `json:"cmd"`
}

func hasTag(con *Contract, prop string) bool {
	if prop == "C04" && con.safety {
		return true
	}
	for _, p := range con.posts {
		for _, t := range p.tags {
			if t == prop {
				return true
			}
		}
	}
	return false
}

func runDriver(prop string, seed int, tier string, limit time.Duration) (d driverResult) {
	dir := filepath.Join(verifDir(), "replay")
	fs, _ := filepath.Glob(filepath.Join(dir, "*_verif_test.go"))
	mine := false
	tmp, err := os.MkdirTemp("", "govcdrv")
	if err != nil {
		d.Err = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	needs := map[string]bool{}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func TestVf"+prop+"(") {
			for _, m := range regexp.MustCompile(`(?m)^// needs: (.*)$`).FindAllStringSubmatch(string(b), -1) {
				for _, n := range strings.Fields(m[1]) {
					needs[n+"_verif_test.go"] = true
				}
			}
		}
	}
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if !strings.Contains(string(b), "func TestVf"+prop+"(") && !needs[filepath.Base(f)] && !strings.HasPrefix(filepath.Base(f), "vfcommon") {
			continue // other drivers stay out
		}
		pkg := repoDir()
		if strings.HasPrefix(string(b), "package syntax") {
			pkg = filepath.Join(repoDir(), "syntax")
		}
		if strings.Contains(string(b), "func TestVf"+prop+"(") {
			mine = true
		}
		repl[filepath.Join(pkg, filepath.Base(f))] = f
	}
	if !mine {
		d.Err = "no driver"
		return
	}
	// the driver needs nothing of the repository's own tests: they stay out of the test binary
	ts, _ := filepath.Glob(filepath.Join(repoDir(), "*_test.go"))
	ts2, _ := filepath.Glob(filepath.Join(repoDir(), "syntax", "*_test.go"))
	for _, f := range append(ts, ts2...) {
		if repl[f] == "" {
			repl[f] = ""
		}
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	if err := prepMod(tmp); err != nil {
		d.Err = err.Error()
		return
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	bin := filepath.Join(tmp, "drv.test")
	cmd := exec.CommandContext(ctx, "go", "test", "-modfile="+filepath.Join(tmp, "mint.mod"), "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", int(limit.Seconds())), "-run", "^TestVf"+prop+"$", "-v", ".", "./syntax")
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=", "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+tmp)
	_ = bin
	d.Cmd = "VERIF_SEED=" + strconv.Itoa(seed) + " go test -overlay <overlay of /verif/replay> -run '^TestVf" + prop + "$' . ./syntax"
	cmd.WaitDelay = 3 * time.Second
	out, err := cmd.CombinedOutput()
	done := false
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "VFVIOLATION "):
			d.Violations = append(d.Violations, trunc(l[12:], 4000))
		case strings.HasPrefix(l, "VFSAMPLE "):
			d.Samples = append(d.Samples, trunc(l[9:], 400))
		case strings.HasPrefix(l, "VFSTAT "):
			var a, b int
			fmt.Sscanf(l[7:], "%d %d", &a, &b)
			d.Evals += a
			d.Distinct += b
			done = true
		case strings.HasPrefix(l, "VFBOUND "):
			d.Bound = l[8:]
		}
	}
	if done || len(d.Violations) > 0 {
		d.Ran = true
		return
	}
	d.Err = "driver did not finish: " + fmt.Sprint(err) + ": " + trunc(string(out), 3000)
	return
}

func checkCmd(args []string) int {
	if len(args) < 1 {
		return 2
	}
	prop := args[0]
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	x, err := load()
	if err != nil {
		fmt.Println("govc: cannot load /repo:", err)
		return 2
	}
	var drv driverResult
	drvDone := make(chan bool)
	go func() {
		drv = runDriver(prop, seed, tier, 400*time.Second)
		close(drvDone)
	}()
	type job struct{ name, prop string }
	self, _ := os.Executable()
	var mu sync.Mutex
	var results []*TargetResult
	seen := map[job]bool{}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var run func(j job)
	run = func(j job) {
		mu.Lock()
		if seen[j] {
			mu.Unlock()
			return
		}
		seen[j] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), 420*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, self, "target", j.name, j.prop, "json")
			cmd.WaitDelay = 2 * time.Second
			out, err := cmd.Output()
			res := &TargetResult{Target: j.name, Prop: j.prop}
			if e := json.Unmarshal(out, res); e != nil {
				res.Err = fmt.Sprintf("verifier gave no result: %v", err)
				if ctx.Err() != nil {
					res.Err = "verifier out of time"
				}
			}
			mu.Lock()
			results = append(results, res)
			mu.Unlock()
			for c := range res.Cuts {
				run(job{c, "*"})
			}
		}()
	}
	any := false
	for _, c := range x.con.order {
		if hasTag(c, prop) && c.opts["trusted"] == "" {
			any = true
			run(job{c.name, prop})
		}
	}
	if !any {
		fmt.Println("govc: no contract has a clause of", prop)
		return 2
	}
	wg.Wait()
	<-drvDone
	sort.Slice(results, func(i, j int) bool {
		if results[i].Prop != results[j].Prop {
			return results[i].Prop > results[j].Prop
		}
		return results[i].Target < results[j].Target
	})

	type fnRep struct {
		Function    string         `json:"function"`
		Contract    string         `json:"contract"`
		Clauses     string         `json:"clauses"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Paths       int            `json:"paths"`
		InvChecks   int            `json:"invariant_obligations"`
		Loops       []string       `json:"loops,omitempty"`
		Inlined     []string       `json:"inlined,omitempty"`
		Cuts        []string       `json:"callee_contracts,omitempty"`
		Ms          int64          `json:"ms"`
		Error       string         `json:"error,omitempty"`
		By          map[string]int `json:"discharged_by"`
	}
	var fns []fnRep
	obs, dis, invs := 0, 0, 0
	by := map[string]int{}
	solver := map[string]int64{}
	trusted := map[string]int{}
	dropped := map[string]int{}
	var failed []string
	var detail strings.Builder
	for _, r := range results {
		f := fnRep{Function: r.Target, Contract: r.File, Clauses: r.Prop, Paths: r.Paths, InvChecks: r.InvOK, Loops: r.Notes, Ms: r.WallMs, Error: r.Err, By: map[string]int{}}
		for n := range r.Inlined {
			f.Inlined = append(f.Inlined, n)
		}
		for n := range r.Cuts {
			f.Cuts = append(f.Cuts, n)
		}
		sort.Strings(f.Inlined)
		sort.Strings(f.Cuts)
		for _, o := range r.Obs {
			f.Obligations++
			if o.Status == "discharged" {
				f.Discharged++
				s := o.Solver
				if s == "" {
					s = "simplifier"
				}
				f.By[s]++
				by[s]++
				continue
			}
			failed = append(failed, o.Name)
			if len(failed) <= 8 {
				fmt.Fprintf(&detail, "FAILED OBLIGATION %s\n  kind   %s (%s)\n  at     %s\n  goal   %s\n", o.Name, o.Kind, o.Status, o.Pos, trunc(o.Goal, 3000))
				var tr []string
				for _, t := range o.Trace {
					if t != "" {
						tr = append(tr, t)
					}
				}
				fmt.Fprintf(&detail, "  path   %s\n\n", trunc(strings.Join(tr, "; "), 4000))
			}
		}
		if r.Err != "" {
			failed = append(failed, r.Target+": "+r.Err)
			fmt.Fprintf(&detail, "CONTRACT NOT VERIFIED %s: %s\n\n", r.Target, r.Err)
		} else if f.Obligations == 0 {
			failed = append(failed, r.Target+": no obligations")
			fmt.Fprintf(&detail, "CONTRACT NOT VERIFIED %s: no obligation was generated\n\n", r.Target)
		}
		obs += f.Obligations
		dis += f.Discharged
		invs += r.InvOK
		for k, v := range r.SolverMs {
			solver[k] += v
		}
		for k, v := range r.Trusted {
			trusted[k] += v
		}
		for k, v := range r.Dropped {
			dropped[k] += v
		}
		fns = append(fns, f)
	}
	var tb []string
	for k := range trusted {
		tb = append(tb, k)
	}
	sort.Strings(tb)
	var dr []string
	for k := range dropped {
		dr = append(dr, k)
	}
	sort.Strings(dr)

	// known findings
	kf := loadKnown()
	matchKnown := func(s string) *knownFinding {
		for i := range kf {
			if kf[i].prop == prop && (s == kf[i].key || strings.HasPrefix(s, kf[i].key+":") || strings.HasPrefix(s, kf[i].key+"/")) {
				return &kf[i]
			}
		}
		return nil
	}
	var newFailed, newViol []string
	said := map[string]bool{}
	for _, f := range failed {
		if k := matchKnown(strings.ReplaceAll(f, " ", "_")); k != nil {
			said[k.key] = true
			continue
		}
		newFailed = append(newFailed, f)
	}
	for _, v := range drv.Violations {
		if k := matchKnown(v); k != nil {
			said[k.key] = true
			continue
		}
		newViol = append(newViol, v)
	}
	for _, k := range kf {
		if k.prop == prop && said[k.key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	viol := len(newFailed) + len(newViol)

	assume := append([]string{}, baseAssumptions...)
	level := "proof"
	cov := map[string]interface{}{
		"obligations":           obs,
		"discharged":            dis,
		"invariant_obligations": invs,
		"checker_cmd":           "/verif/check.sh " + prop + " (govc: go/ssa of /repo's working tree, contracts of /verif/contracts)",
		"trusted_base":          append([]string{"govc (the verifier in /verif/govc)", "go/ssa (golang.org/x/tools v0.52.0) and the Go compiler", "z3 4.8.12, z3 5.x, cvc5 1.1.2"}, tb...),
		"functions":             fns,
		"discharged_by":         by,
		"solver_ms":             solver,
		"calls_not_executed":    dr,
	}
	if drv.Ran {
		cov["bounded_stand_in"] = map[string]interface{}{"note": "concrete runs of the real code against the same oracle; bounded, not counted as proved", "evaluations": drv.Evals, "distinct_nontrivial": drv.Distinct, "bound": drv.Bound, "samples": drv.Samples, "cmd": drv.Cmd}
	} else {
		cov["bounded_stand_in"] = map[string]interface{}{"note": "not run: " + drv.Err}
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0644)

	fmt.Printf("%s: %d contracts, %d/%d obligations discharged (%d loop-invariant obligations), %.1fs\n", prop, len(results), dis, obs, invs, time.Since(t0).Seconds())
	if drv.Ran {
		fmt.Printf("%s: bounded stand-in: %d executions (%d distinct non-trivial)\n", prop, drv.Evals, drv.Distinct)
	}
	if viol == 0 {
		return 0
	}
	rp := filepath.Join(verifDir(), "evidence", "replay-"+prop+".txt")
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s\n\n", prop)
	for _, v := range newViol {
		fmt.Fprintf(&rep, "FAILING INPUT (executed on the real code): %s\n", v)
	}
	if len(newViol) > 0 {
		fmt.Fprintf(&rep, "replay with: %s\n\n", drv.Cmd)
	} else if !drv.Ran {
		fmt.Fprintf(&rep, "driver: %s\n\n", drv.Err)
	}
	for _, f := range newFailed {
		fmt.Fprintf(&rep, "failed: %s\n", f)
	}
	rep.WriteString("\n" + detail.String())
	os.WriteFile(rp, []byte(rep.String()), 0644)
	for i, v := range newViol {
		if i < 3 {
			fmt.Println("failing input:", trunc(v, 600))
		}
	}
	for i, f := range newFailed {
		if i < 5 {
			fmt.Println("failed obligation:", trunc(f, 400))
		}
	}
	if len(newViol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
	}
	return 1
}

var baseAssumptions = []string{
	"Go int arithmetic is treated as mathematical (explicitly sized unsigned types wrap as in Go); lengths are below 2^62",
	"pointers and slices of the pre-state are distinct unless the contract says otherwise; slices of the pre-state have cap == len",
	"interface values in fields with a single production implementation have that dynamic type (devirtualisation)",
	"the standard library and golang.org/x functions listed as trusted_base satisfy their models (uninterpreted, deterministic functions with the stated algebraic facts)",
	"goroutines started by the code are not executed; logging has no effect on the state",
	"package-level variables that only initialisers assign keep their initial value",
	"a transport Read that returns an error delivers no bytes with it",
	"package syntax encodes and decodes a structure as its type and tags in the source declare (its integer and length primitives are proved under C05; its reflection walk is only tested)",
}
