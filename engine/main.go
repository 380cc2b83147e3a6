package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct {
	fixed          bool
	prop, id, harn string
	what           string
}

var kfRe = regexp.MustCompile(`^(finding|fixed): property=(\S+)\s+(.*)$`)

func readFindings(path string) []finding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		m := kfRe.FindStringSubmatch(strings.TrimSpace(sc.Text()))
		if m == nil {
			continue
		}
		x := finding{fixed: m[1] == "fixed", prop: m[2], what: m[3]}
		for _, w := range strings.Fields(m[3]) {
			if strings.HasPrefix(w, "id=") {
				x.id = w[3:]
			} else if strings.HasPrefix(w, "harness=") {
				x.harn = w[8:]
			} else {
				continue
			}
			x.what = strings.TrimSpace(strings.Replace(x.what, w, "", 1))
		}
		out = append(out, x)
	}
	return out
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vengine check Cxx quick|thorough [Harness...] | vengine replay FILE")
		os.Exit(2)
	}
	if f := os.Getenv("VENGINE_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)

		}
	}
	e := &Engine{repo: env("VH_REPO", "/repo"), verif: env("VH_VERIF", "/verif")}
	sd, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	e.scratch = sd
	code := 0
	switch os.Args[1] {
	case "check":
		e.prop = os.Args[2]
		tier := env("VERIF_TIER", "quick")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		var only []string
		if len(os.Args) > 4 {
			only = os.Args[4:]
		}
		code = e.check(tier, only)
	case "replay":
		code = e.replayFile(os.Args[2])
	default:
		code = 2
	}
	os.RemoveAll(sd)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func (e *Engine) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.prop = j.Prop
	e.thorough = j.Tier == "thorough"
	e.known = j.Known
	e.stubs = fileExists(filepath.Join(e.verif, "harness", strings.ToLower(e.prop), "stubs"))
	if err := e.Load(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nt := newNative(e)
	r, err := nt.run(buildKind{j.Pkg, j.Race, j.Yield}, j, 30*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println(r.out)
	fmt.Printf("exit %d timeout %v\n", r.code, r.timeout)
	if r.code != 0 {
		return 1
	}
	return 0
}

type harnessReport struct {
	Name        string                   `json:"harness"`
	Doc         string                   `json:"what"`
	Bounds      string                   `json:"bounds,omitempty"`
	Replaced    []string                 `json:"replaced_by_specification,omitempty"`
	Paths       int64                    `json:"paths_completed"`
	Explored    int64                    `json:"paths_explored"`
	Decisions   int64                    `json:"decisions"`
	Forced      int64                    `json:"decisions_forced"`
	Depth       int64                    `json:"max_depth"`
	Steps       int64                    `json:"ssa_steps"`
	Merged      int64                    `json:"merged_calls"`
	Queries     int64                    `json:"queries"`
	Sat         int64                    `json:"sat"`
	Unsat       int64                    `json:"unsat"`
	Unknown     int64                    `json:"unknown"`
	SolverS     float64                  `json:"solver_s"`
	WallS       float64                  `json:"wall_s"`
	Complete    bool                     `json:"exhaustive_within_bounds"`
	Obligations []map[string]interface{} `json:"obligations"`
	Ends        map[string]int           `json:"path_ends"`
	Undecided   map[string]int           `json:"undecided,omitempty"`
	Covers      map[string]int           `json:"covered,omitempty"`
	Validated   int                      `json:"traces_validated"`
	Disagree    []string                 `json:"traces_disagreeing,omitempty"`
}

func (e *Engine) check(tier string, only []string) int {
	t0 := time.Now()
	e.thorough = tier == "thorough"
	seed, _ := strconv.Atoi(env("VERIF_SEED", "1"))
	budget := 110.0
	if e.thorough {
		budget = 780
	}
	if v, err := strconv.ParseFloat(os.Getenv("VENGINE_BUDGET"), 64); err == nil {
		budget = v
	}
	debug := os.Getenv("VENGINE_DEBUG") != ""
	verbose := debug || len(only) > 0 || os.Getenv("VENGINE_V") != ""
	all := readFindings(filepath.Join(e.verif, "known-findings.txt"))
	e.known = map[string]bool{}
	var mine []finding
	for _, f := range all {
		if f.prop == e.prop && !f.fixed {
			e.known[f.id] = true
			mine = append(mine, f)
		}
	}
	evDir := env("VH_EVIDENCE", filepath.Join(e.verif, "evidence"))
	os.MkdirAll(evDir, 0755)
	e.stubs = fileExists(filepath.Join(e.verif, "harness", strings.ToLower(e.prop), "stubs"))
	ev := map[string]interface{}{"property": e.prop, "tier": tier, "seed": seed, "level": "model_checking"}
	finish := func(cov map[string]interface{}, assume []string, viol int) {
		ev["coverage"] = cov
		if assume == nil {
			assume = []string{}
		}
		ev["assumptions"] = assume
		ev["violations"] = viol
		ev["wall_s"] = math.Round(time.Since(t0).Seconds()*100) / 100
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evDir, e.prop+".json"), append(b, '\n'), 0644)
	}
	if err := e.Load(); err != nil {
		fmt.Printf("UNDECIDED property=%s %v\n", e.prop, err)
		finish(map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []interface{}{}, "undecided": err.Error()}, nil, 0)
		return 0
	}
	loadS := time.Since(t0).Seconds()
	nt := newNative(e)
	var hs []*Harness
	for _, h := range e.harnesses {
		if h.tier == "thorough" && !e.thorough && len(only) == 0 {
			continue
		}
		if h.tier == "quick" && e.thorough && len(only) == 0 {
			continue
		}
		if h.tier == "known" {
			continue
		}
		if len(only) > 0 {
			ok := false
			for _, o := range only {
				ok = ok || o == h.Name
			}
			if !ok {
				continue
			}
		}
		hs = append(hs, h)
	}
	var reports []*harnessReport
	var violation *Job
	var vwhat string
	assume := map[string]bool{}
	var samples []interface{}
	validated := 0
	for i, h := range hs {
		left := budget - time.Since(t0).Seconds()
		share := left * 2 / float64(len(hs)-i+1)
		if h.time > 0 && h.time < share {
			share = h.time
		}
		if h.time > share {
			share = math.Min(left, h.time)
		}
		if share < 1 {
			share = 1
		}
		hs0 := time.Now()
		r := &Run{eng: e, h: h, ctx: NewCtx(), qc: NewQCache(), ends: map[string]int{}, undecided: map[string]int{}, obls: map[string]*Obligation{},
			covers: map[string]int{}, candBy: map[string]int{}, deadline: hs0.Add(time.Duration(share * float64(time.Second)))}
		var cmu sync.Mutex
		r.onCand = func(r *Run, c *Candidate) bool {
			cmu.Lock()
			defer cmu.Unlock()
			if violation != nil {
				return true
			}
			j, w := nt.confirm(h, c)
			if verbose {
				fmt.Fprintf(os.Stderr, "candidate %s %q %s -> %v %s\n   %s\n", h.Name, c.Label, c.Msg, j != nil, w, sig(c.Names))
			}
			if j != nil {
				violation, vwhat = j, w
				return true
			}
			return false
		}
		w := 8
		if h.workers > 0 {
			w = h.workers
		}
		r.Explore(w)
		rep := e.report(r, h, time.Since(hs0))
		// validate the engine on samples of completed paths
		if violation == nil {
			n := 3
			if e.thorough {
				n = 8
			}
			rep.Validated, rep.Disagree = nt.validate(r, h, n, &samples)
			validated += rep.Validated
		}
		reports = append(reports, rep)
		for k := range r.ctx.assume {
			assume[k] = true
		}
		if verbose {
			b, _ := json.MarshalIndent(rep, "", "  ")
			fmt.Fprintln(os.Stderr, string(b))
		} else {
			und := ""
			if len(rep.Undecided) > 0 {
				und = fmt.Sprintf(" undecided=%v", rep.Undecided)
			}
			fmt.Printf("%s: paths=%d queries=%d solver=%.1fs wall=%.1fs%s\n", h.Name, rep.Paths, rep.Queries, rep.SolverS, rep.WallS, und)
		}
		if violation != nil {
			break
		}
	}
	var st, tr, ob, dis, q, un int64
	var sol float64
	complete := true
	for _, r := range reports {
		st += r.Paths
		tr += r.Decisions
		q += r.Queries
		un += r.Unknown
		sol += r.SolverS
		complete = complete && r.Complete
		for _, o := range r.Obligations {
			ob += o["checked"].(int64)
			dis += o["proved"].(int64)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no completed path had a concrete witness")
	}
	cov := map[string]interface{}{
		"states": st, "transitions": tr, "traces_validated_against_impl": validated, "samples": samples,
		"obligations": ob, "discharged": dis, "queries": q, "queries_unknown": un, "solver_s": math.Round(sol*100) / 100,
		"load_s": math.Round(loadS*100) / 100, "native_runs": nt.runs,
		"functions_encoded": e.coveredNames(), "harnesses": reports, "exhaustive": complete,
		"explanation": "states = symbolic paths completed (each stands for all inputs that follow it), transitions = symbolic decisions taken, obligations = assertion instances on paths, discharged = shown by the solver or by normalisation for every input of the path",
	}
	var as []string
	for k := range assume {
		as = append(as, k)
	}
	for _, x := range e.misfits {
		fmt.Printf("UNDECIDED property=%s %s\n", e.prop, x)
		as = append(as, "not explored: "+x)
	}
	sort.Strings(as)
	as = append([]string{"float64 arithmetic is read as exact real arithmetic; counterexamples are replayed in the real arithmetic before they are reported"}, as...)
	kfN := 0
	if violation == nil {
		for _, f := range mine {
			for _, h := range e.harnesses {
				if h.Name != f.harn {
					continue
				}
				e.known = map[string]bool{}
				r, err := nt.run(buildKind{dir: h.pkgDir}, Job{Name: h.Name, Inputs: map[string]float64{}}, 20*time.Second)
				if err == nil && (r.code == 3 || r.code == 2) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", e.prop, f.what)
					kfN++
				}
			}
		}
	}
	cov["known_findings"] = kfN
	if violation != nil {
		rp := filepath.Join(evDir, "replay")
		os.MkdirAll(rp, 0755)
		f := filepath.Join(rp, e.prop+".json")
		violation.Tier = tier
		violation.Known = e.known
		b, _ := json.MarshalIndent(violation, "", " ")
		os.WriteFile(f, append(b, '\n'), 0644)
		cov["violation"] = violation
		finish(cov, as, 1)
		fmt.Printf("violated: %s in %s with %s\n", vwhat, violation.Name, sig(violation.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, f)
		return 1
	}
	finish(cov, as, 0)
	fmt.Printf("OK property=%s tier=%s paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs\n", e.prop, tier, st, ob, dis, q, sol, time.Since(t0).Seconds())
	return 0
}

func (e *Engine) report(r *Run, h *Harness, d time.Duration) *harnessReport {
	rep := &harnessReport{Name: h.Name, Doc: strings.TrimSpace(h.Doc), Bounds: h.bounds, Replaced: h.replace, Paths: r.okPaths, Explored: r.paths, Decisions: r.decisions, Forced: r.forced,
		Depth: r.maxDepth, Steps: r.steps, Merged: r.merges, Queries: r.stats.Queries, Sat: r.stats.SatN, Unsat: r.stats.UnsatN, Unknown: r.stats.UnknownN,
		SolverS: math.Round(float64(r.stats.SolverNs)/1e7) / 100, WallS: math.Round(d.Seconds()*100) / 100, Ends: r.ends, Undecided: r.undecided, Covers: r.covers}
	rep.Complete = !r.timedOut && len(r.undecided) == 0
	if r.timedOut {
		rep.Undecided["time limit"]++
	}
	for _, o := range r.sortedObls() {
		m := map[string]interface{}{"label": o.Label, "checked": o.Checked, "proved": o.Proved, "by_normalisation": o.Trivial}
		if o.Unknown > 0 {
			m["unknown"] = o.Unknown
			m["example"] = o.example
			rep.Complete = false
		}
		if o.Candidates > 0 {
			m["candidates"] = o.Candidates
			m["not_reproduced_natively"] = o.Unreproduced
		}
		rep.Obligations = append(rep.Obligations, m)
	}
	return rep
}

// validate runs the real code on the witnesses of a few completed paths and
// compares what the harness observes.
func (nt *Nat) validate(r *Run, h *Harness, n int, samples *[]interface{}) (int, []string) {
	ok := 0
	var bad []string
	for i, s := range r.samples {
		if i >= n {
			break
		}
		res, err := nt.run(buildKind{dir: h.pkgDir}, Job{Name: h.Name, Inputs: s.names}, 20*time.Second)
		if err != nil {
			bad = append(bad, "build: "+firstLine(err.Error()))
			break
		}
		if len(*samples) < 12 {
			*samples = append(*samples, map[string]interface{}{"harness": h.Name, "inputs": s.names})
		}
		if res.code != 0 {
			bad = append(bad, fmt.Sprintf("exit %d %s for %s", res.code, res.asserted(), sig(s.names)))
			continue
		}
		env := NewEnv(s.env)
		good := len(res.obs) == len(s.obs)
		why := ""
		if !good {
			why = fmt.Sprintf("%d observations, the engine has %d", len(res.obs), len(s.obs))
		}
		for j := 0; good && j < len(s.obs); j++ {
			if f, o := s.obs[j].v.(Iface); o {
				s.obs[j].v = f.v
			}
			v, isNum := obsNum(env, s.obs[j].v)
			if !isNum {
				if t, o := s.obs[j].v.(string); o && !strings.ContainsAny(t, "\x01\x02") {
					if t2, o2 := res.obs[j][1].(string); !o2 || t2 != t {
						good = false
						why = fmt.Sprintf("%s: %q and %q", s.obs[j].label, t, res.obs[j][1])
					}
				}
				continue
			}
			f, o := res.obs[j][1].(float64)
			if !o || math.Abs(f-v) > 1e-6*(1+math.Abs(v)) {
				good = false
				why = fmt.Sprintf("%s: engine %v, real code %v", s.obs[j].label, v, res.obs[j][1])
			}
		}
		if good {
			ok++
		} else {
			bad = append(bad, why+" for "+sig(s.names))
		}
	}
	return ok, bad
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		j := i + 200
		if j > len(s) {
			j = len(s)
		}
		return s[:j]
	}
	return s
}

func obsNum(env *Env, v Value) (float64, bool) {
	switch x := v.(type) {
	case Iface:
		return obsNum(env, x.v)
	case *Poly:
		return env.Poly(x), true
	case *Bool:
		if env.Bool(x) {
			return 1, true
		}
		return 0, true
	case bool:
		if x {
			return 1, true
		}
		return 0, true
	case float64:
		return x, true
	case int64:
		return float64(x), true
	case uint64:
		return float64(x), true
	}
	return 0, false
}
