package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// HarnessSpec and PropSpec are read from harness/props.json.
type HarnessSpec struct {
	Name     string   `json:"name"`
	Reach    []string `json:"reach"`
	Bounds   string   `json:"bounds"`
	Thorough bool     `json:"thorough_only"`
	Race     bool     `json:"race"`
	Whole    bool     `json:"whole"`
	CLI      bool     `json:"cli"`
	Native   int      `json:"native"` // native validation runs (default 3)
	Seconds  int      `json:"seconds"`
}

type PropSpec struct {
	Outside   string        `json:"outside"`
	Assume    []string      `json:"assume"`
	Harnesses []HarnessSpec `json:"harnesses"`
}

type Finding struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Msg      string            `json:"msg"`
	When     map[string]string `json:"when"`
	What     string            `json:"what"`
}

func readFindings(path string) []Finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var f Finding
		if json.Unmarshal([]byte(l), &f) == nil {
			out = append(out, f)
		}
	}
	return out
}

func (f *Finding) matches(prop, harness, msg string, w map[string]string) bool {
	if f.Property != prop || f.Harness != harness || !strings.Contains(msg, f.Msg) {
		return false
	}
	for k, v := range f.When {
		if w[k] != v {
			return false
		}
	}
	return true
}

type harnessReport struct {
	Unscaled     bool           `json:"constants_not_scaled,omitempty"`
	Harness      string         `json:"harness"`
	Bounds       string         `json:"bounds"`
	Paths        int            `json:"paths"`
	Completed    int            `json:"completed"`
	Infeasible   int            `json:"infeasible"`
	Branches     int64          `json:"solver_decided_branches"`
	Asserts      int64          `json:"assertions_checked"`
	Steps        int64          `json:"instructions"`
	Reached      map[string]int `json:"reached"`
	Missing      []string       `json:"labels_not_reached,omitempty"`
	Abandoned    map[string]int `json:"abandoned_paths,omitempty"`
	TimedOut     bool           `json:"timed_out,omitempty"`
	Native       int            `json:"native_runs_agreeing"`
	NativeSkip   int            `json:"native_runs_skipped"`
	Fallback     int            `json:"native_fallback_runs,omitempty"`
	Unreproduced []string       `json:"counterexamples_not_reproduced,omitempty"`
	Seconds      float64        `json:"seconds"`
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "dev" {
		dev(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "usage: symgo check|dev|replay ...")
	os.Exit(2)
}

func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	thorough := fs.Bool("thorough", false, "")
	workers := fs.Int("workers", 8, "")
	secs := fs.Int("t", 300, "")
	replay := fs.Bool("replay", true, "")
	race := fs.Bool("race", false, "")
	whole := fs.Bool("whole", false, "")
	prof := fs.String("prof", "", "CPU profile")
	fs.Parse(args)
	if *prof != "" {
		if f, err := os.Create(*prof); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	ld, err := load(filepath.Join(*verif, "harness"), *repo, *whole)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("load %.1fs, scaled: %v\n", time.Since(t0).Seconds(), ld.scaled)
	var nb *nativeBuild
	if *replay {
		nb = startNative(ld, filepath.Join(*verif, "harness"), *repo, *race, true)
		defer nb.cleanup()
	}
	for _, h := range fs.Args() {
		t0 := time.Now()
		ex := &Explorer{ld: ld, harness: &Harness{Name: h}, deadline: time.Now().Add(time.Duration(*secs) * time.Second), thorough: *thorough}
		ex.explore(*workers, 3)
		fmt.Printf("%s: paths=%d done=%d infeasible=%d branches=%d asserts=%d steps=%d reached=%v timeout=%v viol=%d %.1fs\n", h, ex.Paths, ex.Completed, ex.Infeasible, ex.Branches, ex.Asserts, ex.Steps, ex.Reached, ex.TimedOut, len(ex.Violations), time.Since(t0).Seconds())
		for k, n := range ex.Abandoned {
			fmt.Printf("  abandoned %d: %s\n", n, k)
		}
		for _, v := range ex.Violations {
			fmt.Printf("  VIOL %s\n  witness %.1500v\n", v.Msg, fmt.Sprint(v.Witness))
			for _, t := range v.Trace {
				if !debug {
					break
				}
				if len(t) > 200 {
					t = t[:200]
				}
				fmt.Println("    pc", t)
			}
			if nb != nil {
				r, _, _ := nb.confirm(h, v, "1", *thorough)
				fmt.Printf("  native: %s %s\n", r.kind, r.msg)
				if r.kind != "violation" {
					fmt.Println(r.out)
				}
			}
		}
		if nb != nil {
			for i, w := range ex.Witnesses {
				if i >= 4 {
					break
				}
				r := nb.run(h, w, "1", *thorough, 60*time.Second)
				if r.kind != "ok" {
					fmt.Printf("  native %d: %s %s %v\n%s\n", i, r.kind, r.msg, w, r.out)
				}
			}
		}
	}
	fmt.Printf("stats %+v\n", stats.snapshot())
}

// replay runs a stored counterexample on the compiled code: exit 1 if it still
// breaks the property, 0 if not.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo replay FILE")
		return 2
	}
	var c struct {
		Property, Harness, Message, Seed, Tier string
		Witness                                map[string]string
		Unscaled, Chance                       bool
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hdir := filepath.Join(*verif, "harness")
	ld, err := load(hdir, *repo, c.Unscaled)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var props map[string]PropSpec
	race, cli := false, false
	if b, err := os.ReadFile(filepath.Join(hdir, "props.json")); err == nil && json.Unmarshal(b, &props) == nil {
		for _, h := range props[c.Property].Harnesses {
			if h.Name == c.Harness {
				race, cli = h.Race, h.CLI
			}
		}
	}
	nb := startNative(ld, hdir, *repo, race, cli)
	defer nb.cleanup()
	r := nb.run(c.Harness, c.Witness, c.Seed, c.Tier == "thorough", 300*time.Second)
	if r.kind != "violation" && c.Chance {
		r, _, _ = nb.confirm(c.Harness, Violation{Witness: c.Witness, Chance: true}, c.Seed, c.Tier == "thorough")
	}
	fmt.Println(r.kind, r.msg)
	fmt.Print(r.out)
	switch r.kind {
	case "violation":
		return 1
	case "ok", "skip":
		return 0
	}
	return 2
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	thorough := tier == "thorough"
	start := time.Now()
	budget := 780 * time.Second
	if thorough {
		budget = 3 * time.Hour
	}
	hdir := filepath.Join(*verif, "harness")
	var props map[string]PropSpec
	b, err := os.ReadFile(filepath.Join(hdir, "props.json"))
	if err == nil {
		err = json.Unmarshal(b, &props)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "props.json:", err)
		return 2
	}
	spec, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		return 2
	}
	findings := readFindings(filepath.Join(*verif, "KNOWN_FINDINGS.jsonl"))

	// the code under test with scaled constants and as it is
	type target struct {
		ld *Loaded
		nb *nativeBuild
	}
	targets := map[bool]*target{}
	race, cli := false, false
	for _, h := range spec.Harnesses {
		race = race || h.Race
		cli = cli || h.CLI
	}
	for _, h := range spec.Harnesses {
		if targets[h.Whole] != nil || h.Thorough && !thorough {
			continue
		}
		ld, err := load(hdir, *repo, h.Whole)
		if err != nil {
			fmt.Fprintln(os.Stderr, "cannot load the code under test:", err)
			return 2
		}
		nb := startNative(ld, hdir, *repo, race, cli)
		defer nb.cleanup()
		targets[h.Whole] = &target{ld, nb}
	}
	scaled := []string{}
	if t := targets[false]; t != nil {
		scaled = t.ld.scaled
	}

	type viol struct {
		h    HarnessSpec
		v    Violation
		from string
		out  string
	}
	var confirmed []viol
	known := map[string]bool{}
	var reports []*harnessReport
	funcs := map[string]bool{}
	var samples []interface{}
	reduced := 0
	nRun := 0
	for _, h := range spec.Harnesses {
		if h.Thorough && !thorough {
			continue
		}
		nRun++
	}
	done := 0
	for _, h := range spec.Harnesses {
		if h.Thorough && !thorough {
			continue
		}
		t0 := time.Now()
		ld, nb := targets[h.Whole].ld, targets[h.Whole].nb
		left := budget - time.Since(start)
		share := left / time.Duration(nRun-done)
		if h.Seconds > 0 && !thorough && share > time.Duration(h.Seconds)*time.Second {
			share = time.Duration(h.Seconds) * time.Second
		}
		done++
		ex := &Explorer{ld: ld, harness: &Harness{Name: h.Name}, deadline: time.Now().Add(share * 8 / 10), thorough: thorough}
		ex.explore(8, 6)
		rep := &harnessReport{Harness: h.Name, Unscaled: h.Whole, Bounds: h.Bounds, Paths: ex.Paths, Completed: ex.Completed, Infeasible: ex.Infeasible,
			Branches: ex.Branches, Asserts: ex.Asserts, Steps: ex.Steps, Reached: ex.Reached, TimedOut: ex.TimedOut}
		if len(ex.Abandoned) > 0 {
			rep.Abandoned = ex.Abandoned
		}
		for _, l := range h.Reach {
			if ex.Reached[l] == 0 {
				rep.Missing = append(rep.Missing, l)
			}
		}
		for f := range ex.Funcs {
			funcs[f] = true
		}
		for i, s := range ex.Samples {
			if i >= 4 {
				break
			}
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			samples = append(samples, h.Name+": "+s)
		}
		if err := nb.wait(); err != nil {
			fmt.Fprintln(os.Stderr, "native build failed:", err)
			return 2
		}
		report := func(v Violation, from, out string) {
			for _, f := range findings {
				if f.matches(*prop, h.Name, v.Msg, v.Witness) {
					if !known[f.What] {
						known[f.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.What)
					}
					return
				}
			}
			confirmed = append(confirmed, viol{h, v, from, out})
		}
		// replay counterexamples natively
		for _, v := range ex.Violations {
			ok := false
			if v.Chance && len(confirmed) > 0 {
				continue // it would take long and tell nothing new
			}
			if r, w, sd := nb.confirm(h.Name, v, fmt.Sprint(seed), thorough); r.kind == "violation" {
				ok = true
				v.Seed, v.Witness = sd, w
				report(v, "solver counterexample, reproduced natively: "+r.msg, r.out)
			}
			if !ok {
				rep.Unreproduced = append(rep.Unreproduced, v.Msg)
			}
		}
		// native validation: models of explored paths, then fallback runs
		nv := h.Native
		if nv == 0 {
			nv = 3
			if thorough {
				nv = 12
			}
		}
		fallback := 0
		if len(ex.Abandoned) > 0 || ex.TimedOut || len(rep.Missing) > 0 || len(rep.Unreproduced) > 0 {
			reduced++
			fallback = 24
			if thorough {
				fallback = 40
			}
		}
		type job struct {
			w  map[string]string
			sd string
			fb bool
		}
		var jobs []job
		for i, w := range ex.Witnesses {
			if i >= nv {
				break
			}
			jobs = append(jobs, job{w, fmt.Sprint(seed), false})
		}
		for _, w := range ex.AbandonedWit {
			jobs = append(jobs, job{w, fmt.Sprint(seed), true})
		}
		for i := 0; i < fallback; i++ {
			jobs = append(jobs, job{map[string]string{}, fmt.Sprintf("%d.f%d", seed, i), true})
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		tn := time.Now()
		sem := make(chan bool, 4)
		for _, j := range jobs {
			wg.Add(1)
			sem <- true
			if j.fb && time.Since(tn) > 60*time.Second && !thorough {
				wg.Done()
				<-sem
				break
			}
			go func(j job) {
				defer wg.Done()
				defer func() { <-sem }()
				r := nb.run(h.Name, j.w, j.sd, thorough, 180*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if j.fb {
					rep.Fallback++
				}
				switch r.kind {
				case "ok":
					rep.Native++
				case "violation":
					report(Violation{Harness: h.Name, Msg: r.msg, Witness: j.w, Seed: j.sd}, "native run of the harness", r.out)
				default:
					rep.NativeSkip++
				}
			}(j)
		}
		wg.Wait()
		rep.Seconds = time.Since(t0).Seconds()
		reports = append(reports, rep)
		fmt.Printf("%s %s: %d paths, %d completed, %d assertions, %d native runs agree, %.1fs\n", *prop, h.Name, rep.Paths, rep.Completed, rep.Asserts, rep.Native, rep.Seconds)
		if rep.TimedOut || len(rep.Abandoned) > 0 || len(rep.Missing) > 0 || len(rep.Unreproduced) > 0 {
			fmt.Printf("REDUCED-BOUND %s %s: timed out=%v labels not reached=%v unreproduced=%v\n", *prop, h.Name, rep.TimedOut, rep.Missing, rep.Unreproduced)
			for k, n := range rep.Abandoned {
				if len(k) > 300 {
					k = k[:300]
				}
				fmt.Printf("  abandoned %d paths: %s\n", n, k)
			}
		}
		if len(confirmed) > 0 {
			break
		}
	}

	st := stats.snapshot()
	var names []string
	for f := range funcs {
		if strings.Contains(f, modPath) {
			names = append(names, strings.ReplaceAll(f, modPath+"/", ""))
		}
	}
	sort.Strings(names)
	var deps int
	for f := range funcs {
		if !strings.Contains(f, modPath) && !strings.Contains(f, "verif/harness") {
			deps++
		}
	}
	var paths, compl, nat int
	var steps, asserts int64
	for _, r := range reports {
		paths += r.Paths
		compl += r.Completed
		nat += r.Native
		steps += r.Steps
		asserts += r.Asserts
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	assume := append([]string{}, spec.Assume...)
	assume = append(assume, baseAssumptions...)
	ev := map[string]interface{}{
		"property": *prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        paths,
			"transitions":                   steps,
			"traces_validated_against_impl": nat,
			"samples":                       samples,
			"completed_paths":               compl,
			"assertions":                    asserts,
			"functions_encoded":             names,
			"dependency_functions_encoded":  deps,
			"queries":                       st.Queries,
			"queries_sat":                   st.Sat,
			"queries_unsat":                 st.Unsat,
			"queries_unknown":               st.Unknown,
			"queries_cached":                st.Cached,
			"solver_seconds":                st.Seconds,
			"harnesses":                     reports,
			"harnesses_with_reduced_bound":  reduced,
			"outside_the_bounds":            spec.Outside,
			"constants_scaled":              scaled,
			"explanation":                   "states = symbolic paths explored; transitions = SSA instructions executed symbolically; traces = models of explored paths re-run on the compiled code with the same outcome",
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(confirmed),
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), eb, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(confirmed) == 0 {
		return 0
	}
	for i, c := range confirmed {
		p := filepath.Join(*verif, "evidence", fmt.Sprintf("%s-cex-%d.json", *prop, i))
		cb, _ := json.MarshalIndent(map[string]interface{}{
			"property": *prop, "harness": c.h.Name, "message": c.v.Msg, "source": c.from, "witness": c.v.Witness, "seed": c.v.Seed, "tier": tier, "unscaled": c.h.Whole,
			"chance": c.v.Chance, "path_condition": c.v.Trace, "native_output": c.out,
			"replay": "bash /verif/replay.sh " + p,
		}, "", " ")
		os.WriteFile(p, cb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s %s: %s\n", *prop, p, c.h.Name, c.v.Msg)
	}
	return 1
}

var baseAssumptions = []string{
	"BN254 groups are modelled by discrete logarithms relative to the generators; attacker points in G2 of unknown logarithm are covered by generic-group reasoning only",
	"hash functions are collision-free and hash-to-curve outputs are independent random points; fresh randomness is an indeterminate (Schwartz-Zippel)",
	"gnark's R1CS serialisation and encoding/gob are modelled as faithful; gnark-crypto's decoder, encoder, FFT and the repository's own code are executed from source",
	"integer constants in [2^17,2^22] of the code under test are scaled by 2^-18 in both the symbolic and the native runs so that batch and buffer boundaries are crossed",
}
