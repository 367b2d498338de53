package main

// The check command: decides one property by proving every obligation of
// every function whose contract carries it.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type obRes struct {
	Name, Kind, Pos, Status, Backend, Detail string
	Secs                                     float64
	Facts                                    []string
	Goal                                     string
	Model                                    map[string]string
	Queries                                  []string
}

type fnRes struct {
	Key, Conf, Where, Error        string
	Obs                            []obRes
	Trivial, Returns               int
	Assumed, Trusted, Inlined, Use []string
	Secs                           float64
	Solver                         float64
	Queries                        int
}

type job struct{ Conf, Key string }

// loadAll loads the program in a configuration and binds the contracts.
func loadAll(conf string) (*Program, *Specs, error) {
	tags := ""
	if conf == "purego" {
		tags = "purego,noasm"
	}
	prog, err := Load(repoDir(), tags)
	if err != nil {
		return nil, nil, err
	}
	specs, err := LoadSpecs(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		return nil, nil, err
	}
	for k, s := range specs.ByKey {
		fi := prog.Funcs[k]
		// contracts of unexported helpers follow the source: when the helper
		// is gone or has another signature its body is taken inline instead
		if !s.Inline && unexportedKey(k) && (fi == nil || !arityOK(fi, s)) {
			s.Dropped = true
			delete(specs.ByKey, k)
			continue
		}
		if conf == "purego" && s.Trusted != "" && s.Kernel && fi != nil && fi.Decl.Body != nil {
			s.Trusted = ""
		}
	}
	return prog, specs, nil
}

func unexportedKey(k string) bool {
	n := k[strings.LastIndex(k, ".")+1:]
	return n != "" && !ast.IsExported(n)
}

func arityOK(fi *FuncInfo, s *Spec) bool {
	n := 0
	if fi.Decl.Recv != nil {
		n = 1
	}
	for _, f := range fi.Decl.Type.Params.List {
		if len(f.Names) == 0 {
			n++
		}
		n += len(f.Names)
	}
	r := 0
	if fi.Decl.Type.Results != nil {
		for _, f := range fi.Decl.Type.Results.List {
			if len(f.Names) == 0 {
				r++
			}
			r += len(f.Names)
		}
	}
	return n == len(s.Params) && r == len(s.Results)
}

func cmdWorker(args []string) {
	conf := args[0]
	prog, specs, err := loadAll(conf)
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		key := sc.Text()
		if err != nil {
			enc.Encode(fnRes{Key: key, Conf: conf, Error: err.Error()})
			w.Flush()
			continue
		}
		q0, t0 := statQueries, statTime
		r := VerifyFn(prog, specs, key, solverMillis)
		out := fnRes{Key: key, Conf: conf, Where: r.Where, Error: r.Error, Trivial: r.Trivial, Returns: r.Returns, Assumed: r.Assumed, Trusted: r.Trusted, Inlined: r.Inlined, Use: r.Used, Secs: r.Secs}
		out.Queries = int(statQueries - q0)
		out.Solver = (statTime - t0).Seconds()
		for _, o := range r.Obs {
			x := obRes{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.Status, Backend: o.Backend, Detail: o.Detail, Secs: o.Secs}
			if o.Status != "proved" {
				for i, f := range o.Facts {
					if i > 60 {
						break
					}
					x.Facts = append(x.Facts, clip(f.String(), 400))
				}
				x.Goal = clip(o.Goal.String(), 2000)
				x.Model = o.Model
			}
			out.Obs = append(out.Obs, x)
		}
		enc.Encode(out)
		w.Flush()
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

// runJobs verifies the jobs on parallel worker processes.
func runJobs(jobs []job) []fnRes {
	var mu sync.Mutex
	var out []fnRes
	byConf := map[string][]string{}
	for _, j := range jobs {
		byConf[j.Conf] = append(byConf[j.Conf], j.Key)
	}
	var wg sync.WaitGroup
	self, _ := os.Executable()
	total := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("GOCV_JOBS")); err == nil && v > 0 {
		total = v
	}
	for conf, keys := range byConf {
		n := total
		if len(byConf) > 1 {
			if n = total * len(keys) / len(jobs); n < 1 {
				n = 1
			}
		}
		if n > len(keys) {
			n = len(keys)
		}
		ch := make(chan string, len(keys))
		for _, k := range keys {
			ch <- k
		}
		close(ch)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(conf string) {
				defer wg.Done()
				for {
					cmd := exec.Command(self, "worker", conf)
					cmd.Stderr = os.Stderr
					in, _ := cmd.StdinPipe()
					o, _ := cmd.StdoutPipe()
					if err := cmd.Start(); err != nil {
						return
					}
					rd := bufio.NewReaderSize(o, 1<<20)
					died := false
					for k := range ch {
						fmt.Fprintln(in, k)
						line, err := rd.ReadBytes('\n')
						var r fnRes
						if err == nil {
							err = json.Unmarshal(line, &r)
						}
						if err != nil {
							died = true
							msg := "verifier process ended: " + err.Error()
							r = fnRes{Key: k, Conf: conf, Error: msg}
							r.Obs = []obRes{{Name: k + ":reach:" + msg, Kind: "unsupported", Status: "failed"}}
						}
						mu.Lock()
						out = append(out, r)
						mu.Unlock()
						if died {
							break
						}
					}
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					if !died {
						return
					}
				}
			}(conf)
		}
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool {
		if out[i].Conf != out[j].Conf {
			return out[i].Conf < out[j].Conf
		}
		return out[i].Key < out[j].Key
	})
	return out
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// obProps: the properties an obligation of a function decides.
func obProps(sp *Spec, kind string) []string {
	if i := strings.Index(kind, "@"); i >= 0 {
		return []string{kind[i+1:]}
	}
	pick := func(ps ...string) []string {
		for _, p := range ps {
			if contains(sp.Props, p) {
				return []string{p}
			}
		}
		if len(sp.Props) == 0 {
			return nil
		}
		return sp.Props[:1]
	}
	switch kind {
	case "new": // the result's dimensions are part of its value
		r := pick("C01")
		if len(sp.Props) > 0 && !contains(r, sp.Props[0]) {
			r = append(r, sp.Props[0])
		}
		return r
	case "frame", "fresh":
		return pick("C02")
	case "panic", "nopanic": // whether a call is accepted is part of what it does
		r := pick("C07")
		if len(sp.Props) > 0 && !contains(r, sp.Props[0]) {
			r = append(r, sp.Props[0])
		}
		return r
	case "errs":
		return pick("C15", "C11", "C07")
	case "pre":
		return pick("C11")
	case "grad":
		return pick("C10")
	case "gradn": // how often a gradient is delivered
		r := pick("C10")
		if contains(sp.Props, "C11") && !contains(r, "C11") {
			r = append(append([]string{}, r...), "C11")
		}
		return r
	case "lock", "signal":
		return pick("C28")
	case "unsupported":
		return sp.Props
	}
	r := pick()
	// completeness of an update is the whole effect of updating one parameter
	if contains(sp.Props, "C15") && !contains(r, "C15") {
		r = append(append([]string{}, r...), "C15")
	}
	return r
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type known struct{ Prop, Match, Text string }

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=C07 match=<obligation name prefix or case id> | text
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		var k known
		head, text, _ := strings.Cut(rest, "|")
		for _, f := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Prop = v
			}
			if v, ok := strings.CutPrefix(f, "match="); ok {
				k.Match = v
			}
		}
		k.Text = strings.TrimSpace(text)
		if k.Prop != "" && k.Match != "" {
			out = append(out, k)
		}
	}
	return out
}

func cmdCheck(args []string) {
	prop, tier := "", os.Getenv("VERIF_TIER")
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-prop":
			prop = args[i+1]
			i++
		case "-tier":
			tier = args[i+1]
			i++
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	start := time.Now()
	die := func(err error) {
		fmt.Fprintln(os.Stderr, "check error:", err)
		os.Exit(2)
	}
	specs, err := LoadSpecs(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		die(err)
	}
	prog, bound, err := loadAll("")
	if err != nil {
		die(err)
	}
	var jobs []job
	var bounded, dropped, assumedContracts []string
	for _, k := range specs.Order {
		s := specs.ByKey[k]
		if s == nil || s.Inline || !contains(s.propsAll(), prop) {
			continue
		}
		if s.Bounded != "" {
			bounded = append(bounded, k+": "+s.Bounded)
			continue
		}
		if bound.ByKey[k] == nil {
			dropped = append(dropped, k)
			continue
		}
		if s.Trusted == "" {
			jobs = append(jobs, job{"default", k})
		} else if s.Kernel {
			jobs = append(jobs, job{"purego", k})
		} else {
			assumedContracts = append(assumedContracts, k+": "+s.Trusted)
		}
	}
	_ = prog
	results := runJobs(jobs)
	// the contracts the proofs rely on: their functions are verified as well
	own := map[string]bool{}
	seen := map[job]bool{}
	for _, j := range jobs {
		own[j.Key] = true
		seen[j] = true
	}
	relied := map[string]bool{}
	for last := results; len(last) > 0; {
		var more []job
		for _, r := range last {
			for _, k := range r.Use {
				s := specs.ByKey[k]
				if s == nil || s.Inline || relied[k] || bound.ByKey[k] == nil {
					continue
				}
				relied[k] = true
				j := job{"default", k}
				switch {
				case s.Bounded != "":
					if !contains(s.propsAll(), prop) {
						bounded = append(bounded, k+" (relied on): "+s.Bounded)
					}
					continue
				case s.Trusted != "" && s.Kernel:
					j.Conf = "purego"
				case s.Trusted != "":
					continue
				}
				if !seen[j] {
					seen[j] = true
					more = append(more, j)
				}
			}
		}
		last = nil
		if len(more) > 0 {
			last = runJobs(more)
			results = append(results, last...)
		}
	}
	kn := loadKnown()

	type failure struct {
		fn fnRes
		ob obRes
	}
	var fails []failure
	nOb, nOk, nTrivial := 0, 0, 0
	backends := map[string]int{}
	set := map[string]map[string]bool{"a": {}, "t": {}, "i": {}}
	fnList := []string{}
	solver, queries := 0.0, 0
	for _, r := range results {
		s := specs.ByKey[r.Key]
		if r.Error != "" && len(r.Obs) == 0 {
			r.Obs = append(r.Obs, obRes{Name: r.Key + ":reach:" + r.Error, Kind: "unsupported", Status: "failed", Detail: r.Error})
		}
		n, ok := 0, 0
		for _, o := range r.Obs {
			if own[r.Key] && !contains(obProps(s, o.Kind), prop) {
				continue
			}
			n++
			if o.Status == "proved" {
				ok++
				backends[o.Backend]++
			} else {
				fails = append(fails, failure{r, o})
			}
		}
		if s.Props[0] == prop {
			nTrivial += r.Trivial
		}
		nOb += n
		nOk += ok
		solver += r.Solver
		queries += r.Queries
		rel := ""
		if !own[r.Key] {
			rel = " (relied on)"
		}
		fnList = append(fnList, fmt.Sprintf("%s [%s]%s %d/%d obligations, %.2fs", r.Key, r.Conf, rel, ok, n, r.Secs))
		for _, x := range r.Assumed {
			set["a"][x] = true
		}
		for _, x := range r.Trusted {
			set["t"][x] = true
		}
		for _, x := range r.Inlined {
			set["i"][x] = true
		}
	}
	// known findings
	var open []failure
	printed := map[string]bool{}
	for _, f := range fails {
		hit := false
		for _, k := range kn {
			if k.Prop == prop && strings.HasPrefix(f.ob.Name, k.Match) {
				hit = true
				if !printed[k.Match] {
					printed[k.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
				}
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	// concrete inputs: always for bounded functions, otherwise when a proof failed
	var bcov string
	var bfail []string
	if len(bounded) > 0 || hasBoundedTest(prop) || tier == "thorough" {
		var err error
		bcov, bfail, err = runHarness("TestBounded"+prop, tier, seed)
		if err != nil {
			die(err)
		}
	}
	var rfail []string
	var rcov string
	if len(open) > 0 {
		rcov, rfail, err = runHarness("TestReplay"+prop, tier, seed)
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
		}
	} else if tier == "thorough" {
		var f2 []string
		rcov, f2, err = runHarness("TestReplay"+prop, tier, seed)
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
		}
		bfail = append(bfail, f2...)
	}
	filterKnown := func(xs []string) []string {
		var out []string
		for _, x := range xs {
			hit := false
			for _, k := range kn {
				if k.Prop == prop && strings.HasPrefix(x, k.Match) {
					hit = true
					if !printed[k.Match] {
						printed[k.Match] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
					}
				}
			}
			if !hit {
				out = append(out, x)
			}
		}
		return out
	}
	bfail, rfail = filterKnown(bfail), filterKnown(rfail)
	viol := 0
	if len(open) > 0 || len(bfail) > 0 {
		viol = len(open)
		if viol == 0 {
			viol = len(bfail)
		}
	}

	// evidence
	trusted := []string{
		"gocv (/verif/gocv): the verifier itself - Go front end, symbolic execution, loop rules, term normaliser",
		"z3 4.8.12 and cvc5 1.1.2 as deciding back ends of the SMT obligations",
		"go/parser, go/types and the Go toolchain's export data",
	}
	for x := range set["t"] {
		s := specs.ByKey[x]
		why := ""
		if s != nil {
			why = ": " + s.Trusted
		}
		trusted = append(trusted, "assumed contract "+x+why)
	}
	for _, x := range assumedContracts {
		trusted = append(trusted, "assumed contract "+x)
	}
	sort.Strings(trusted[3:])
	trusted = uniq(trusted)
	var bk []string
	for b, n := range backends {
		bk = append(bk, fmt.Sprintf("%s: %d", b, n))
	}
	sort.Strings(bk)
	cov := map[string]any{
		"obligations": nOb, "discharged": nOk,
		"checker_cmd":              "bash check.sh " + prop + " " + tier,
		"trusted_base":             trusted,
		"functions_under_contract": fnList,
		"backends":                 bk,
		"closed_by_construction":   nTrivial,
		"solver_seconds":           round2(solver),
		"solver_queries":           queries,
		"inlined":                  keysOf(set["i"]),
	}
	if len(bounded) > 0 {
		cov["bounded_not_proved"] = bounded
	}
	if bcov != "" {
		cov["bounded_runs"] = bcov
	}
	if rcov != "" {
		cov["replay_runs"] = rcov
	}
	if len(dropped) > 0 {
		cov["contracts_inlined_because_source_changed"] = dropped
	}
	ass := []string{
		"floating-point arithmetic is treated as arithmetic over the reals: rounding, overflow, NaN and infinities are outside the contracts unless a contract names them",
		"int is treated as a mathematical integer (no wrap-around)",
		"memory exhaustion, and goroutine interleavings inside a single function, are outside the contracts",
	}
	ass = append(ass, keysOf(set["a"])...)
	ev := evidence{Property: prop, Tier: tier, Seed: seed, Level: "proof", Coverage: cov, Assumptions: ass, WallS: round2(time.Since(start).Seconds()), Violations: viol}
	if len(results) == 0 {
		// nothing is proved: bounded checks only
		ev.Level = "exploration"
		ev.Assumptions = []string{"nothing is proved for this property; the bounded runs check the listed functions on generated inputs only"}
		var n, d int
		fmt.Sscanf(bcov, "%d cases", &n)
		what, rest, _ := strings.Cut(bcov, " | distinct ")
		fmt.Sscanf(rest, "%d", &d)
		_, sample, _ := strings.Cut(rest, " | sample ")
		cov["evaluations"], cov["distinct_nontrivial"], cov["rule"], cov["samples"] = n, d, what, []string{sample}
		cov["bounded_runs"] = what
	}
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die(err)
	}
	fmt.Printf("%s: %d functions, %d/%d obligations discharged (+%d closed by construction), solver %.1fs in %d queries, wall %.1fs\n", prop, len(results), nOk, nOb, nTrivial, solver, queries, time.Since(start).Seconds())
	if len(results) == 0 && len(bounded) == 0 {
		die(fmt.Errorf("no function under contract for %s", prop))
	}
	if viol == 0 {
		return
	}
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", prop)
	for _, f := range open {
		fmt.Fprintf(&sb, "FAILED OBLIGATION %s\n  function %s (configuration %s, contract %s)\n  kind %s, source position %s\n  verifier: %s %s\n", f.ob.Name, f.fn.Key, f.fn.Conf, f.fn.Where, f.ob.Kind, f.ob.Pos, f.ob.Backend, f.ob.Detail)
		for _, x := range f.ob.Facts {
			fmt.Fprintf(&sb, "    assume %s\n", x)
		}
		fmt.Fprintf(&sb, "    prove  %s\n", f.ob.Goal)
		if len(f.ob.Model) > 0 {
			fmt.Fprintf(&sb, "    counterexample candidate %v\n", f.ob.Model)
		}
		fmt.Printf("failed obligation: %s [%s] %s\n", f.ob.Name, f.ob.Pos, clip(f.ob.Detail, 200))
	}
	inputs := append(append([]string{}, bfail...), rfail...)
	if len(inputs) > 0 {
		fmt.Fprintf(&sb, "\nFAILING INPUTS on the real code (test harness /verif/replay, run with go test -overlay):\n")
		for _, x := range inputs {
			fmt.Fprintf(&sb, "  %s\n", x)
		}
	} else {
		fmt.Fprintf(&sb, "\nno failing input was found by the replay harness (%s)\n", rcov)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for _, x := range inputs {
		fmt.Println("failing input:", clip(x, 300))
	}
	suffix := ""
	if len(inputs) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	os.Exit(1)
}

func round2(x float64) float64 { return float64(int(x*100+0.5)) / 100 }

func uniq(xs []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func hasBoundedTest(prop string) bool {
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "replay", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func TestBounded"+prop+"(") {
			return true
		}
	}
	return false
}

// runHarness runs one test of the harness in /verif/replay against the real
// code: the files are overlaid as package mat/zzverif of the module.
func runHarness(test, tier string, seed int) (string, []string, error) {
	fs, _ := filepath.Glob(filepath.Join(verifDir(), "replay", "*.go"))
	found := false
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if strings.Contains(string(b), "func "+test+"(") {
			found = true
		}
	}
	if !found {
		return "", nil, nil
	}
	tmp, err := os.MkdirTemp("", "gocv")
	if err != nil {
		return "", nil, err
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, f := range fs {
		rep[filepath.Join(repoDir(), "mat", "zzverif", filepath.Base(f))] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return "", nil, err
	}
	limit := "240s"
	if tier == "thorough" {
		limit = "600s"
	}
	bin := filepath.Join(tmp, "harness.test")
	compile := func(more ...string) error {
		args := append([]string{"test", "-overlay", ov, "-vet=off", "-c", "-o", bin}, more...)
		build := exec.Command("go", append(args, "./mat/zzverif")...)
		build.Dir = repoDir()
		build.Env = goEnv()
		if out, err := build.CombinedOutput(); err != nil {
			return fmt.Errorf("building the harness: %v: %s", err, clip(string(out), 3000))
		}
		return nil
	}
	// unsynchronised accesses are seen by the race detector
	if !strings.HasSuffix(test, "C28") || compile("-race") != nil {
		if err := compile(); err != nil {
			return "", nil, err
		}
	}
	cmd := exec.Command(bin, "-test.run", "^"+test+"$", "-test.v", "-test.timeout", limit)
	cmd.Dir = tmp
	cmd.Env = append(goEnv(), "VERIF_TIER="+tier, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_SCRATCH="+tmp)
	out, err := cmd.CombinedOutput()
	var fails []string
	cov := ""
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "FAILING-INPUT "); i >= 0 {
			fails = append(fails, l[i+len("FAILING-INPUT "):])
		}
		if i := strings.Index(l, "COVERED "); i >= 0 {
			cov = l[i+len("COVERED "):]
		}
	}
	if err != nil && len(fails) == 0 {
		s := string(out)
		if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
			fails = append(fails, "async.race: "+clip(strings.ReplaceAll(s[i:], "\n", " / "), 1500))
			return cov, fails, nil
		}
		if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "test timed out") || strings.Contains(s, "ag: error") {
			id := test
			if b, e := os.ReadFile(filepath.Join(tmp, "lastcase")); e == nil {
				id += " " + string(b)
			}
			fails = append(fails, id+": "+clip(strings.ReplaceAll(s, "\n", " / "), 1500))
			return cov, fails, nil
		}
		return cov, nil, fmt.Errorf("%v: %s", err, clip(s, 3000))
	}
	return cov, fails, nil
}
