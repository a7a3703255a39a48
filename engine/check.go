package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type checkArgs struct {
	repo, vdir, prop, only, tier string
	wall                         time.Duration
	workers                      int
	debug, nonative              bool
	replay                       string
}

type nativeRes struct {
	I      int      `json:"i"`
	Status string   `json:"s"` // ok, assert, panic, assume, timeout, crash
	Label  string   `json:"l"`
	Obs    []string `json:"o"`
}

type checker struct {
	a        *checkArgs
	scratch  string
	env      []string
	bin      string
	binErr   error
	binDone  chan struct{}
	overJSON string
	raceBin  string
	raceErr  error
	raceOnce sync.Once
	harness  []string
	overlay  map[string]string
	mu       sync.Mutex
	confirm  []*Cand
	spurious []*Cand
	pending  sync.WaitGroup
	runs     []*Run
	nreplay  int
	replayT  time.Duration
	listMu   sync.Mutex
}

var reHarness = regexp.MustCompile(`(?m)^func (vh(C\d+)_\w+)\(\)`)

func (c *checker) prepare() error {
	a := c.a
	d, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		return err
	}
	c.scratch = d
	// module file without the replace to a path outside the repository
	gm, err := os.ReadFile(filepath.Join(a.repo, "go.mod"))
	if err != nil {
		return err
	}
	var out []string
	inBlock := false
	for _, l := range strings.Split(string(gm), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "replace (") {
			inBlock = true
			continue
		}
		if inBlock {
			if t == ")" {
				inBlock = false
			}
			continue
		}
		if strings.HasPrefix(t, "replace ") {
			continue
		}
		out = append(out, l)
	}
	if err := os.WriteFile(filepath.Join(d, "go.mod"), []byte(strings.Join(out, "\n")), 0644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(a.vdir, "harness", "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(d, "go.sum"), sum, 0644); err != nil {
		return err
	}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "CGO_ENABLED", "GOTOOLCHAIN", "GOWORK", "TZ":
			continue
		}
		c.env = append(c.env, e)
	}
	c.env = append(c.env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(d, "go.mod"), "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off", "TZ=UTC")
	// overlay: common runtime + this property's harness
	c.overlay = map[string]string{}
	c.overlay[filepath.Join(a.repo, "zz_verif_common.go")] = filepath.Join(a.vdir, "harness", "common.go")
	lib, _ := filepath.Glob(filepath.Join(a.vdir, "harness", "lib_*.go"))
	for _, l := range lib {
		c.overlay[filepath.Join(a.repo, "zz_verif_"+filepath.Base(l))] = l
	}
	hf := filepath.Join(a.vdir, "harness", a.prop+".go")
	c.overlay[filepath.Join(a.repo, "zz_verif_"+strings.ToLower(a.prop)+".go")] = hf
	src, err := os.ReadFile(hf)
	if err != nil {
		return err
	}
	var reg bytes.Buffer
	reg.WriteString("package dxsvalue\n\nvar vxRegistry = map[string]func(){\n")
	for _, m := range reHarness.FindAllStringSubmatch(string(src), -1) {
		c.harness = append(c.harness, m[1])
		fmt.Fprintf(&reg, "\t%q: %s,\n", m[1], m[1])
	}
	reg.WriteString("}\n")
	rf := filepath.Join(d, "registry.go")
	os.WriteFile(rf, reg.Bytes(), 0644)
	// native build, in the background
	nov := map[string]map[string]string{"Replace": {}}
	for k, v := range c.overlay {
		nov["Replace"][k] = v
	}
	nov["Replace"][filepath.Join(a.repo, "zz_verif_registry_test.go")] = rf
	nov["Replace"][filepath.Join(a.repo, "zz_verif_main_test.go")] = filepath.Join(a.vdir, "harness", "main_test.go.txt")
	// the repository's own tests are not needed in the replay binary
	ts, _ := filepath.Glob(filepath.Join(a.repo, "*_test.go"))
	for _, t := range ts {
		nov["Replace"][t] = ""
	}
	ob, _ := json.Marshal(nov)
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, ob, 0644)
	c.overJSON = of
	c.binDone = make(chan struct{})
	c.bin = filepath.Join(d, "replay.test")
	go func() {
		defer close(c.binDone)
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", c.bin, ".")
		cmd.Dir = a.repo
		cmd.Env = c.env
		if out, err := cmd.CombinedOutput(); err != nil {
			c.binErr = fmt.Errorf("native build: %v\n%s", err, out)
		}
	}()
	return nil
}

// buildRace builds the replay binary with Go's race detector.
func (c *checker) buildRace() error {
	c.raceOnce.Do(func() {
		c.raceBin = filepath.Join(c.scratch, "replay-race.test")
		cmd := exec.Command("go", "test", "-c", "-race", "-vet=off", "-overlay", c.overJSON, "-o", c.raceBin, ".")
		cmd.Dir = c.a.repo
		for _, e := range c.env {
			if e != "CGO_ENABLED=0" {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			c.raceErr = fmt.Errorf("native race build: %v\n%s", err, out)
		}
	})
	return c.raceErr
}

var reRace = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?\n==================`)

// runRace replays a schedule under the race detector, several times (its pool
// drops items at random).
func (c *checker) runRace(cd *Cand) (nativeRes, error) {
	if err := c.buildRace(); err != nil {
		return nativeRes{}, err
	}
	t0 := time.Now()
	defer func() {
		c.mu.Lock()
		c.nreplay++
		c.replayT += time.Since(t0)
		c.mu.Unlock()
	}()
	wd, err := os.MkdirTemp(c.scratch, "run-")
	if err != nil {
		return nativeRes{}, err
	}
	defer os.RemoveAll(wd)
	var in bytes.Buffer
	for i := 0; i < 24; i++ {
		fmt.Fprintf(&in, "%d %s", i, cd.Harness)
		for _, v := range cd.Vals {
			fmt.Fprintf(&in, " %x", v)
		}
		in.WriteByte('\n')
	}
	cf := filepath.Join(wd, "cases")
	os.WriteFile(cf, in.Bytes(), 0644)
	cmd := exec.Command("timeout", "120", c.raceBin, "-test.run", "TestVerifReplay", "-test.timeout", "0", "-test.v=false")
	cmd.Dir = wd
	cmd.Env = append(append([]string{}, c.env...), "VERIF_CASES="+cf, "VERIF_CASE_TIMEOUT=20s", "VERIF_TIER_N="+tierN(c.a.tier), "VERIF_RACE=1", "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err = cmd.Run()
	if m := reRace.FindString(eb.String()); m != "" {
		if len(m) > 1500 {
			m = m[:1500]
		}
		return nativeRes{Status: "race", Label: m}, nil
	}
	if err != nil {
		return nativeRes{Status: "error", Label: err.Error() + " " + eb.String()}, nil
	}
	return nativeRes{Status: "ok"}, nil
}

// runNative executes cases in the native build; every case yields a result.
func (c *checker) runNative(cases []*Cand, perCase time.Duration) ([]nativeRes, error) {
	<-c.binDone
	if c.binErr != nil {
		return nil, c.binErr
	}
	t0 := time.Now()
	defer func() {
		c.mu.Lock()
		c.nreplay += len(cases)
		c.replayT += time.Since(t0)
		c.mu.Unlock()
	}()
	res := make([]nativeRes, len(cases))
	for i := range res {
		res[i] = nativeRes{I: i, Status: "notrun"}
	}
	next := 0
	for next < len(cases) {
		var in bytes.Buffer
		for i := next; i < len(cases); i++ {
			fmt.Fprintf(&in, "%d %s", i, cases[i].Harness)
			for _, v := range cases[i].Vals {
				fmt.Fprintf(&in, " %x", v)
			}
			in.WriteByte('\n')
		}
		wd, err := os.MkdirTemp(c.scratch, "run-")
		if err != nil {
			return nil, err
		}
		cf := filepath.Join(wd, "cases")
		os.WriteFile(cf, in.Bytes(), 0644)
		cmd := exec.Command("prlimit", "--as=16000000000", c.bin, "-test.run", "TestVerifReplay", "-test.timeout", "0", "-test.v=false")
		cmd.Dir = wd
		cmd.Env = append(append([]string{}, c.env...), "VERIF_CASES="+cf, "VERIF_CASE_TIMEOUT="+perCase.String(), "VERIF_TIER_N="+tierN(c.a.tier), "GOTRACEBACK=single")
		o, _ := cmd.StdoutPipe()
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		cur := -1
		progressed := false
		sc := bufio.NewScanner(o)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		var last time.Time
		var lm sync.Mutex
		last = time.Now()
		fin := make(chan struct{})
		go func() { // outer watchdog
			for {
				select {
				case <-fin:
					return
				case <-time.After(time.Second):
					lm.Lock()
					idle := time.Since(last)
					lm.Unlock()
					if idle > perCase+20*time.Second {
						cmd.Process.Kill()
						return
					}
				}
			}
		}()
		for sc.Scan() {
			l := sc.Text()
			lm.Lock()
			last = time.Now()
			lm.Unlock()
			if strings.HasPrefix(l, "@S ") {
				cur, _ = strconv.Atoi(l[3:])
			} else if strings.HasPrefix(l, "@R ") {
				var r nativeRes
				if json.Unmarshal([]byte(l[3:]), &r) == nil && r.I >= 0 && r.I < len(res) {
					res[r.I] = r
					next = r.I + 1
					progressed = true
					cur = -1
				}
			}
		}
		cmd.Wait()
		close(fin)
		os.RemoveAll(wd)
		if cur >= 0 {
			msg := eb.String()
			if len(msg) > 400 {
				msg = msg[:400]
			}
			res[cur] = nativeRes{I: cur, Status: "crash", Label: msg}
			next = cur + 1
			progressed = true
		}
		if !progressed {
			return res, fmt.Errorf("replay binary made no progress: %s", eb.String())
		}
	}
	return res, nil
}

func tierN(t string) string {
	if t == "thorough" {
		return "1"
	}
	return "0"
}

// confirmed says whether a native outcome is a property violation.
func confirmed(r nativeRes) bool {
	switch r.Status {
	case "assert", "panic", "timeout", "crash", "race":
		return true
	}
	return false
}

type propConf struct {
	Wall      map[string]int    `json:"wall"` // seconds per tier for the whole property
	Steps     int64             `json:"steps"`
	Bounds    map[string]string `json:"bounds"`
	Assume    []string          `json:"assumptions"`
	Functions []string          `json:"functions"`
}

func runCheck(a *checkArgs) int {
	t0 := time.Now()
	c := &checker{a: a}
	defer func() {
		if c.scratch != "" && !a.debug {
			os.RemoveAll(c.scratch)
		}
	}()
	if err := c.prepare(); err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	if a.replay != "" {
		return c.doReplay()
	}
	confs := map[string]*propConf{}
	if b, err := os.ReadFile(filepath.Join(a.vdir, "harness", "bounds.json")); err == nil {
		if err := json.Unmarshal(b, &confs); err != nil {
			fmt.Fprintln(os.Stderr, "bounds.json:", err)
			return 2
		}
	}
	pc := confs[a.prop]
	if pc == nil {
		pc = &propConf{}
	}
	eng, err := loadEngine(a.repo, c.env, c.overlay)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		return 2
	}
	tload := time.Since(t0)
	wallTotal := 240 * time.Second
	if a.tier == "thorough" {
		wallTotal = 3600 * time.Second
	}
	if s, ok := pc.Wall[a.tier]; ok {
		wallTotal = time.Duration(s) * time.Second
	}
	if a.wall > 0 {
		wallTotal = a.wall
	}
	steps := pc.Steps
	if steps == 0 {
		steps = 3_000_000
	}
	thoroughTier = a.tier == "thorough"
	var stopAll = make(chan struct{})
	var stopOnce sync.Once
	names := c.harness
	if a.only != "" {
		names = nil
		for _, n := range c.harness {
			if strings.Contains(n, a.only) {
				names = append(names, n)
			}
		}
	}
	start := time.Now()
	for hi, n := range names {
		fn := eng.pkg.Func(n)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no harness", n)
			return 2
		}
		left := wallTotal - time.Since(start)
		// a fair share of what is left, half of it again borrowed from the
		// later ones, which usually need less
		share := left / time.Duration(len(names)-hi) * 3 / 2
		if share > left {
			share = left
		}
		xe := int64(997)
		r := &Run{eng: eng, harness: fn, name: n, opt: Opts{Workers: a.workers, StepLimit: steps, Wall: share, MaxSample: 60, XEvery: xe, Debug: a.debug}}
		r.forks = map[string]int64{}
		if !a.nonative {
			r.onCand = func(cd *Cand) {
				c.pending.Add(1)
				go func() {
					defer c.pending.Done()
					c.listMu.Lock()
					defer c.listMu.Unlock()
					select {
					case <-stopAll:
						return
					default:
					}
					var rs []nativeRes
					var err error
					if cd.Kind == "race" {
						rs = make([]nativeRes, 1)
						rs[0], err = c.runRace(cd)
					} else {
						rs, err = c.runNative([]*Cand{cd}, 10*time.Second)
					}
					if err != nil {
						fmt.Fprintln(os.Stderr, "replay:", err)
						return
					}
					c.mu.Lock()
					if confirmed(rs[0]) {
						cd.Detail = rs[0].Status + ": " + rs[0].Label
						c.confirm = append(c.confirm, cd)
						c.mu.Unlock()
						stopOnce.Do(func() { close(stopAll) })
						r.stopped.Store(true)
						r.cond.Broadcast()
						return
					}
					cd.Detail = "native: " + rs[0].Status + " " + rs[0].Label
					c.spurious = append(c.spurious, cd)
					c.mu.Unlock()
				}()
			}
		}
		r.explore()
		c.pending.Wait()
		c.runs = append(c.runs, r)
		if len(c.confirm) > 0 {
			break
		}
	}
	// harnesses that ran out of their share go on in the time that is left
	for len(c.confirm) == 0 {
		var late []*Run
		for _, r := range c.runs {
			if r.timedOut && r.dropped > 0 && r.opt.MaxPaths == 0 {
				late = append(late, r)
			}
		}
		left := wallTotal - time.Since(start)
		if len(late) == 0 || left < 3*time.Second {
			break
		}
		for i, r := range late {
			left = wallTotal - time.Since(start)
			r.opt.Wall = left / time.Duration(len(late)-i)
			if r.opt.Wall < time.Second {
				break
			}
			r.explore()
			c.pending.Wait()
			if len(c.confirm) > 0 {
				break
			}
		}
	}
	if a.debug {
		for _, r := range c.runs {
			c.debugRun(r)
		}
	}
	// replay samples of explored paths natively (translation validation)
	validated, mismatched := 0, 0
	var mism []string
	if !a.nonative && len(c.confirm) == 0 {
		var all []*Cand
		for _, r := range c.runs {
			all = append(all, r.samples...)
		}
		if len(all) > 0 {
			rs, err := c.runNative(all, 10*time.Second)
			if err != nil {
				fmt.Fprintln(os.Stderr, "error:", err)
				return 2
			}
			for i, r := range rs {
				cd := all[i]
				if confirmed(r) {
					cd.Detail = r.Status + ": " + r.Label
					cd.Label = r.Label
					c.confirm = append(c.confirm, cd)
					continue
				}
				if cd.Kind != "sample" {
					continue
				}
				if r.Status == "ok" && strings.Join(r.Obs, "\n") == strings.Join(cd.Obs, "\n") {
					validated++
				} else {
					mismatched++
					if len(mism) < 10 {
						mism = append(mism, fmt.Sprintf("%s vals=%v native=%s %s obs=%v want=%v", cd.Harness, cd.Vals, r.Status, r.Label, r.Obs, cd.Obs))
					}
				}
			}
		}
	}
	if a.nonative {
		for _, r := range c.runs {
			for _, cd := range r.cands {
				fmt.Printf("CANDIDATE %s %s %s %s vals=%v\n", cd.Harness, cd.Kind, cd.Label, cd.Detail, cd.Vals)
			}
		}
	}
	rc := c.report(pc, tload, t0, validated, mismatched, mism)
	return rc
}

var thoroughTier bool

func init() {
	harnessFns["vxTier"] = func(w *Worker, fr *Frame, a []Val) Val { return Val{N: b2u(thoroughTier)} }
}

func (c *checker) debugRun(r *Run) {
	fmt.Printf("== %s: paths=%d ok=%d assumed=%d incon=%d dropped=%d queries=%d hits=%d fallback=%d unknown=%d solve=%.1fs wall=%.1fs steps=%d maxpc=%d discharged=%d timeout=%v\n", r.name, r.paths, r.okPaths, r.assumed, r.inconN, r.dropped, r.queries, r.hits, r.fallback, r.unknowns, r.solveT.Seconds(), r.wall.Seconds(), r.steps, r.maxPC, r.discharged, r.timedOut)
	for _, k := range sortedKeys(r.incon) {
		fmt.Printf("   incon %d x %s\n", r.incon[k], k)
	}
	for _, k := range sortedKeys(r.asserts) {
		fmt.Printf("   assert %d x %s\n", r.asserts[k], k)
	}
	for _, k := range sortedKeys(r.reach) {
		fmt.Printf("   reach %d x %s\n", r.reach[k], k)
	}
	for _, k := range sortedKeys(r.candSeen) {
		fmt.Printf("   cand %d x %s\n", r.candSeen[k], k)
	}
	for _, cd := range r.cands {
		fmt.Printf("     %s %s vals=%v %s\n", cd.Kind, cd.Label, showVals(cd.Vals), cd.Detail)
	}
	if len(r.solverErrs) > 0 {
		fmt.Printf("   solver errors: %d, first %q\n", len(r.solverErrs), r.solverErrs[0])
	}
	type kv struct {
		k string
		n int64
	}
	var fs []kv
	for k, n := range r.forks {
		fs = append(fs, kv{k, n})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].n > fs[j].n })
	for i, f := range fs {
		if i >= 12 {
			break
		}
		fmt.Printf("   fork %8d %s\n", f.n, f.k)
	}
}

func showVals(v []uint64) string {
	var sb strings.Builder
	for _, x := range v {
		if x >= 0x20 && x < 0x7f {
			fmt.Fprintf(&sb, "%q ", rune(x))
		} else {
			fmt.Fprintf(&sb, "%#x ", x)
		}
	}
	return sb.String()
}

func (c *checker) doReplay() int {
	b, err := os.ReadFile(c.a.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cd Cand
	if err := json.Unmarshal(b, &cd); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rs []nativeRes
	if cd.Kind == "race" {
		rs = make([]nativeRes, 1)
		rs[0], err = c.runRace(&cd)
	} else {
		rs, err = c.runNative([]*Cand{&cd}, 20*time.Second)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %s %s\n", cd.Harness, rs[0].Status, rs[0].Label)
	if confirmed(rs[0]) {
		return 1
	}
	return 0
}

type known struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Vals     []uint64 `json:"vals"`
	What     string   `json:"what"`
	Status   string   `json:"status"` // known | fixed
	Commit   string   `json:"commit"`
}

func (c *checker) report(pc *propConf, tload time.Duration, t0 time.Time, validated, mismatched int, mism []string) int {
	a := c.a
	var paths, ok, assumed, incon, dropped, queries, hits, domN, fallback, unknowns, xchecks, xdis, discharged, steps int64
	var solve time.Duration
	asserts := map[string]int64{}
	reach := map[string]int64{}
	inc := map[string]int64{}
	cover := map[string]int64{}
	per := []any{}
	timedOut := false
	var serrs int
	for _, r := range c.runs {
		paths += r.paths
		ok += r.okPaths
		assumed += r.assumed
		incon += r.inconN
		dropped += r.dropped
		queries += r.queries
		hits += r.hits
		domN += r.domN
		fallback += r.fallback
		unknowns += r.unknowns
		xchecks += r.xchecks
		xdis += r.xdis
		solve += r.solveT
		discharged += r.discharged
		steps += r.steps
		timedOut = timedOut || r.timedOut
		serrs += len(r.solverErrs)
		for k, v := range r.asserts {
			asserts[r.name+": "+k] += v
		}
		for k, v := range r.reach {
			reach[r.name+": "+k] += v
		}
		for k, v := range r.incon {
			inc[k] += v
		}
		for k, v := range r.cover {
			cover[k] += v
		}
		per = append(per, map[string]any{"harness": r.name, "paths": r.paths, "completed": r.okPaths, "pruned_by_assumption": r.assumed, "inconclusive": r.inconN, "unexplored_prefixes": r.dropped, "queries": r.queries, "solver_s": round(r.solveT.Seconds()), "wall_s": round(r.wall.Seconds()), "max_path_condition": r.maxPC})
	}
	// vacuity: every harness must reach its witness
	var vac []string
	for _, r := range c.runs {
		if len(r.reach) == 0 && !r.timedOut && len(c.confirm) == 0 {
			vac = append(vac, r.name)
		}
	}
	var samples []any
	for _, r := range c.runs {
		for i, s := range r.samples {
			if i >= 3 {
				break
			}
			samples = append(samples, map[string]any{"harness": s.Harness, "inputs": showVals(s.Vals), "outcome": s.Kind})
		}
	}
	exhaustive := !timedOut && dropped == 0 && incon == 0
	viol := 0
	rc := 0
	if len(c.confirm) > 0 {
		rc = 1
		viol = len(c.confirm)
		cd := c.confirm[0]
		os.MkdirAll(filepath.Join(a.vdir, "evidence", "replay"), 0755)
		p := filepath.Join(a.vdir, "evidence", "replay", a.prop+".json")
		b, _ := json.MarshalIndent(cd, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("counterexample (%s) %s: %s\n  inputs: %s\n  native replay: %s\n", cd.Kind, cd.Harness, cd.Label, showVals(cd.Vals), cd.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.prop, p)
	}
	for _, cd := range c.spurious {
		fmt.Fprintf(os.Stderr, "note: counterexample not reproduced natively (discarded): %s %s %s vals=%s %s\n", cd.Harness, cd.Kind, cd.Label, showVals(cd.Vals), cd.Detail)
	}
	for _, m := range mism {
		fmt.Fprintf(os.Stderr, "note: encoder/native disagreement on a sampled path: %s\n", m)
	}
	for _, v := range vac {
		fmt.Fprintf(os.Stderr, "note: harness %s reached no witness\n", v)
	}
	if !exhaustive && rc == 0 {
		fmt.Fprintf(os.Stderr, "note: reduced bound: timed_out=%v unexplored=%d inconclusive=%d %v\n", timedOut, dropped, incon, inc)
	}
	fl := sortedKeys(cover)
	ev := map[string]any{
		"property": a.prop, "tier": a.tier, "seed": seed(), "level": "model_checking",
		"wall_s": round(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": pc.Assume,
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"technique":         "symbolic execution of go/ssa of the current tree, path conditions and negated assertions decided by z3 (bit-vectors, IEEE floats)",
			"exhaustive":        exhaustive,
			"bounds":            pc.Bounds,
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"queries": queries, "query_cache_hits": hits, "branch_decisions_on_single_byte_value_sets": domN, "solver_s": round(solve.Seconds()), "fallback_queries": fallback, "unknown_queries": unknowns,
			"cross_checked_queries": xchecks, "cross_check_disagreements": xdis, "solver_errors": serrs,
			"assertions_discharged_by_solver": discharged, "assertion_evaluations": asserts, "witnesses_reached": reach,
			"paths_completed": ok, "paths_pruned_by_assumption": assumed, "paths_inconclusive": incon, "inconclusive_reasons": inc, "unexplored_prefixes": dropped,
			"native_replays": c.nreplay, "native_disagreements": mismatched, "discarded_counterexamples": len(c.spurious), "vacuous_harnesses": vac,
			"per_harness": per, "load_s": round(tload.Seconds()),
		},
	}
	if pc.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(a.vdir, "evidence"), 0755)
	os.WriteFile(filepath.Join(a.vdir, "evidence", a.prop+".json"), b, 0644)
	fmt.Printf("%s: paths=%d completed=%d inconclusive=%d queries=%d solver=%.1fs validated=%d/%d mismatched=%d exhaustive=%v wall=%.1fs rc=%d\n", a.prop, paths, ok, incon, queries, solve.Seconds(), validated, validated+mismatched, mismatched, exhaustive, time.Since(t0).Seconds(), rc)
	return rc
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 0
	}
	return n
}
