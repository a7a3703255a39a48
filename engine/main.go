package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// loadEngine loads /repo's current tree plus the harness overlay and builds SSA.
func loadEngine(repo string, env []string, overlay map[string]string) (*Engine, error) {
	ov := map[string][]byte{}
	for dst, src := range overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Overlay: ov}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkg: pkgs[0], pkgs: map[string]*ssa.Package{}, fset: prog.Fset, repoPath: ps[0].PkgPath, repoDir: repo, notes: map[string]int{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	return e, nil
}

func main() {
	repo := flag.String("repo", "/repo", "")
	vdir := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "property id")
	only := flag.String("harness", "", "run only this harness (debug)")
	tier := flag.String("tier", "quick", "")
	wall := flag.Duration("wall", 0, "wall budget override per harness")
	workers := flag.Int("j", 8, "")
	debug := flag.Bool("debug", false, "")
	nonative := flag.Bool("nonative", false, "")
	replay := flag.String("replay", "", "replay a counterexample file natively")
	flag.StringVar(&covFile, "cov", "", "write the source lines entered to this file (debug)")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	raceWrapSync()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	rc := runCheck(&checkArgs{repo: *repo, vdir: *vdir, prop: *prop, only: *only, tier: *tier, wall: *wall, workers: *workers, debug: *debug, nonative: *nonative, replay: *replay})
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	covWrite()
	os.Exit(rc)
}

var _ = filepath.Join
var _ = time.Now
