package main

import (
	"flag"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "regexp on harness labels")
	repo := flag.String("repo", "/repo", "repository under test")
	verif := flag.String("verif", "/verif", "verification directory")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel workers")
	verbose := flag.Bool("v", false, "print per-run details")
	solver := flag.String("solver", "z3-new", "z3-new, z3 or cvc5")
	domains := flag.Bool("domains", false, "decide conditions on a single byte by exact byte sets instead of the solver")
	budget := flag.Int("budget", 0, "override budget per run (seconds)")
	replay := flag.String("replay", "", "replay a saved counterexample natively")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)

	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	code := 2
	defer func() { os.RemoveAll(work); os.Exit(code) }()
	e := &Engine{repo: *repo, verif: *verif, work: work, nworkers: *workers, allSolver: !*domains, thorough: *tier == "thorough", seed: 1}
	e.solverCmd = solverCommand(*solver)
	e.solverMs = 10000
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &e.seed)
	}
	if *replay != "" {
		code = replayMain(e, *replay)
		return
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	code = checkMain(e, *prop, *tier, re, *verbose, *budget)
}

func solverCommand(n string) []string {
	switch n {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2"}
	}
	return []string{n, "-in", "-smt2"}
}

func newEngineMaps(e *Engine) {
	if e.gids == nil {
		e.initMaps()
	}
}

// setOverlay chooses the harness files: the common ones plus those of a property.
func (e *Engine) setOverlay() error {
	e.overlay = map[string]string{}
	files, err := filepath.Glob(filepath.Join(e.verif, "harness", "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(files)
	for _, f := range files {
		e.overlay[filepath.Join(e.repo, harnessDir, filepath.Base(f))] = f
	}
	return nil
}

// schedOverlay lists copies of the package's files that import vsync for sync.
func (e *Engine) schedOverlay() (map[string]string, error) {
	m := map[string]string{}
	files, err := filepath.Glob(filepath.Join(e.repo, "*.go"))
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ImportsOnly)
		if err != nil {
			return nil, err
		}
		for _, im := range af.Imports {
			if im.Path.Value != `"sync"` {
				continue
			}
			name := "sync "
			if im.Name != nil {
				name = ""
			}
			a, b := fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset
			out := string(src[:a]) + name + `"` + harnessPath + `/vsync"` + string(src[b:])
			t := filepath.Join(e.work, "sched_"+filepath.Base(f))
			if err := os.WriteFile(t, []byte(out), 0o644); err != nil {
				return nil, err
			}
			m[f] = t
		}
	}
	return m, nil
}

// nativeOverlay swaps the primitives and adds the registry.
func (e *Engine) nativeOverlay() error {
	api := filepath.Join(e.work, "api_native.go")
	b, err := os.ReadFile(filepath.Join(e.verif, "harness", "api_native.go.txt"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(api, b, 0o644); err != nil {
		return err
	}
	e.overlay[filepath.Join(e.repo, harnessDir, "api_sym.go")] = api
	vs := filepath.Join(e.work, "vsync.go")
	if b, err = os.ReadFile(filepath.Join(e.verif, "harness", "vsync.go.txt")); err != nil {
		return err
	}
	if err := os.WriteFile(vs, b, 0o644); err != nil {
		return err
	}
	e.overlay[filepath.Join(e.repo, harnessDir, "vsync", "vsync.go")] = vs
	var sb strings.Builder
	sb.WriteString("package main\n\nvar vRegistry = map[string]func(int){\n")
	seen := map[string]bool{}
	for _, h := range e.harnesses {
		if seen[h.name] {
			continue
		}
		seen[h.name] = true
		if h.hasArg {
			fmt.Fprintf(&sb, "\t%q: %s,\n", h.name, h.name)
		} else {
			fmt.Fprintf(&sb, "\t%q: func(int) { %s() },\n", h.name, h.name)
		}
	}
	sb.WriteString("}\n")
	reg := filepath.Join(e.work, "registry.go")
	if err := os.WriteFile(reg, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	e.overlay[filepath.Join(e.repo, harnessDir, "zz_registry.go")] = reg
	return nil
}
