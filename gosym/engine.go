package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath     = "github.com/netascode/xmldot"
	harnessDir  = "zz_verif"
	harnessPath = modPath + "/" + harnessDir
)

type harness struct {
	name   string
	fn     *ssa.Function
	param  int
	hasArg bool
	tier   string
	prop   string
	budget time.Duration
	repeat int // native repetitions needed to show a violation (map order)
	steps  int64
	pos    string
}

func (h *harness) label() string {
	if h.hasArg {
		return fmt.Sprintf("%s(%d)", h.name, h.param)
	}
	return h.name + "()"
}

type Engine struct {
	repo, verif, work          string
	prog                       *ssa.Program
	sizes                      types.Sizes
	cfns                       sync.Map
	gmu                        sync.Mutex
	gids                       map[*ssa.Global]int32
	glist                      []*ssa.Global
	main                       *ssa.Package
	harnesses                  []*harness
	poolType                   *types.Struct
	fnDecodeRune, fnAppendRune *ssa.Function
	allSolver                  bool
	thorough                   bool
	nworkers                   int
	workers                    []*W
	sideMu                     sync.Mutex
	sides                      map[*W]map[sideKey]*MapObj
	implMu                     sync.Mutex
	implCache                  map[[2]types.Type]bool
	ptrCache                   sync.Map
	solverCmd                  []string
	solverMs                   int
	overlay                    map[string]string // file in repo -> file on disk

	native     string
	nativeErr  error
	nativeOnce sync.Once
	sched      bool // replay schedules of lock operations
	raceOnce   sync.Once
	race       string
	raceErr    error

	limMu  sync.Mutex
	limits map[string]int
	known  map[string]string
	seed   int64
}

func offlineEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=", "GOWORK=off", "CGO_ENABLED=0")
}

// loadKnown reads the committed list of known findings:
// finding: property=<id> id=<name> <what fails>
func (e *Engine) loadKnown() error {
	e.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.txt"))
	if os.IsNotExist(err) {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		fs := strings.Fields(l)
		if len(fs) < 3 || fs[0] != "finding:" {
			continue
		}
		p, ok1 := strings.CutPrefix(fs[1], "property=")
		id, ok2 := strings.CutPrefix(fs[2], "id=")
		if !ok1 || !ok2 {
			return fmt.Errorf("known-findings.txt: %q", l)
		}
		e.known[p+" "+id] = strings.Join(fs[3:], " ")
	}
	return err
}

func (e *Engine) addLimit(s string) {
	e.limMu.Lock()
	e.limits[s]++
	e.limMu.Unlock()
}

func (e *Engine) sideInit(w *W) map[sideKey]*MapObj {
	e.sideMu.Lock()
	defer e.sideMu.Unlock()
	m := e.sides[w]
	if m == nil {
		m = map[sideKey]*MapObj{}
		e.sides[w] = m
	}
	return m
}

func (e *Engine) ptrTo(pkg, name string) types.Type {
	k := pkg + "." + name
	if t, ok := e.ptrCache.Load(k); ok {
		return t.(types.Type)
	}
	t := types.NewPointer(e.prog.ImportedPackage(pkg).Pkg.Scope().Lookup(name).Type())
	r, _ := e.ptrCache.LoadOrStore(k, t)
	return r.(types.Type)
}

func (e *Engine) implements(t, iface types.Type) bool {
	k := [2]types.Type{t, iface}
	e.implMu.Lock()
	defer e.implMu.Unlock()
	if r, ok := e.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, iface.Underlying().(*types.Interface))
	e.implCache[k] = r
	return r
}

var initPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true, "sort": true,
	"slices": true, "math": true, "math/bits": true, "io": true, "cmp": true, "maps": true, "iter": true, "internal/stringslite": true, "internal/strconv": true, "internal/itoa": true, "encoding/xml": true, "bufio": true, "encoding": true}

func (e *Engine) initAllowed(p string) bool {
	return initPkgs[p] || p == modPath || strings.HasPrefix(p, modPath+"/")
}

// load type-checks /repo plus the harness overlay and builds SSA.
func (e *Engine) load() error {
	ov := map[string][]byte{}
	for dst, src := range e.overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: e.repo, Overlay: ov, Env: offlineEnv(),
	}
	pkgs, err := packages.Load(cfg, "./"+harnessDir)
	if err != nil {
		return err
	}
	for _, p := range pkgs {
		for _, pe := range p.Errors {
			return fmt.Errorf("load: %v", pe)
		}
	}
	var bad error
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) && len(p.Errors) > 0 {
			bad = fmt.Errorf("load %s: %v", p.PkgPath, p.Errors[0])
		}
	})
	if bad != nil {
		return bad
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.sizes = types.SizesFor("gc", "amd64")
	e.main = spkgs[0]
	var wg sync.WaitGroup
	for _, p := range prog.AllPackages() {
		if e.initAllowed(p.Pkg.Path()) || p.Pkg.Path() == "fmt" {
			wg.Add(1)
			go func() { defer wg.Done(); p.Build() }()
		}
	}
	wg.Wait()
	if sp := prog.ImportedPackage("sync"); sp != nil {
		e.poolType = sp.Pkg.Scope().Lookup("Pool").Type().Underlying().(*types.Struct)
	}
	u8 := prog.ImportedPackage("unicode/utf8")
	e.fnDecodeRune = u8.Func("DecodeRuneInString")
	e.fnAppendRune = u8.Func("AppendRune")
	// harness directives
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//verif:run ") {
					if err := e.directive(fd.Name.Name, strings.Fields(c.Text[12:])); err != nil {
						return err
					}
				}
			}
		}
	}
	return nil
}

func (e *Engine) directive(fn string, fs []string) error {
	h := harness{name: fn, fn: e.main.Func(fn), prop: fs[0], tier: "quick", budget: 60 * time.Second, steps: 4_000_000, repeat: 1}
	if h.fn == nil {
		return fmt.Errorf("harness %s not found", fn)
	}
	h.hasArg = len(h.fn.Params) == 1
	params := []int{0}
	for _, f := range fs[1:] {
		k, v, _ := strings.Cut(f, "=")
		switch k {
		case "quick", "thorough":
			h.tier = k
		case "n":
			params = nil
			for _, p := range strings.Split(v, ",") {
				if a, b, ok := strings.Cut(p, ".."); ok {
					x, _ := strconv.Atoi(a)
					y, _ := strconv.Atoi(b)
					for ; x <= y; x++ {
						params = append(params, x)
					}
					continue
				}
				x, err := strconv.Atoi(p)
				if err != nil {
					return err
				}
				params = append(params, x)
			}
		case "budget":
			x, _ := strconv.Atoi(v)
			h.budget = time.Duration(x) * time.Second
		case "repeat":
			h.repeat, _ = strconv.Atoi(v)
		case "steps":
			h.steps, _ = strconv.ParseInt(v, 10, 64)
		default:
			return fmt.Errorf("directive %q on %s", f, fn)
		}
	}
	for _, p := range params {
		c := h
		c.param = p
		e.harnesses = append(e.harnesses, &c)
	}
	return nil
}

func (e *Engine) newWorker() *W {
	w := &W{eng: e, ctx: newCtx(), methodCache: map[mkey]*cfn{}, reach: map[string]bool{}}
	w.solver = newSolver(w.ctx, e.solverCmd, e.solverMs)
	w.inInit = true
	w.maxStep = 1 << 40
	w.spawn = func(task) { panic("fork during initialisation") }
	w.invoke(e.cfnOf(e.main.Func("init")), nil, nil, nil)
	if f := e.main.Func("vWarmup"); f != nil {
		w.callFn(f, nil)
	}
	w.inInit = false
	return w
}

func (e *Engine) initWorkers() (err error) {
	e.workers = make([]*W, e.nworkers)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					err = fmt.Errorf("initialisation: %v\n%s", r, debug.Stack())
					mu.Unlock()
				}
			}()
			e.workers[i] = e.newWorker()
		}()
	}
	wg.Wait()
	return err
}

func (e *Engine) close() {
	for _, w := range e.workers {
		if w != nil {
			w.solver.stop()
		}
	}
}

type cand struct {
	h    *harness
	msg  string
	tape []int64
}

type runStats struct {
	label     string
	complete  bool
	paths     int64 // finished normally
	killed    int64
	limited   map[string]int64
	unsup     map[string]int64
	decisions int64
	samples   []sample
	wall      time.Duration
	viol      []cand
	unconf    []cand
	remaining int
	asserts   int64
}

type sample struct {
	tape []int64
	obs  []string
}

func (w *W) tapeUnder(model []uint64) []int64 {
	out := make([]int64, len(w.tape))
	get := func(v int32) uint64 { return model[v] }
	for i, t := range w.tape {
		if t.e != nil {
			out[i] = int64(w.ctx.eval(t.e, get, nil))
		} else {
			out[i] = t.v
		}
	}
	return out
}

func (w *W) obsUnder(model []uint64) []string {
	get := func(v int32) uint64 { return model[v] }
	var out []string
	for _, o := range w.obs {
		switch o.kind {
		case 's':
			bs := make([]byte, o.v.m)
			for i := range bs {
				b := byteAt(o.v, uint64(i))
				if ex, ok := b.p.(*Expr); ok {
					bs[i] = byte(w.ctx.eval(ex, get, nil))
				} else {
					bs[i] = byte(b.n)
				}
			}
			out = append(out, string(bs))
		case 'i':
			v := o.v.n
			if ex, ok := o.v.p.(*Expr); ok {
				v = w.ctx.eval(ex, get, nil)
			}
			out = append(out, strconv.FormatInt(int64(v), 10))
		}
	}
	return out
}

// explore runs one harness to completion or until its budget is used.
func (e *Engine) explore(h *harness, maxSamples int) *runStats {
	st := &runStats{label: h.label(), limited: map[string]int64{}, unsup: map[string]int64{}}
	t0 := time.Now()
	deadline := t0.Add(h.budget)
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []task{{}}
	active := 0
	stop := false
	confirmed := false
	tried := map[string]int{}
	rnd := rand.New(rand.NewSource(e.seed))
	seen := int64(0)
	report := func(w *W, msg string, model []uint64) {
		tape := w.tapeUnder(model)
		mu.Lock()
		if confirmed || tried[msg] >= 6 {
			mu.Unlock()
			return
		}
		tried[msg]++
		mu.Unlock()
		c := cand{h, msg, tape}
		out, ok := e.confirm(c)
		mu.Lock()
		defer mu.Unlock()
		if ok {
			if !confirmed {
				confirmed = true
				stop = true
				c.msg = msg + " [native: " + out + "]"
				st.viol = append(st.viol, c)
				cond.Broadcast()
			}
			return
		}
		c.msg = msg + " [native: " + out + "]"
		st.unconf = append(st.unconf, c)
	}
	var wg sync.WaitGroup
	for wi, w := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var local []task
			w.harness = h
			w.onViolation = report
			w.deadline = deadline
			w.maxStep = h.steps
			w.spawn = func(t task) { local = append(local, t) }
			for {
				mu.Lock()
				queue = append(queue, local...)
				if len(local) > 0 {
					cond.Broadcast()
				}
				local = local[:0]
				for len(queue) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(queue) == 0 || time.Now().After(deadline) {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				k := len(queue) - 1
				if wi%2 == 1 {
					k = rnd.Intn(len(queue))
				}
				t := queue[k]
				queue[k] = queue[len(queue)-1]
				queue = queue[:len(queue)-1]
				active++
				mu.Unlock()
				outcome, why := w.runPath(h, t)
				mu.Lock()
				active--
				st.decisions += int64(len(w.dec) - len(t.prefix))
				switch outcome {
				case pDone:
					st.paths++
					seen++
					take := len(st.samples) < maxSamples
					slot := len(st.samples)
					if !take && maxSamples > 0 {
						if j := rnd.Int63n(seen); j < int64(maxSamples) {
							take, slot = true, int(j)
						}
					}
					if take {
						s := sample{w.tapeUnder(w.model), w.obsUnder(w.model)}
						if slot == len(st.samples) {
							st.samples = append(st.samples, s)
						} else {
							st.samples[slot] = s
						}
					}
				case pKilled:
					st.killed++
				case pLimited:
					st.limited[why]++
				case pUnsup:
					st.unsup[why]++
				case pViolated:
					st.paths++
				}
				mu.Unlock()
				w.undoPath()
				if len(w.ctx.tab) > 3_000_000 {
					w.resetCtx()
				}
			}
		}()
	}
	wg.Wait()
	st.remaining = len(queue)
	st.complete = len(queue) == 0 && !stop && len(st.limited) == 0 && len(st.unsup) == 0
	st.wall = time.Since(t0)
	return st
}

func (w *W) resetCtx() {
	q := w.solver
	q.stop()
	w.ctx = newCtx()
	q.ctx = w.ctx
	// all expressions are gone, force new definitions
	q.gen++
	q.cmd = nil
}

const (
	pDone = iota
	pKilled
	pLimited
	pUnsup
	pViolated
)

func (w *W) runPath(h *harness, t task) (outcome int, why string) {
	w.resetPath(t)
	defer func() {
		w.stSteps += w.steps
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathKill:
			outcome, why = pKilled, x.why
		case pathLimit:
			if x.why == "step limit" || x.why == "call depth" {
				// possible non-termination: the native run decides
				w.onViolation(w, "does not terminate ("+x.why+")", w.model)
			}
			outcome, why = pLimited, x.why
		case unsupported:
			outcome, why = pUnsup, x.what
		case targetPanic:
			w.onViolation(w, x.msg, w.model)
			outcome, why = pViolated, x.msg
		case violation:
			w.onViolation(w, x.msg, w.model)
			outcome, why = pViolated, x.msg
		default:
			outcome, why = pUnsup, fmt.Sprintf("internal: %v", r)
			if debugInternal {
				fmt.Fprintf(os.Stderr, "internal: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	var args []Val
	if h.hasArg {
		args = []Val{{n: uint64(int64(h.param))}}
	}
	w.invoke(w.eng.cfnOf(h.fn), args, nil, nil)
	return pDone, ""
}

var debugInternal = os.Getenv("GOSYM_DEBUG") != ""

// ---- native side ----

func (e *Engine) buildNative() error {
	e.nativeOnce.Do(func() { e.native, e.nativeErr = e.build("native", e.sched) })
	return e.nativeErr
}

// build compiles the harnesses with the code under test; with sched its locks
// follow the recorded schedule.
func (e *Engine) build(name string, sched bool, flags ...string) (string, error) {
	rep := map[string]string{}
	for k, v := range e.overlay {
		rep[k] = v
	}
	if sched {
		m, err := e.schedOverlay()
		if err != nil {
			return "", err
		}
		for k, v := range m {
			rep[k] = v
		}
	}
	ovf := filepath.Join(e.work, name+".json")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(ovf, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(e.work, name)
	args := append([]string{"build", "-overlay", ovf, "-o", bin}, flags...)
	cmd := exec.Command("go", append(args, "./"+harnessDir)...)
	cmd.Dir = e.repo
	cmd.Env = offlineEnv()
	if len(flags) > 0 {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

// raceRun lets the two goroutines of a harness run freely under the race detector.
func (e *Engine) raceRun(r nativeReq) nativeResp {
	e.raceOnce.Do(func() { e.race, e.raceErr = e.build("race", false, "-race") })
	if e.raceErr != nil {
		return nativeResp{Status: "error", Msg: e.raceErr.Error()}
	}
	if e.thorough {
		r.Tier = "thorough"
	}
	in, _ := json.Marshal(r)
	for i := 0; i < 40; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		cmd := exec.CommandContext(ctx, e.race)
		cmd.Stdin = bytes.NewReader(in)
		cmd.Env = append(os.Environ(), "VERIF_FREE_RUN=1", "GORACE=halt_on_error=1 exitcode=66")
		var errb bytes.Buffer
		cmd.Stderr = &errb
		err := cmd.Run()
		cancel()
		if err != nil {
			msg := errb.String()
			if len(msg) > 600 {
				msg = msg[:600]
			}
			return nativeResp{Status: "panic", Msg: strings.Join(strings.Fields(msg), " ")}
		}
	}
	return nativeResp{Status: "ok"}
}

type nativeReq struct {
	Harness string   `json:"harness"`
	HasArg  bool     `json:"has_arg"`
	Param   int      `json:"param"`
	Tape    []int64  `json:"tape"`
	Repeat  int      `json:"repeat"`
	Known   []string `json:"known,omitempty"`
	Tier    string   `json:"tier"`
}

type nativeResp struct {
	Status string   `json:"status"` // ok, fail, panic, hang, skip
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"` // hex encoded
}

func (e *Engine) runNative(reqs []nativeReq, timeout time.Duration) ([]nativeResp, error) {
	if err := e.buildNative(); err != nil {
		return nil, err
	}
	if e.sched && len(reqs) > 1 {
		// schedules depend on the state of the process: each gets a new one
		var all []nativeResp
		for _, r := range reqs {
			rs, err := e.runNative([]nativeReq{r}, timeout)
			if err != nil || len(rs) == 0 {
				return all, err
			}
			all = append(all, rs[0])
		}
		return all, nil
	}
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, r := range reqs {
		if e.thorough {
			r.Tier = "thorough"
		}
		enc.Encode(r)
	}
	cmd := exec.Command(e.native)
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	tm := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	tm.Stop()
	var res []nativeResp
	dec := json.NewDecoder(&out)
	for dec.More() {
		var r nativeResp
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if len(res) < len(reqs) && err != nil && len(reqs) == 1 {
		// fatal error such as stack overflow or concurrent map access
		msg := errb.String()
		if len(msg) > 300 {
			msg = msg[:300]
		}
		res = append(res, nativeResp{Status: "panic", Msg: "process died: " + err.Error() + " " + msg})
	}
	return res, nil
}

func (e *Engine) confirm(c cand) (string, bool) {
	req := nativeReq{Harness: c.h.name, HasArg: c.h.hasArg, Param: c.h.param, Tape: c.tape, Repeat: c.h.repeat}
	if strings.HasPrefix(c.msg, raceMsg) {
		r := e.raceRun(req)
		return r.Status + " " + r.Msg, r.Status == "panic"
	}
	rs, err := e.runNative([]nativeReq{req}, 60*time.Second)
	if err != nil || len(rs) == 0 {
		return fmt.Sprintf("error %v", err), false
	}
	r := rs[0]
	return r.Status + " " + r.Msg, r.Status == "fail" || r.Status == "panic" || r.Status == "hang"
}

// validate replays sampled paths natively and compares observations.
func (e *Engine) validate(h *harness, ss []sample) (matched int, mism []string, bad *cand) {
	if len(ss) == 0 {
		return 0, nil, nil
	}
	reqs := make([]nativeReq, len(ss))
	for i, s := range ss {
		reqs[i] = nativeReq{Harness: h.name, HasArg: h.hasArg, Param: h.param, Tape: s.tape, Repeat: 1}
	}
	rs, err := e.runNative(reqs, 120*time.Second)
	if err != nil {
		return 0, []string{"native run: " + err.Error()}, nil
	}
	for i, r := range rs {
		if i >= len(ss) {
			break
		}
		diff := ""
		if r.Status != "ok" {
			diff = "native " + r.Status + " " + r.Msg
		} else if len(r.Obs) != len(ss[i].obs) {
			diff = fmt.Sprintf("observation count %d vs %d", len(r.Obs), len(ss[i].obs))
		} else {
			for j := range r.Obs {
				if r.Obs[j] != fmt.Sprintf("%x", ss[i].obs[j]) {
					b, _ := strconv.Unquote(`"` + hexToEsc(r.Obs[j]) + `"`)
					diff = fmt.Sprintf("obs %d: engine %q native %q", j, ss[i].obs[j], b)
					break
				}
			}
		}
		if diff == "" {
			matched++
		} else {
			if bad == nil && (r.Status == "fail" || r.Status == "panic") {
				bad = &cand{h, "sampled path [native: " + r.Status + " " + r.Msg + "]", ss[i].tape}
			}
			mism = append(mism, fmt.Sprintf("%s tape=%v: %s", h.label(), ss[i].tape, diff))
		}
	}
	return matched, mism, bad
}

func hexToEsc(h string) string {
	var sb strings.Builder
	for i := 0; i+1 < len(h); i += 2 {
		sb.WriteString(`\x` + h[i:i+2])
	}
	return sb.String()
}

func (e *Engine) functionsCovered() []string {
	var out []string
	e.cfns.Range(func(_, v any) bool {
		c := v.(*cfn)
		if c.covered && strings.HasPrefix(c.pkgPath, modPath) && c.pkgPath != harnessPath && !strings.HasSuffix(c.name, ".init") {
			out = append(out, strings.ReplaceAll(c.name, modPath, "xmldot"))
		}
		return true
	})
	sort.Strings(out)
	return out
}
