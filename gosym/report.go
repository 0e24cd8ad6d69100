package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) initMaps() {
	e.gids = map[*ssa.Global]int32{}
	e.sides = map[*W]map[sideKey]*MapObj{}
	e.implCache = map[[2]types.Type]bool{}
	e.limits = map[string]int{}
}

// schedProp is the property whose harnesses run two calls at once.
const schedProp = "C25"

type replayFile struct {
	Property string  `json:"property"`
	Harness  string  `json:"harness"`
	HasArg   bool    `json:"has_arg"`
	Param    int     `json:"param"`
	Message  string  `json:"message"`
	Tape     []int64 `json:"tape"`
	Text     string  `json:"tape_text"`
	Repeat   int     `json:"repeat"`
	Tier     string  `json:"tier"`
	How      string  `json:"how"`
}

func (e *Engine) prepare() error {
	e.initMaps()
	if err := e.setOverlay(); err != nil {
		return err
	}
	if err := e.loadKnown(); err != nil {
		return err
	}
	if err := e.load(); err != nil {
		return err
	}
	return e.nativeOverlay()
}

func replayMain(e *Engine, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	e.thorough = r.Tier == "thorough"
	if err := e.prepare(); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	e.sched = r.Property == schedProp
	req := nativeReq{Harness: r.Harness, HasArg: r.HasArg, Param: r.Param, Tape: r.Tape, Repeat: r.Repeat}
	if strings.HasPrefix(r.Message, raceMsg) {
		x := e.raceRun(req)
		fmt.Printf("%s: %s %s\n", r.Property, x.Status, x.Msg)
		if x.Status == "panic" {
			return 1
		}
		return 0
	}
	rs, err := e.runNative([]nativeReq{req}, time.Minute)
	if err != nil || len(rs) == 0 {
		fmt.Println("ERROR", err)
		return 2
	}
	fmt.Printf("%s: %s %s\n", r.Property, rs[0].Status, rs[0].Msg)
	switch rs[0].Status {
	case "fail", "panic", "hang":
		return 1
	}
	return 0
}

func tapeText(t []int64) string {
	var sb strings.Builder
	for _, v := range t {
		if v >= 32 && v < 127 {
			sb.WriteByte(byte(v))
		} else {
			fmt.Fprintf(&sb, "{%d}", v)
		}
	}
	return sb.String()
}

func checkMain(e *Engine, prop, tier string, re *regexp.Regexp, verbose bool, budget int) int {
	t0 := time.Now()
	e.sched = prop == schedProp
	if err := e.prepare(); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	tLoad := time.Since(t0)
	if err := e.initWorkers(); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer e.close()
	if verbose {
		fmt.Printf("load %.2fs init %.2fs\n", tLoad.Seconds(), (time.Since(t0) - tLoad).Seconds())
	}
	var runs []*harness
	for _, h := range e.harnesses {
		if h.prop != prop {
			continue
		}
		if h.tier == "thorough" && tier != "thorough" {
			continue
		}
		if re != nil && !re.MatchString(h.label()) {
			continue
		}
		if budget > 0 {
			h.budget = time.Duration(budget) * time.Second
		}
		runs = append(runs, h)
	}
	if len(runs) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 2
	}
	type runRep struct {
		Harness   string           `json:"harness"`
		Complete  bool             `json:"bound_exhausted"`
		Paths     int64            `json:"paths"`
		Infeas    int64            `json:"paths_cut_by_assumptions"`
		Wall      float64          `json:"wall_s"`
		Limited   map[string]int64 `json:"cut_short,omitempty"`
		Unsup     map[string]int64 `json:"not_encodable,omitempty"`
		Remaining int              `json:"unexplored_prefixes,omitempty"`
		Matched   int              `json:"replayed_natively"`
	}
	var reps []runRep
	var samples []any
	matched, paths := 0, int64(0)
	var decs int64
	var mism, unconf []string
	var viol []cand
	incomplete := 0
	// a check has 900 s; stop starting work well before that
	total := 540 * time.Second
	if tier == "thorough" {
		total = 3 * time.Hour
	}
	var notRun []string
	for i, h := range runs {
		left := total - time.Since(t0)
		if left < 2*time.Second {
			for _, r := range runs[i:] {
				notRun = append(notRun, r.label())
			}
			break
		}
		h.budget = min(h.budget, left)
		st := e.explore(h, 25)
		m, mm := 0, []string(nil)
		if len(st.viol) == 0 {
			var bad *cand
			m, mm, bad = e.validate(h, st.samples)
			if bad != nil {
				st.viol = append(st.viol, *bad)
			}
		}
		matched += m
		mism = append(mism, mm...)
		paths += st.paths
		decs += st.decisions
		reps = append(reps, runRep{st.label, st.complete, st.paths, st.killed, round(st.wall.Seconds()), st.limited, st.unsup, st.remaining, m})
		if !st.complete {
			incomplete++
		}
		for i, s := range st.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"run": st.label, "input": tapeText(s.tape), "observed": s.obs})
			}
		}
		for _, u := range st.unconf {
			unconf = append(unconf, fmt.Sprintf("%s: %s tape=%s", h.label(), u.msg, tapeText(u.tape)))
		}
		if verbose {
			fmt.Printf("%-28s complete=%v paths=%d killed=%d dec=%d wall=%.2fs remaining=%d matched=%d/%d lim=%v unsup=%v\n", st.label, st.complete, st.paths, st.killed, st.decisions, st.wall.Seconds(), st.remaining, m, len(st.samples), st.limited, st.unsup)
			for i, x := range mm {
				if i < 3 {
					fmt.Println("   MISMATCH", x)
				}
			}
			for i, u := range st.unconf {
				if i < 3 {
					fmt.Println("   UNCONFIRMED", u.msg, tapeText(u.tape))
				}
			}
		}
		viol = append(viol, st.viol...)
		if len(st.viol) > 0 {
			break
		}
	}
	var q, sat, unsat, unk, bd, bs, bm, mg, as, ac, asol, steps, pairs int64
	var spent time.Duration
	reach := map[string]bool{}
	for _, w := range e.workers {
		q += w.solver.queries
		sat += w.solver.nSat
		unsat += w.solver.nUnsat
		unk += w.solver.nUnknown
		spent += w.solver.spent
		bd += w.stBranchDom
		bs += w.stBranchSolver
		bm += w.stBranchModel
		mg += w.stMerges
		as += w.stAsserts
		ac += w.stAssertConst
		asol += w.stAssertSolver
		steps += w.stSteps
		pairs += w.stPairs
		for k := range w.reach {
			reach[k] = true
		}
	}
	var reached []string
	for k := range reach {
		reached = append(reached, k)
	}
	sort.Strings(reached)
	if verbose {
		fmt.Printf("solver: %d queries (%d sat, %d unsat, %d unknown) %.2fs; branches: domain %d model %d solver %d; merges %d; asserts %d (const %d solver %d); steps %d\n",
			q, sat, unsat, unk, spent.Seconds(), bd, bm, bs, mg, as, ac, asol, steps)
	}
	var vs []any
	code := 0
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	for i, c := range viol {
		rp := filepath.Join(e.verif, "evidence", fmt.Sprintf("%s-counterexample-%d.json", prop, i))
		rf := replayFile{prop, c.h.name, c.h.hasArg, c.h.param, c.msg, c.tape, tapeText(c.tape), c.h.repeat, tier, "bash /verif/check.sh replay " + rp}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(rp, b, 0o644)
		fmt.Printf("counterexample in %s: %s\n  input: %s\n", c.h.label(), c.msg, tapeText(c.tape))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		vs = append(vs, map[string]any{"harness": c.h.label(), "message": c.msg, "input": tapeText(c.tape), "replay": rp})
		code = 1
	}
	if code == 0 && re == nil {
		var ids []string
		for k := range e.known {
			if strings.HasPrefix(k, prop+" ") {
				ids = append(ids, k)
			}
		}
		sort.Strings(ids)
		for _, k := range ids {
			if reach["finding "+k[len(prop)+1:]] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, e.known[k])
			} else {
				fmt.Printf("note: listed finding %s was not met on this run\n", k)
			}
		}
	}
	assumptions := []string{
		"bounds: the parameter of each run is the number of symbolic bytes or the size stated in its harness; inputs outside these shapes are not covered",
		"modelled instead of encoded: fmt formatting (symbolic characters in messages are opaque), sync and sync/atomic, sort.Slice swapping, errors.Is, internal/bytealg searches",
		"map iteration is in insertion order unless the harness makes the order symbolic",
	}
	cov := map[string]any{
		"states":                                paths,
		"transitions":                           decs,
		"traces_validated_against_impl":         matched,
		"samples":                               samples,
		"functions_encoded":                     e.functionsCovered(),
		"runs":                                  reps,
		"runs_cut_short":                        incomplete,
		"runs_not_started":                      notRun,
		"solver":                                strings.Join(e.solverCmd, " "),
		"solver_queries":                        q,
		"solver_sat":                            sat,
		"solver_unsat":                          unsat,
		"solver_unknown":                        unk,
		"solver_time_s":                         round(spent.Seconds()),
		"assertions_checked":                    as,
		"assertions_discharged_by_query":        asol,
		"assertions_constant_on_path":           ac,
		"branches_decided_by_query":             bs,
		"branches_decided_by_exact_byte_domain": bd,
		"branches_witnessed_by_model":           bm,
		"branches_merged":                       mg,
		"instructions_executed":                 steps,
		"conflicting_segment_pairs":             pairs,
		"reached":                               reached,
		"native_mismatches":                     mism,
		"unconfirmed_counterexamples":           unconf,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": assumptions, "violations": vs, "wall_s": round(time.Since(t0).Seconds())}
	if vs == nil {
		ev["violations"] = []any{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if re == nil {
		if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0o644); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d paths, %d runs (%d cut short), %d solver queries, %.1fs\n", prop, tier, paths, len(reps), incomplete, q, time.Since(t0).Seconds())
	return code
}

func round(f float64) float64 { return float64(int64(f*1000)) / 1000 }
