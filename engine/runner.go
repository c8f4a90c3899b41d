package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Directive is one registered harness run:
//
//	//zz: <prop> <tier> <Func> <args...> | opt=val ...
//
// tier: q (quick and thorough), t (thorough only), o (quick only).
type Directive struct {
	Prop, Tier, Rel, Func string
	Args                  []int64
	Opts                  map[string]string
	File                  string
}

func parseDirectives() ([]Directive, error) {
	var ds []Directive
	hd := filepath.Join(verifDir, "harness")
	err := filepath.Walk(hd, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hd, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "// zz:") {
				l = "//" + l[3:]
			}
			if !strings.HasPrefix(l, "//zz:") {
				continue
			}
			l = l[5:]
			opts := map[string]string{}
			if i := strings.IndexByte(l, '|'); i >= 0 {
				for _, f := range strings.Fields(l[i+1:]) {
					k, v, _ := strings.Cut(f, "=")
					opts[k] = v
				}
				l = l[:i]
			}
			f := strings.Fields(l)
			if len(f) < 3 {
				return fmt.Errorf("%s: bad directive %q", p, l)
			}
			d := Directive{Prop: f[0], Tier: f[1], Func: f[2], Rel: filepath.Dir(rel), Opts: opts, File: rel}
			for _, a := range f[3:] {
				x, err := strconv.ParseInt(a, 0, 64)
				if err != nil {
					return fmt.Errorf("%s: bad argument %q", p, a)
				}
				d.Args = append(d.Args, x)
			}
			ds = append(ds, d)
		}
		return nil
	})
	return ds, err
}

func (d *Directive) run() *HarnessRun {
	num := func(k string, def float64) float64 {
		if v, ok := d.Opts[k]; ok {
			f, err := strconv.ParseFloat(v, 64)
			if err != nil {
				panic("bad option " + k + "=" + v)
			}
			return f
		}
		return def
	}
	h := &HarnessRun{
		Name: d.Rel + "." + d.Func, Args: d.Args,
		Merge:          num("merge", 1) != 0,
		MergeSteps:     int64(num("msteps", 20000)),
		QueryTimeoutMs: int(num("qt", 30000)),
		Samples:        int(num("samples", 4)),
		MaxViol:        3,
		MaxDecisions:   int(num("maxdec", 20000)),
		MaxConcretize:  int(num("maxconc", 300)),
		MaxSteps:       int64(num("maxsteps", 60e6)),
		Budget:         num("budget", 100),
	}
	if c := d.Opts["covers"]; c != "" {
		h.Covers = strings.Split(c, ",")
	}
	return h
}

// Known is a recorded finding.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // finding | fixed
	Harness  string `json:"harness"`
	Label    string `json:"label"` // regular expression on the failing label
	Detail   string `json:"detail,omitempty"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re, dre  *regexp.Regexp
	hit      int
}

func loadKnown(prop string) ([]*Known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var f struct {
		Findings []*Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	var r []*Known
	for _, k := range f.Findings {
		if k.Property == prop && k.Status == "finding" {
			k.re = regexp.MustCompile("^(?:" + k.Label + ")$")
			if k.Detail != "" {
				k.dre = regexp.MustCompile(k.Detail)
			}
			r = append(r, k)
		}
	}
	return r, nil
}

func (k *Known) match(harness, label, detail string) bool {
	return k.Harness == harness && k.re.MatchString(label) && (k.dre == nil || k.dre.MatchString(detail))
}

// ---------------------------------------------------------------- native replay

type replayer struct {
	bin string
	err error
	ok  chan struct{}
	dir string
}

type replayReq struct {
	H    string   `json:"h"`
	Args []int64  `json:"args"`
	In   []uint64 `json:"in"`
}

type replayRes struct {
	Fails   []string       `json:"fails"`
	Obs     []uint64       `json:"obs"`
	Covers  map[string]int `json:"covers"`
	Skipped bool           `json:"skipped"`
	Short   bool           `json:"short"`
	Panic   string         `json:"panic"`
	Used    int            `json:"used"`
	Hang    bool           `json:"hang"`
}

// genMain writes the replay program for the given harness functions.
func (e *Engine) genMain(runs []*HarnessRun) []byte {
	var sb bytes.Buffer
	imps := map[string]string{}
	var cases bytes.Buffer
	seen := map[string]bool{}
	for _, h := range runs {
		if seen[h.Name] || h.fn == nil {
			continue
		}
		seen[h.Name] = true
		i := strings.LastIndexByte(h.Name, '.')
		rel, fn := h.Name[:i], h.Name[i+1:]
		al, ok := imps[rel]
		if !ok {
			al = fmt.Sprintf("p%d", len(imps))
			imps[rel] = al
		}
		call := func(f string, n int, sig *types.Signature) string {
			var as []string
			for j := 0; j < n; j++ {
				as = append(as, fmt.Sprintf("%s(a[%d])", sig.Params().At(j).Type().Underlying().String(), j))
			}
			return fmt.Sprintf("%s.%s(%s)", al, f, strings.Join(as, ", "))
		}
		fmt.Fprintf(&cases, "\tcase %q:\n", h.Name)
		if h.setupFn != nil {
			fmt.Fprintf(&cases, "\t\t%s\n", call(fn+"_Setup", len(h.setupFn.Params), h.setupFn.Signature))
		}
		fmt.Fprintf(&cases, "\t\t%s\n", call(fn, len(h.fn.Params), h.fn.Signature))
	}
	sb.WriteString("package main\n\nimport (\n\t\"bufio\"\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"runtime/debug\"\n\tz \"" + zzPath + "\"\n")
	var rels []string
	for r := range imps {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		fmt.Fprintf(&sb, "\t%s %q\n", imps[r], modPath+"/"+r)
	}
	sb.WriteString(")\n\nfunc run(h string, a []int64) {\n\tswitch h {\n")
	sb.Write(cases.Bytes())
	sb.WriteString(`	default:
		panic("unknown harness " + h)
	}
}

type req struct {
	H    string
	Args []int64
	In   []uint64
}

func one(r req) (res map[string]any) {
	z.Begin(r.In)
	p := ""
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(z.AssumeFailed); ok {
					return
				}
				p = fmt.Sprint(x) + "\n" + string(debug.Stack())
			}
		}()
		run(r.H, r.Args)
	}()
	return map[string]any{"fails": z.R.Fails, "obs": z.R.Obs, "covers": z.R.Covers, "skipped": z.R.Skipped, "short": z.R.Short, "panic": p, "used": z.R.Pos}
}

func main() {
	debug.SetMemoryLimit(4 << 30)
	sc := bufio.NewReaderSize(os.Stdin, 1<<20)
	d := json.NewDecoder(sc)
	for d.More() {
		var r req
		if err := d.Decode(&r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		b, _ := json.Marshal(one(r))
		os.Stdout.Write(append(b, '\n'))
	}
}
`)
	return sb.Bytes()
}

func (e *Engine) startReplayBuild(runs []*HarnessRun) *replayer {
	r := &replayer{ok: make(chan struct{})}
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		r.err = err
		close(r.ok)
		return r
	}
	r.dir = dir
	r.bin = filepath.Join(dir, "zzreplay")
	extra := map[string][]byte{filepath.Join(repoDir, "internal/zzreplay/main.go"): e.genMain(runs)}
	go func() {
		defer close(r.ok)
		ov, err := e.writeOverlay(dir, extra)
		if err != nil {
			r.err = err
			return
		}
		cmd := exec.Command("go", "build", "-overlay", ov, "-tags", "purego", "-o", r.bin, "./internal/zzreplay")
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			r.err = fmt.Errorf("replay build: %v: %s", err, out)
		}
	}()
	return r
}

func (r *replayer) close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *replayer) exec(reqs []replayReq, timeout time.Duration) ([]replayRes, error) {
	<-r.ok
	if r.err != nil {
		return nil, r.err
	}
	var in bytes.Buffer
	for _, q := range reqs {
		b, _ := json.Marshal(q)
		in.Write(append(b, '\n'))
	}
	cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec "+r.bin)
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var werr error
	hang := false
	select {
	case werr = <-done:
	case <-time.After(timeout):
		cmd.Process.Kill()
		<-done
		hang = true
	}
	var res []replayRes
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var x replayRes
		if err := json.Unmarshal(sc.Bytes(), &x); err != nil {
			return res, err
		}
		res = append(res, x)
	}
	if hang {
		res = append(res, replayRes{Hang: true})
		return res, nil
	}
	if werr != nil {
		m := errb.String()
		if len(m) > 1500 {
			m = m[:1500]
		}
		res = append(res, replayRes{Panic: "process died: " + werr.Error() + ": " + m})
	}
	return res, nil
}

// ---------------------------------------------------------------- check

type runReport struct {
	Harness   string           `json:"harness"`
	Args      []int64          `json:"bounds_args"`
	Paths     int64            `json:"paths"`
	Finished  int64            `json:"paths_to_the_end"`
	Asserts   int64            `json:"assertions_checked"`
	Queries   int64            `json:"solver_queries"`
	Unsat     int64            `json:"unsat"`
	Sat       int64            `json:"sat"`
	Unknown   int64            `json:"unknown"`
	SolverS   float64          `json:"solver_s"`
	MaxQueryS float64          `json:"longest_query_s"`
	Steps     int64            `json:"instructions"`
	WallS     float64          `json:"wall_s"`
	Complete  bool             `json:"complete_within_bounds"`
	Cut       map[string]int64 `json:"cut,omitempty"`
	Covers    map[string]int64 `json:"reached,omitempty"`
	Missing   []string         `json:"not_reached,omitempty"`
	Validated int              `json:"paths_replayed_natively"`
	Mismatch  []string         `json:"replay_mismatch,omitempty"`
	Viol      int              `json:"violations"`
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Args     []int64  `json:"args"`
	Label    string   `json:"label"`
	Kind     string   `json:"kind"`
	Detail   string   `json:"detail"`
	Inputs   []Input  `json:"inputs"`
	In       []uint64 `json:"in"`
	Native   any      `json:"native"`
	How      string   `json:"how_to_replay"`
}

func inVals(is []Input) []uint64 {
	r := make([]uint64, len(is))
	for i, x := range is {
		r[i] = x.Val
	}
	return r
}

func confirmed(v *Violation, r replayRes) bool {
	if r.Hang {
		return v.Kind == "hang"
	}
	if v.Kind == "hang" {
		return false
	}
	if v.Kind == "panic" {
		return r.Panic != "" && !strings.Contains(r.Panic, "unknown harness")
	}
	if r.Skipped {
		return false
	}
	for _, f := range r.Fails {
		if f == v.Label {
			return true
		}
	}
	return len(r.Fails) > 0 || r.Panic != ""
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	ds, err := parseDirectives()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	known, err := loadKnown(prop)
	if err != nil {
		fmt.Println("ERROR known_findings.json:", err)
		return 2
	}
	var runs []*HarnessRun
	rels := map[string]bool{}
	only := os.Getenv("GOSYM_ONLY")
	for i := range ds {
		d := &ds[i]
		if d.Prop != prop || d.Tier == "t" && tier != "thorough" || d.Tier == "o" && tier != "quick" || only != "" && !strings.Contains(d.Rel+"."+d.Func, only) {
			continue
		}
		h := d.run()
		if tier == "thorough" {
			h.Budget *= 4
			h.QueryTimeoutMs *= 4
		}
		runs = append(runs, h)
		rels[d.Rel] = true
	}
	if len(runs) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 2
	}
	var rl []string
	for r := range rels {
		rl = append(rl, r)
	}
	sort.Strings(rl)
	e := &Engine{}
	if err := e.buildOverlay(); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if err := e.load(rl); err != nil {
		fmt.Println("ERROR loading /repo:", err)
		return 2
	}
	for _, d := range e.dropped {
		fmt.Println("NOTE harness file does not fit the current source and was left out:", d)
	}
	for _, h := range runs {
		h.fn = e.find(h.Name)
		h.setupFn = e.find(h.Name + "_Setup")
		h.known = func(label, detail string) bool {
			for _, k := range known {
				if k.match(h.Name, label, detail) {
					return true
				}
			}
			return false
		}
	}
	rp := e.startReplayBuild(runs)
	defer rp.close()
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	pool := &WorkerPool{eng: e, n: nw, ins: make([]*Interp, nw)}
	defer pool.closeAll()
	var reports []*runReport
	funcs := map[string]bool{}
	var samples []any
	tot := &runReport{}
	nviol, completed := 0, 0
	var errs []string
	var unconfirmed []string
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0o755)
	for _, f := range mustGlob(filepath.Join(rdir, prop+"-*.json")) {
		os.Remove(f)
	}
	stopAll := false
	for _, h := range runs {
		if stopAll {
			break
		}
		rep := &runReport{Harness: h.Name, Args: h.Args}
		reports = append(reports, rep)
		if h.fn == nil {
			rep.Cut = map[string]int64{"harness left out: it does not fit the current source": 1}
			continue
		}
		limit := 780 * time.Second
		if tier == "thorough" {
			limit = 3 * time.Hour
		}
		end := time.Now().Add(time.Duration(h.Budget * float64(time.Second)))
		if gl := t0.Add(limit); end.After(gl) {
			end = gl
		}
		x := &Explorer{eng: e, h: h, deadline: end}
		x.Run(pool)
		s := &x.stats
		rep.Paths, rep.Finished, rep.Asserts, rep.Queries, rep.Unsat, rep.Sat, rep.Unknown = s.Paths, s.Finished, s.Asserts, s.Queries, s.NUnsat, s.NSat, s.NUnk
		rep.SolverS, rep.MaxQueryS, rep.Steps, rep.WallS = s.SolverTime.Seconds(), s.MaxQuery.Seconds(), s.Steps, s.Wall.Seconds()
		rep.Cut = s.Cut
		assumed := rep.Cut["(assume)"]
		delete(rep.Cut, "(assume)")
		if assumed > 0 {
			s.Covers["(paths ended by an assumption)"] = assumed
		}
		rep.Covers = s.Covers
		rep.Complete = s.Complete && len(rep.Cut) == 0
		for _, c := range h.Covers {
			if s.Covers[c] == 0 {
				rep.Missing = append(rep.Missing, c)
			}
		}
		if rep.Finished == 0 {
			rep.Missing = append(rep.Missing, "end of harness")
		}
		for f := range s.Funcs {
			funcs[f] = true
		}
		errs = append(errs, s.Errs...)
		// replay sampled paths
		var reqs []replayReq
		for _, p := range x.samples {
			reqs = append(reqs, replayReq{h.Name, h.Args, inVals(p.Inputs)})
		}
		if len(reqs) > 0 {
			res, err := rp.exec(reqs, 60*time.Second)
			if err != nil {
				rep.Mismatch = append(rep.Mismatch, err.Error())
			}
			for i := range reqs {
				if i >= len(res) {
					rep.Mismatch = append(rep.Mismatch, "no native result")
					break
				}
				p, r := x.samples[i], res[i]
				why := ""
				switch {
				case r.Hang:
					why = "native run hangs"
				case r.Panic != "":
					why = "native panic " + firstLines(r.Panic, 12)
				case r.Skipped:
					why = "native run violates an assumption"
				case r.Used != len(p.Inputs):
					why = fmt.Sprintf("native run consumed %d inputs, symbolic path %d", r.Used, len(p.Inputs))
				case len(r.Fails) > 0:
					why = "native assertion failed: " + strings.Join(r.Fails, "; ")
				case fmt.Sprint(r.Obs) != fmt.Sprint(p.Obs):
					why = fmt.Sprintf("observations differ: native %v symbolic %v", r.Obs, p.Obs)
				}
				if why != "" {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("inputs %v: %s", reqs[i].In, why))
				} else {
					rep.Validated++
				}
				if i < 1 && len(samples) < 12 {
					samples = append(samples, map[string]any{"harness": h.Name, "args": h.Args, "inputs": p.Inputs, "observed": p.Obs, "native_agrees": why == ""})
				}
			}
		}
		// replay violations
		for i := range x.viol {
			v := &x.viol[i]
			to := 60 * time.Second
			if v.Kind == "hang" {
				to = 20 * time.Second
			}
			res, err := rp.exec([]replayReq{{h.Name, h.Args, inVals(v.Inputs)}}, to)
			if err != nil || len(res) == 0 {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %v %s (replay impossible: %v)", h.Name, h.Args, v.Label, err))
				continue
			}
			if !confirmed(v, res[0]) {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %v %s [%s] inputs=%v: the native run does not show it (fails=%v skipped=%v)", h.Name, h.Args, v.Label, v.Detail, inVals(v.Inputs), res[0].Fails, res[0].Skipped))
				continue
			}
			kn := false
			for _, k := range known {
				if k.match(h.Name, v.Label, v.Detail) {
					if k.hit == 0 {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					}
					k.hit++
					kn = true
					break
				}
			}
			if kn {
				continue
			}
			rep.Viol++
			nviol++
			pth := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", prop, nviol))
			native := res[0]
			native.Panic = firstLines(native.Panic, 14)
			b, _ := json.MarshalIndent(replayFile{prop, h.Name, h.Args, v.Label, v.Kind, v.Detail, v.Inputs, inVals(v.Inputs), native, "cd /verif && ./check.sh replay " + pth}, "", " ")
			os.WriteFile(pth, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, pth)
			fmt.Printf("  %s%v %s: %s %s\n  inputs: %s\n", h.Name, h.Args, v.Kind, v.Label, firstLines(v.Detail, 3), fmtInputs(v.Inputs))
		}
		if nviol >= 1 {
			stopAll = true
		}
		if rep.Complete && len(rep.Missing) == 0 && len(rep.Mismatch) == 0 {
			completed++
		}
		status := "ok"
		if rep.Viol > 0 {
			status = "VIOLATED"
		} else if !rep.Complete {
			status = "INCOMPLETE " + x.stats.cutString()
		} else if len(rep.Missing) > 0 {
			status = "VACUOUS: not reached: " + strings.Join(rep.Missing, ", ")
		}
		if len(rep.Mismatch) > 0 {
			status += " REPLAY-MISMATCH " + rep.Mismatch[0]
		}
		fmt.Printf("%s %s%v: %s; paths=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs replayed=%d\n", prop, h.Name, h.Args, status, rep.Paths, rep.Asserts, rep.Queries, rep.SolverS, rep.WallS, rep.Validated)
		tot.Paths += rep.Paths
		tot.Steps += rep.Steps
		tot.Asserts += rep.Asserts
		tot.Queries += rep.Queries
		tot.Unsat += rep.Unsat
		tot.Sat += rep.Sat
		tot.Unknown += rep.Unknown
		tot.SolverS += rep.SolverS
		tot.Validated += rep.Validated
		dec := s.Decisions
		tot.Finished += dec
	}
	for _, u := range unconfirmed {
		fmt.Println("NOTE unconfirmed counterexample (not reported):", u)
	}
	for _, u := range dedup(errs) {
		fmt.Println("NOTE solver:", u)
	}
	var fl, stdl []string
	for f := range funcs {
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zz") && !strings.Contains(f, "internal/zzsym") {
			fl = append(fl, strings.ReplaceAll(f, modPath+"/", ""))
		} else if !strings.Contains(f, modPath) {
			stdl = append(stdl, f)
		}
	}
	sort.Strings(fl)
	sort.Strings(stdl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) == 0 {
		samples = append(samples, "no completed path was sampled")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": tot.Paths, "transitions": tot.Steps, "traces_validated_against_impl": tot.Validated, "samples": samples,
			"explanation":            "states: symbolic execution paths explored (each stands for every concrete input satisfying its path condition); transitions: SSA instructions of the real code executed symbolically; traces_validated_against_impl: paths whose solver model was run natively with identical observations",
			"harness_runs":           reports,
			"runs_complete":          completed,
			"runs_total":             len(runs),
			"assertions_checked":     tot.Asserts,
			"branch_decisions":       tot.Finished,
			"queries":                map[string]int64{"total": tot.Queries, "unsat": tot.Unsat, "sat": tot.Sat, "unknown": tot.Unknown},
			"solver_s":               tot.SolverS,
			"solver":                 solverName(),
			"functions_encoded":      fl,
			"stdlib_functions":       stdl,
			"exhaustive":             completed == len(runs),
			"unconfirmed":            unconfirmed,
			"harness_files_left_out": e.dropped,
		},
		"assumptions": assumptions(prop),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if nviol > 0 {
		return 1
	}
	if completed == len(runs) {
		fmt.Printf("%s: held on all %d runs within their bounds (%.0fs)\n", prop, len(runs), time.Since(t0).Seconds())
		return 0
	}
	fmt.Printf("%s: no violation; %d of %d runs complete within their bounds, the rest is inconclusive (%.0fs)\n", prop, completed, len(runs), time.Since(t0).Seconds())
	return 0
}

func mustGlob(p string) []string { r, _ := filepath.Glob(p); return r }

func dedup(x []string) []string {
	m := map[string]bool{}
	var r []string
	for _, s := range x {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func fmtInputs(is []Input) string {
	var r []string
	for i, x := range is {
		if i >= 40 {
			r = append(r, "...")
			break
		}
		r = append(r, fmt.Sprintf("%s=%#x", x.Name, x.Val))
	}
	return strings.Join(r, " ")
}

func (s *Stats) cutString() string { return strings.Join(s.cutList(), "; ") }

func assumptions(prop string) []string {
	r := []string{
		"Go semantics as encoded by the symbolic executor (engine/): single goroutine, 64-bit int, no allocation failure; sampled paths are replayed natively to cross-check it",
		"abstract mode (zzsym.HashFree): hash functions return an arbitrary value per distinct content; randomness (math/rand, math/rand/v2, crypto/rand) returns arbitrary values; both are then arguments of the property",
		"bounds: the arguments of each harness run (bounds_args) and the constants documented beside the harness; nothing is claimed outside them",
		"transcendental math (exp, log, pow) on symbolic arguments is not encoded; such paths are cut and reported",
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "assumptions.json"))
	if err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil {
			r = append(r, m[prop]...)
		}
	}
	return r
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	e := &Engine{}
	if err := e.buildOverlay(); err != nil {
		fmt.Println(err)
		return 2
	}
	i := strings.LastIndexByte(f.Harness, '.')
	if err := e.load([]string{f.Harness[:i]}); err != nil {
		fmt.Println(err)
		return 2
	}
	h := &HarnessRun{Name: f.Harness, Args: f.Args}
	h.fn, h.setupFn = e.find(h.Name), e.find(h.Name+"_Setup")
	if h.fn == nil {
		fmt.Println("no harness", h.Name)
		return 2
	}
	rp := e.startReplayBuild([]*HarnessRun{h})
	defer rp.close()
	res, err := rp.exec([]replayReq{{f.Harness, f.Args, f.In}}, 60*time.Second)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	o, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(o))
	if len(res) > 0 && (len(res[0].Fails) > 0 || res[0].Panic != "" || res[0].Hang) {
		return 1
	}
	return 0
}
