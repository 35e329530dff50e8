package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prop is a property's check description (prop.json).
type Prop struct {
	ID        string            `json:"id"`
	Title     string            `json:"title"`
	Roots     []string          `json:"roots"`
	Include   []string          `json:"include"`
	Interp    []string          `json:"interp"`
	Noop      []string          `json:"noop"`
	Harnesses []*Config         `json:"harnesses"`
	Assume    []string          `json:"assumptions"`
	BudgetS   int               `json:"budget_s"`
	Only      map[string]string `json:"-"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

// repoDir is /repo; VERIF_DEV_REPO points the engine at a scratch copy while developing.
var repoDir = func() string {
	if d := os.Getenv("VERIF_DEV_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/sisu-network/dheart"

var defaultInterp = []string{"strings", "sort", "bytes", "strconv", "errors", "bufio", "io", "unicode", "unicode/utf8", "encoding/hex", "encoding/binary",
	"container/list", "container/heap", "math", "math/bits", "math/big", "time", "context", "sync", "sync/atomic", "path", "internal/itoa",
	"github.com/deckarep/golang-set", "go.uber.org/atomic", "github.com/sisu-network/tss-lib/tss", "io/ioutil", "crypto/cipher", "internal/bytealg", "internal/stringslite"}

var frozenPkgs = map[string]bool{"strings": true, "sort": true, "bytes": true, "strconv": true, "errors": true, "bufio": true, "io": true, "unicode": true,
	"unicode/utf8": true, "encoding/hex": true, "encoding/binary": true, "math": true, "math/bits": true, "math/big": true, "time": true, "context": true, "path": true,
	"internal/bytealg": true, "crypto/cipher": true, "embed": true, "io/fs": true, "path/filepath": true}

var defaultNoop = []string{"github.com/sisu-network/lib/log", "github.com/logdna/logdna-go/logger", "github.com/ipfs/go-log"}

func collect(dir, id string, ov map[string]string) error {
	return filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		d, f := filepath.Split(rel)
		ov[filepath.Join(repoDir, d, "zz_verif_"+id+"_"+f)] = p
		return nil
	})
}

func main() {
	propDir := flag.String("prop", "", "property directory")
	only := flag.String("h", "", "only this harness")
	noReplay := flag.Bool("noreplay", false, "skip native replay")
	verbose := flag.Bool("v", false, "verbose")
	workers := flag.Int("j", 8, "workers")
	budget := flag.Int("budget", 0, "seconds per harness (overrides)")
	showFns := flag.Bool("fns", false, "print functions encoded")
	keep := flag.Bool("keep", false, "keep work dir")
	flag.Parse()
	os.Exit(check(*propDir, *only, *noReplay, *verbose, *workers, *budget, *showFns, *keep))
}

func fatalf(f string, a ...interface{}) int {
	fmt.Printf("CHECK-ERROR: "+f+"\n", a...)
	return 2
}

func check(dir, only string, noReplay, verbose bool, workers, budget int, showFns, keepWork bool) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	verif, _ := filepath.Abs(filepath.Join(dir, "../.."))
	dir, _ = filepath.Abs(dir)
	var pr Prop
	b, err := os.ReadFile(filepath.Join(dir, "prop.json"))
	if err != nil {
		return fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &pr); err != nil {
		return fatalf("prop.json: %v", err)
	}
	evPath := filepath.Join(verif, "evidence", pr.ID+".json")
	os.MkdirAll(filepath.Dir(evPath), 0o755)
	if only == "" {
		os.Remove(evPath)
	}
	ov := map[string]string{}
	lid := strings.ToLower(pr.ID)
	if err := collect(dir, lid, ov); err != nil {
		return fatalf("%v", err)
	}
	for _, inc := range pr.Include {
		if err := collect(filepath.Join(verif, "harness", "common", inc), "c"+inc, ov); err != nil {
			return fatalf("%v", err)
		}
	}
	for _, f := range []string{"types.go", "native.go"} {
		ov[filepath.Join(repoDir, "verifrt", f)] = filepath.Join(verif, "rt", f)
	}
	interpSet := map[string]bool{}
	for _, p := range append(append([]string{}, defaultInterp...), pr.Interp...) {
		interpSet[p] = true
	}
	noopSet := map[string]bool{}
	for _, p := range append(append([]string{}, defaultNoop...), pr.Noop...) {
		noopSet[p] = true
	}
	interp := func(p string) bool {
		return interpSet[p] || p == modPath || strings.HasPrefix(p, modPath+"/")
	}
	tl := time.Now()
	P, err := load(repoDir, ov, append([]string{"./verifrt"}, pr.Roots...), interp)
	if err != nil {
		return fatalf("load: %v", err)
	}
	E := &Env{P: P, stubs: map[string]*ssa.Function{}, intr: map[string]intrinsic{}, repoPath: modPath, verifrt: modPath + "/verifrt", interpOK: interp,
		isFrozen: func(p string) bool { return frozenPkgs[p] }, noop: func(p string) bool { return noopSet[p] }}
	registerIntrinsics(E)
	registerProto(E)
	rtp := P.pkgs[E.verifrt]
	E.rterrT = rtp.tpkg.Scope().Lookup("RuntimeErr").Type()
	E.errStrT = types.NewPointer(rtp.tpkg.Scope().Lookup("ErrString").Type())
	E.gcmT = types.NewPointer(rtp.tpkg.Scope().Lookup("GCM").Type())
	E.frozen = newMachine(E, nil, nil)
	stubs := findStubs(P, E)
	for _, s := range stubs {
		fn := P.pkgs[s.pkg].ssapkg.Func(s.name)
		if fn == nil {
			return fatalf("stub %s.%s not found", s.pkg, s.name)
		}
		E.stubs[s.target] = fn
	}
	if os.Getenv("VERIF_IDENTS") != "" {
		printIdents(P)
		return 0
	}
	loadS := time.Since(tl).Seconds()
	if verbose {
		fmt.Printf("loaded %d packages in %.1fs, %d stubs\n", len(P.pkgs), loadS, len(stubs))
	}
	type run struct {
		ex  *Explorer
		sec float64
	}
	var runs []run
	fnPkg := map[string]string{}
	var used []*Config
	for _, h := range pr.Harnesses {
		if only != "" && h.Name != only {
			continue
		}
		if h.ThoroughOnly && tier != "thorough" && only == "" {
			continue
		}
		if h.Name == "" {
			h.Name = h.Func
		}
		used = append(used, h)
		i := strings.LastIndex(h.Func, ".")
		pk := P.pkgs[modPath+"/"+h.Func[:i]]
		if pk == nil || pk.ssapkg == nil {
			return fatalf("no package for harness %s", h.Func)
		}
		fn := pk.ssapkg.Func(h.Func[i+1:])
		if fn == nil {
			return fatalf("no harness %s", h.Func)
		}
		fnPkg[h.Func] = modPath + "/" + h.Func[:i]
		params := map[string]int{}
		for k, v := range h.Quick {
			params[k] = v
		}
		bs := 60
		if h.BudgetS > 0 {
			bs = h.BudgetS
		}
		if tier == "thorough" {
			for k, v := range h.Thorough {
				params[k] = v
			}
			bs *= 6
			if h.ThoroughS > 0 {
				bs = h.ThoroughS
			}
			if h.PreemptThorough > 0 {
				h.Preempt = h.PreemptThorough
			}
		}
		if budget > 0 {
			bs = budget
		}
		atomicCfg[h.Name] = h.AtomicPoints
		ex := newExplorer(E, pr.ID, h, fn, params, seed)
		ex.verbose = verbose
		ex.deadline = time.Now().Add(time.Duration(bs) * time.Second)
		th := time.Now()
		if err := ex.run(workers); err != nil {
			return fatalf("%s: %v", h.Name, err)
		}
		runs = append(runs, run{ex, time.Since(th).Seconds()})
		if verbose {
			fmt.Printf("%s (%.1fs)\n", ex.summary(), time.Since(th).Seconds())
			for _, k := range sortedKeys(ex.Violations) {
				v := ex.Violations[k][0]
				fmt.Printf("    candidate %q x%d at %s\n      inputs %v\n", k, len(ex.Violations[k]), v.Where, v.Inputs)
				for _, s := range v.Stack {
					fmt.Println("       ", s)
				}
				for _, s := range v.Notes {
					fmt.Println("        note:", s)
				}
			}
			for _, n := range sortedKeys(ex.Notes) {
				fmt.Println("    note:", n)
			}
			if showFns {
				fmt.Println("    fns:", strings.Join(sortedKeys(ex.Fns), "\n      "))
			}
		}
	}
	// ---- native replay ----
	work, err := os.MkdirTemp("", "gosym-"+pr.ID+"-")
	if err != nil {
		return fatalf("%v", err)
	}
	if !keepWork {
		defer os.RemoveAll(work)
	} else {
		fmt.Println("work dir", work)
	}
	var known []Known
	if kb, err := os.ReadFile(filepath.Join(verif, "known-findings.json")); err == nil {
		var kf struct {
			Known []Known `json:"known"`
		}
		if err := json.Unmarshal(kb, &kf); err != nil {
			return fatalf("known-findings.json: %v", err)
		}
		known = kf.Known
	}
	needReplay := false
	for _, r := range runs {
		if len(r.ex.Violations) > 0 || len(r.ex.Witness) > 0 {
			needReplay = true
		}
	}
	var rp *replayer
	var buildS float64
	if needReplay && !noReplay {
		tb := time.Now()
		rp = &replayer{P: P, E: E, ov: ov, stubs: stubs, work: work, fnPkg: fnPkg}
		if err := rp.build(false); err != nil {
			return fatalf("native replay build: %v", err)
		}
		buildS = time.Since(tb).Seconds()
	}
	if verbose && rp != nil {
		fmt.Printf("replay build %.1fs\n", buildS)
	}
	exit := 0
	validated, mismatched, confirmed := 0, 0, 0
	var unconfirmed, mism []string
	var samples []interface{}
	violations := 0
	knownHit := map[string]bool{}
	for _, r := range runs {
		ex := r.ex
		for _, msg := range sortedKeys(ex.Violations) {
			ts := ex.Violations[msg]
			ok := false
			var detail string
			var tr *Trace
			if rp == nil {
				detail = "replay disabled"
				tr = ts[0]
				ok = noReplay
			}
			for _, t := range ts {
				if rp == nil {
					break
				}
				o := rp.run(t)
				if verbose {
					fmt.Printf("replay of %q: %s\n", msg, o.summary())
				}
				if o.confirms(t) {
					ok, tr, detail = true, t, o.summary()
					break
				}
				detail = o.summary()
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s [%s]", ex.cfg.Name, msg, detail))
				continue
			}
			confirmed++
			var kn *Known
			for i := range known {
				k := &known[i]
				if k.Property == pr.ID && (k.Harness == "" || k.Harness == ex.cfg.Name) && regexp.MustCompile(k.Match).MatchString(msg) {
					kn = k
				}
			}
			if kn != nil {
				if !knownHit[kn.What] {
					knownHit[kn.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, kn.What)
				}
				continue
			}
			violations++
			exit = 1
			rdir := filepath.Join(verif, "replays", pr.ID)
			os.MkdirAll(rdir, 0o755)
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", ex.cfg.Name, violations))
			jb, _ := json.MarshalIndent(tr, "", " ")
			os.WriteFile(path, jb, 0o644)
			fmt.Printf("%s: %s\n  at %s\n  native replay: %s\n", ex.cfg.Name, msg, tr.Where, detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		}
		for i, t := range ex.Witness {
			if t == nil || rp == nil {
				continue
			}
			if len(samples) < 6 && i < 2 {
				samples = append(samples, map[string]interface{}{"harness": ex.cfg.Name, "inputs": trim(t.Inputs), "observations": t.Obs, "schedule_events": len(t.Events)})
			}
			if ex.cfg.NoReplay {
				continue
			}
			o := rp.run(t)
			if o.matches(t) {
				validated++
			} else {
				mismatched++
				mism = append(mism, fmt.Sprintf("%s: %s", ex.cfg.Name, o.summary()))
				if verbose {
					fmt.Printf("MISMATCH %s: %s\n   engine obs %v\n   native obs %v\n   inputs %v\n", ex.cfg.Name, o.summary(), t.Obs, o.obs, t.Inputs)
				}
			}
		}
	}
	// ---- evidence ----
	states, trans := 0, int64(0)
	q, qs, qu, qk := 0, 0, 0, 0
	var solverS float64
	fns := map[string]bool{}
	var hs []interface{}
	var asm []string
	exhaustive := true
	for _, r := range runs {
		ex := r.ex
		states += ex.Paths
		trans += ex.Steps
		q += ex.Queries
		qs += ex.QSat
		qu += ex.QUnsat
		qk += ex.QUnknown
		solverS += ex.SolverTime.Seconds()
		for f := range ex.Fns {
			if !strings.Contains(f, "erif") {
				fns[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
		if !ex.Exhausted || len(ex.Unsupported) > 0 || len(ex.Incomplete) > 0 {
			exhaustive = false
		}
		var missing []string
		for _, t := range ex.cfg.Reach {
			if !ex.Reached[t] {
				missing = append(missing, t)
			}
		}
		h := map[string]interface{}{"name": ex.cfg.Name, "bounds": ex.cfg.Bounds, "params": ex.params, "preemption_bound": ex.cfg.Preempt, "free_scheduling": ex.cfg.FreeSched,
			"map_orders": ex.cfg.MapOrder, "race_detection": ex.cfg.Race, "paths": ex.Paths, "paths_completed": ex.Complete, "paths_pruned_by_assumptions": ex.Pruned,
			"exhausted": ex.Exhausted, "frontier_left": len(ex.stack), "solver_branches": ex.Branches, "queries": ex.Queries, "solver_s": round2(ex.SolverTime.Seconds()), "wall_s": round2(r.sec),
			"assertions": len(ex.Asserts), "max_schedule_events": ex.MaxEvents}
		if len(ex.Unsupported) > 0 {
			h["undecided_paths"] = top(ex.Unsupported)
		}
		if len(ex.Incomplete) > 0 {
			h["incomplete"] = top(ex.Incomplete)
		}
		if len(missing) > 0 {
			h["unreached_witnesses"] = missing
		}
		hs = append(hs, h)
		if len(ex.Internal) > 0 && exit == 0 {
			fmt.Println("internal error:", ex.Internal[0])
			exit = 2
		}
		if len(missing) > 0 && exit == 0 && len(ex.Violations) == 0 {
			fmt.Printf("WARNING: %s did not reach %v\n", ex.cfg.Name, missing)
			if os.Getenv("VERIF_STRICT") != "" {
				exit = 2
			}
		}
	}
	asm = append(asm, pr.Assume...)
	for s := range E.stubs {
		for _, r := range runs {
			if r.ex.StubsUsed[s] {
				asm = append(asm, "modelled by a harness stand-in: "+s)
				break
			}
		}
	}
	sort.Strings(asm)
	fl := sortedKeys(fns)
	ev := map[string]interface{}{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated + confirmed, "samples": samples,
			"queries": q, "queries_sat": qs, "queries_unsat": qu, "queries_unknown": qk, "solver_s": round2(solverS), "load_s": round2(loadS), "replay_build_s": round2(buildS),
			"functions_encoded_count": len(fl), "functions_encoded": capList(fl, 120), "harnesses": hs, "exhaustive": exhaustive,
			"rule":               "states = symbolic paths decided; transitions = SSA instructions of the real code executed symbolically; every branch on symbolic data is a solver query",
			"witness_mismatches": capList(mism, 5), "unconfirmed_candidates": capList(unconfirmed, 5), "counterexamples_confirmed_natively": confirmed,
		},
		"assumptions": asm, "wall_s": round2(time.Since(t0).Seconds()), "violations": violations,
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if only == "" || verbose {
		if err := os.WriteFile(evPath, eb, 0o644); err != nil {
			return fatalf("%v", err)
		}
	}
	fmt.Printf("%s: %d harnesses, %d symbolic paths, %d queries, %.1fs solver, %d native traces validated (%d mismatched), %d violations, exhaustive=%v, %.1fs\n",
		pr.ID, len(runs), states, q, solverS, validated, mismatched, violations, exhaustive, time.Since(t0).Seconds())
	for _, u := range unconfirmed {
		fmt.Println("  unconfirmed (not reported):", u)
	}
	if len(mism) > 0 {
		fmt.Println("  witness mismatch:", mism[0])
	}
	for _, r := range runs {
		for _, k := range capList(sortedKeys(r.ex.Unsupported), 3) {
			fmt.Println("  undecided:", r.ex.cfg.Name, k, "x", r.ex.Unsupported[k])
		}
	}
	return exit
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func top(m map[string]int) []string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, fmt.Sprintf("%d x %s", m[k], k))
	}
	return capList(out, 8)
}

func capList(l []string, n int) []string {
	if len(l) > n {
		return append(append([]string{}, l[:n]...), fmt.Sprintf("... and %d more", len(l)-n))
	}
	if l == nil {
		return []string{}
	}
	return l
}

func trim(m map[string]uint64) map[string]uint64 {
	if len(m) <= 24 {
		return m
	}
	r := map[string]uint64{}
	for i, k := range sortedKeys(m) {
		if i < 24 {
			r[k] = m[k]
		}
	}
	return r
}

var stubRe = regexp.MustCompile(`//verif:stub\s+(\S+)`)

// findStubs collects "//verif:stub <target>" directives above harness functions.
func findStubs(P *Program, E *Env) []stubInfo {
	var out []stubInfo
	for _, path := range P.order {
		if !E.instrumented(path) {
			continue
		}
		lp := P.pkgs[path]
		for i, f := range lp.files {
			if !strings.Contains(lp.paths[i], "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				name, doc := declDoc(d)
				for _, mm := range stubRe.FindAllStringSubmatch(doc, -1) {
					out = append(out, stubInfo{target: mm[1], pkg: path, name: name})
				}
			}
		}
	}
	return out
}

type outcome struct {
	code  int
	lines []string
	obs   []string
	errs  string
	race  bool
}

func (o *outcome) summary() string {
	var keep []string
	for _, l := range o.lines {
		if !strings.HasPrefix(l, "REPLAY: OBS") {
			keep = append(keep, l)
		}
	}
	s := fmt.Sprintf("exit %d %s", o.code, strings.Join(keep, "; "))
	if i := strings.Index(o.errs, "panic: "); i >= 0 {
		s += " " + strings.SplitN(o.errs[i:], "\n", 2)[0]
	} else if i := strings.Index(o.errs, "fatal error: "); i >= 0 {
		s += " " + strings.SplitN(o.errs[i:], "\n", 2)[0]
	}
	if o.race {
		s += " DATA RACE reported by the Go race detector"
	}
	return s
}

func (o *outcome) has(p string) bool {
	for _, l := range o.lines {
		if strings.HasPrefix(l, p) {
			return true
		}
	}
	return false
}

func (o *outcome) confirms(t *Trace) bool {
	switch {
	case strings.HasPrefix(t.Msg, "data race"):
		return o.race
	case strings.HasPrefix(t.Msg, "deadlock"):
		return o.has("REPLAY: DEADLOCK")
	case strings.HasPrefix(t.Msg, "crash"):
		// an assertion that fails where the crash was predicted (a huge make that
		// the real memory allows, say) is as good
		return o.code == 2 && (strings.Contains(o.errs, "panic: ") || strings.Contains(o.errs, "fatal error: ")) || o.has("REPLAY: ASSERT ")
	}
	return o.has("REPLAY: ASSERT " + t.Msg)
}

func (o *outcome) matches(t *Trace) bool {
	if o.code != 0 || !o.has("REPLAY: DONE") {
		return false
	}
	if len(o.obs) != len(t.Obs) {
		return false
	}
	for i := range o.obs {
		if o.obs[i] != t.Obs[i] {
			return false
		}
	}
	return true
}

type replayer struct {
	P      *Program
	E      *Env
	ov     map[string]string
	stubs  []stubInfo
	work   string
	fnPkg  map[string]string
	bin    string
	raceB  string
	n      int
	noRace bool
}

func (r *replayer) build(race bool) error {
	sub := filepath.Join(r.work, map[bool]string{false: "src", true: "srcrace"}[race])
	os.MkdirAll(sub, 0o755)
	ov, err := instrument(r.P, r.E, r.ov, r.stubs, sub, race)
	if err != nil {
		return err
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"github.com/sisu-network/dheart/verifrt\"\n")
	pkgs := map[string]string{}
	for _, f := range sortedKeys(r.fnPkg) {
		p := r.fnPkg[f]
		if _, ok := pkgs[p]; !ok {
			pkgs[p] = fmt.Sprintf("p%d", len(pkgs))
			fmt.Fprintf(&sb, "\t%s %q\n", pkgs[p], p)
		}
	}
	sb.WriteString(")\n\nfunc main() {\n\tverifrt.Main(map[string]func(){\n")
	for _, f := range sortedKeys(r.fnPkg) {
		i := strings.LastIndex(f, ".")
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", f, pkgs[r.fnPkg[f]], f[i+1:])
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(sub, "zzmain.go")
	os.WriteFile(mainSrc, []byte(sb.String()), 0o644)
	ov[repoDir+"/zzverifmain/main.go"] = mainSrc
	ovb, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(sub, "overlay.json")
	os.WriteFile(ovf, ovb, 0o644)
	bin := filepath.Join(r.work, "replay")
	args := []string{"build", "-overlay", ovf, "-o", bin}
	if race {
		bin += "-race"
		args = []string{"build", "-race", "-overlay", ovf, "-o", bin}
	}
	cmd := exec.Command("/opt/go1.18.10/bin/go", append(args, "./zzverifmain")...)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if len(out) > 3000 {
			out = out[:3000]
		}
		return fmt.Errorf("%v\n%s", err, out)
	}
	if race {
		r.raceB = bin
	} else {
		r.bin = bin
	}
	return nil
}

func (r *replayer) run(t *Trace) *outcome {
	r.n++
	tf := filepath.Join(r.work, fmt.Sprintf("trace%d.json", r.n))
	b, _ := json.Marshal(struct {
		*Trace
		Atomic bool `json:"atomic"`
	}{t, r.atomic(t)})
	os.WriteFile(tf, b, 0o644)
	if strings.HasPrefix(t.Msg, "data race") {
		if r.raceB == "" && !r.noRace {
			if err := r.build(true); err != nil {
				r.noRace = true
				return &outcome{code: 99, errs: err.Error()}
			}
		}
		if r.noRace {
			return &outcome{code: 99, errs: "race build failed"}
		}
		var last *outcome
		for i := 0; i < 15; i++ {
			last = r.exec(r.raceB, tf, "VERIF_FREE=1", "GORACE=halt_on_error=1 exitcode=66")
			if last.race {
				return last
			}
		}
		return last
	}
	return r.exec(r.bin, tf, "VERIF_X=1")
}

var atomicCfg = map[string]bool{}

func (r *replayer) atomic(t *Trace) bool { return atomicCfg[t.Harness] }

func (r *replayer) exec(bin, tf string, env ...string) *outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 75*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	scratch, _ := os.MkdirTemp(r.work, "run")
	cmd.Dir = scratch
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch, "VERIF_TRACE=" + tf}, env...)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	o := &outcome{errs: se.String()}
	if err != nil {
		o.code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			o.code = ee.ExitCode()
		}
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "REPLAY: OBS ") {
			o.obs = append(o.obs, strings.TrimPrefix(l, "REPLAY: OBS "))
		} else if strings.HasPrefix(l, "REPLAY: ") {
			o.lines = append(o.lines, l)
		}
	}
	o.race = strings.Contains(o.errs, "WARNING: DATA RACE") || strings.Contains(o.errs, "concurrent map")
	return o
}

// printIdents lists the unexported names of the repository that harness files use.
func printIdents(P *Program) {
	seen := map[string]bool{}
	for _, lp := range P.pkgs {
		if lp.info == nil {
			continue
		}
		for id, obj := range lp.info.Uses {
			if obj == nil || obj.Exported() || !obj.Pos().IsValid() || obj.Pkg() == nil || !strings.HasPrefix(obj.Pkg().Path(), modPath) {
				continue
			}
			f, d := P.fset.Position(id.Pos()).Filename, P.fset.Position(obj.Pos()).Filename
			if !strings.Contains(f, "zz_verif_") || strings.Contains(d, "zz_verif_") || strings.Contains(d, "verifrt") {
				continue
			}
			seen[filepath.Base(d)+" "+obj.Name()+" ("+filepath.Base(f)+")"] = true
		}
	}
	for _, k := range sortedKeys(seen) {
		fmt.Println(k)
	}
}
