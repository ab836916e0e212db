package main

// gosym: bounded symbolic execution of Go code (go/ssa) with an SMT solver.

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	repoMod = "github.com/Sereal/Sereal/Go/sereal"
	zzPath  = repoMod + "/zzverif"
)

type env struct {
	verif, repo, pkgDir, work string
	goroot                    string
	overlay                   map[string][]byte // virtual files for the loader
	replace                   map[string]string // for go build -overlay
	harnesses                 []string
	clibs                     bool // build tag clibs: with the zstd codec
}

func goEnv() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off")
}

var harnessRe = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\) \{`)

func newEnv(verif, repo string, clibs bool) (*env, error) {
	e := &env{clibs: clibs, verif: verif, repo: repo, pkgDir: filepath.Join(repo, "Go/sereal"), overlay: map[string][]byte{}, replace: map[string]string{}}
	var err error
	e.work, err = os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %v", err)
	}
	e.goroot = strings.TrimSpace(string(out))
	zz := filepath.Join(e.pkgDir, "zzverif")
	add := func(virt, real string) error {
		b, err := os.ReadFile(real)
		if err != nil {
			return err
		}
		e.overlay[virt] = b
		e.replace[virt] = real
		return nil
	}
	if err := add(filepath.Join(zz, "sym", "sym.go"), filepath.Join(verif, "harness/sym/sym.go")); err != nil {
		return nil, err
	}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness/h/*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if !clibs && strings.HasSuffix(f, "_clibs.go") {
			continue
		}
		if err := add(filepath.Join(zz, filepath.Base(f)), f); err != nil {
			return nil, err
		}
		for _, mm := range harnessRe.FindAllStringSubmatch(string(e.overlay[filepath.Join(zz, filepath.Base(f))]), -1) {
			e.harnesses = append(e.harnesses, mm[1])
		}
	}
	// the native entry point
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + zzPath + "\"\n\t\"" + zzPath + "/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range e.harnesses {
		fmt.Fprintf(&sb, "\t\t%q: zzverif.%s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(e.work, "main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	e.replace[filepath.Join(zz, "replay", "main.go")] = mf
	// toy compression codec, for symbolic execution only
	toys, _ := filepath.Glob(filepath.Join(verif, "harness/toyzlib/*.go"))
	for _, f := range toys {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		e.overlay[filepath.Join(e.goroot, "src/compress/zlib", filepath.Base(f))] = b
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": e.replace})
	if err := os.WriteFile(filepath.Join(e.work, "overlay.json"), ov, 0o644); err != nil {
		return nil, err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.pkgDir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(e.work, f), b, 0o644); err != nil {
			return nil, err
		}
		// the same with the toy zstd
		if f == "go.mod" {
			b = append(b, "\nreplace github.com/DataDog/zstd => "+filepath.Join(verif, "harness/toyzstd")+"\n"...)
		}
		if err := os.WriteFile(filepath.Join(e.work, "toy-"+f), b, 0o644); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *env) close() { os.RemoveAll(e.work) }

func (e *env) buildNative(race bool) (string, error) {
	bin := filepath.Join(e.work, "replay")
	args := []string{"build", "-overlay", filepath.Join(e.work, "overlay.json"), "-modfile", filepath.Join(e.work, "go.mod")}
	if e.clibs {
		args = append(args, "-tags", "clibs")
	}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	args = append(args, "-o", bin, "./zzverif/replay")
	c := exec.Command("go", args...)
	c.Dir = e.pkgDir
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func (e *env) load() (*Program, *ssa.Package, error) {
	tags, mod := "-tags=noasm,purego", "go.mod"
	if e.clibs {
		tags, mod = "-tags=noasm,purego,clibs", "toy-go.mod"
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: e.pkgDir, Overlay: e.overlay, Env: goEnv(),
		BuildFlags: []string{tags, "-modfile=" + filepath.Join(e.work, mod)},
	}
	pkgs, err := packages.Load(cfg, "./zzverif", "errors", "fmt", "runtime", "reflect", "unicode/utf8", "strings")
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, fns: map[*ssa.Function]*Fn{}, methCache: map[methKey]*Fn{}, bodies: map[*Fn]*Fn{}, repoPrefix: repoMod}
	_ = ast.IsExported
	p.initTypes()
	return p, prog.ImportedPackage(zzPath), nil
}

func (p *Program) named(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic("package not loaded: " + pkg)
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		panic("no type " + pkg + "." + name)
	}
	return o.Type()
}

func (p *Program) namedPtr(pkg, name string) *TI { return tiOf(types.NewPointer(p.named(pkg, name))) }

func (p *Program) initTypes() {
	tiMap = typeutil.Map{}
	tiMap.SetHasher(typeutil.MakeHasher())
	u := types.Universe
	p.tString = tiOf(types.Typ[types.String])
	p.tInt = tiOf(types.Typ[types.Int])
	p.tByte = tiOf(types.Typ[types.Uint8])
	p.tBytes = tiOf(types.NewSlice(types.Typ[types.Uint8]))
	p.tBool = tiOf(types.Typ[types.Bool])
	p.tUint64 = tiOf(types.Typ[types.Uint64])
	p.tUintptr = tiOf(types.Typ[types.Uintptr])
	p.tAny = tiOf(u.Lookup("any").Type().Underlying())
	p.tAnyMap = tiOf(types.NewMap(u.Lookup("any").Type().Underlying(), u.Lookup("any").Type().Underlying()))
	p.tError = tiOf(u.Lookup("error").Type())
	p.rtype = p.namedPtr("reflect", "rtype")
	p.tRV = tiOf(p.named("reflect", "Value"))
	p.tRuntimeErr = tiOf(p.named("runtime", "errorString"))
	p.tTypeAssertErr = p.namedPtr("runtime", "TypeAssertionError")
	p.tValueErr = p.namedPtr("reflect", "ValueError")
	p.tStructField = tiOf(p.named("reflect", "StructField"))
	p.tErrorsString = p.namedPtr("errors", "errorString")
}

// ---- native replay ----

type nativeResult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

// runNative executes the requests in one process and returns their results; a
// process that died leaves the remaining results missing.
func (e *env) runNative(bin, tier string, reqs []Witness, timeout time.Duration, limitMem bool) ([]nativeResult, string) {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, r := range reqs {
		enc.Encode(map[string]interface{}{"h": r.Harness, "inputs": r.Inputs})
	}
	f, err := os.CreateTemp(e.work, "req")
	if err != nil {
		return nil, err.Error()
	}
	f.Write(in.Bytes())
	f.Close()
	var c *exec.Cmd
	if limitMem {
		c = exec.Command("prlimit", "--as=12000000000", bin, f.Name())
	} else {
		c = exec.Command(bin, f.Name())
	}
	c.Env = append(os.Environ(), "VERIF_TIER="+tier, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	var out, serr bytes.Buffer
	c.Stdout, c.Stderr = &out, &serr
	if err := c.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	status := ""
	select {
	case err := <-done:
		if err != nil {
			status = err.Error()
		}
	case <-time.After(timeout):
		c.Process.Kill()
		<-done
		status = "timeout"
	}
	var rs []nativeResult
	for _, l := range strings.Split(out.String(), "\n") {
		if l == "" {
			continue
		}
		var r nativeResult
		if json.Unmarshal([]byte(l), &r) == nil {
			rs = append(rs, r)
		}
	}
	if status != "" {
		s := serr.String()
		if len(s) > 1500 {
			s = s[:1500]
		}
		status += ": " + s
	}
	return rs, status
}

// confirm replays a violation; it returns what the native run showed.
func (e *env) confirm(bin, tier string, v Violation) (bool, string) {
	tries := 1
	if v.Internal > 0 {
		tries = 200
	}
	w := Witness{Harness: v.Harness, Inputs: v.Inputs}
	reqs := make([]Witness, tries)
	for i := range reqs {
		reqs[i] = w
	}
	race := v.Kind == "race"
	rs, status := e.runNative(bin, tier, reqs, 30*time.Second, !race)
	for _, r := range rs {
		switch r.Outcome {
		case "assert", "panic":
			if len(r.Obs) > 0 {
				return true, r.Outcome + ": " + r.Msg + " (" + strings.Join(r.Obs, ", ") + ")"
			}
			return true, r.Outcome + ": " + r.Msg
		}
	}
	if status != "" {
		return true, "process died: " + firstLines(status, 12)
	}
	if len(rs) > 0 {
		return false, rs[0].Outcome + ": " + rs[0].Msg
	}
	return false, "no result"
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// ---- known findings ----

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

type findingsFile struct {
	Open  []finding `json:"open"`
	Fixed []string  `json:"fixed"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	fs.Parse(args)
	var v struct {
		Violation
		Tier string `json:"tier"`
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	e, err := newEnv(*verif, *repo, strings.HasSuffix(v.Harness, "Clibs"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.close()
	bin, err := e.buildNative(v.Kind == "race")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ok, what := e.confirm(bin, v.Tier, v.Violation)
	fmt.Println("reproduced:", ok, what)
	if ok {
		return 1
	}
	return 0
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	prop := fs.String("property", "", "")
	only := fs.String("only", "", "regexp of harness names")
	tier := fs.String("tier", "quick", "")
	budget := fs.Int("budget", 0, "seconds")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	verbose := fs.Bool("v", false, "")
	noNative := fs.Bool("nonative", false, "")
	solver := fs.String("solver", "", "")
	first := fs.Bool("first", false, "stop at the first counterexample")
	fs.Parse(args)
	solverBin = pickSolver(*solver)
	t0 := time.Now()
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 3000
		}
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	opt := Options{maxDecisions: 20000, maxConc: 300, maxSteps: 3000000, stepViolation: true, workers: *workers,
		budget: time.Duration(*budget) * time.Second, seed: seed, solverMS: 20000, witnesses: 25, tier: *tier, verbose: *verbose, maxAudits: 20000, first: *first}
	if *tier == "thorough" {
		opt.maxAudits = 1000000
		opt.solverMS = 120000
		opt.witnesses = 100
	}
	if n, err := strconv.Atoi(os.Getenv("GOSYM_WITNESSES")); err == nil {
		opt.witnesses = n // more native runs, to look for harnesses that are not deterministic
	}
	re := regexp.MustCompile(*only)
	// the default build, then, for the harnesses that need it, the one with zstd
	var main *Explorer
	var env0 *env
	var loadT time.Duration
	for _, clibs := range []bool{false, true} {
		e, err := newEnv(*verif, *repo, clibs)
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		defer e.close()
		var hs []string
		for _, h := range e.harnesses {
			if strings.HasPrefix(h, *prop+"_") && re.MatchString(h) && strings.HasSuffix(h, "Clibs") == clibs {
				hs = append(hs, h)
			}
		}
		if env0 == nil {
			env0 = e
		}
		if len(hs) == 0 {
			continue
		}
		type nb struct {
			bin string
			err error
		}
		nch := make(chan nb, 1)
		go func() {
			if *noNative {
				nch <- nb{}
				return
			}
			b, err := e.buildNative(false)
			nch <- nb{b, err}
		}()
		t := time.Now()
		p, pkg, err := e.load()
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		loadT += time.Since(t)
		ex := newExplorer(p, opt)
		for _, h := range hs {
			f := pkg.Func(h)
			if f == nil {
				fmt.Println("error: no harness", h)
				return 2
			}
			ex.add(h, p.fnOf(f))
		}
		ex.Run()
		ex.took = time.Since(ex.start)
		n := <-nch
		if n.err != nil {
			fmt.Println("error:", n.err)
			return 2
		}
		for _, r := range ex.runs {
			r.e, r.bin = e, n.bin
		}
		if main == nil {
			main = ex
		} else {
			main.merge(ex)
		}
	}
	if main == nil {
		fmt.Println("error: no harness for", *prop)
		return 2
	}
	return report(env0, main, *prop, *tier, seed, t0, loadT, main.took, *verbose)
}

func report(e *env, ex *Explorer, prop, tier string, seed int64, t0 time.Time, loadT, exploreT time.Duration, verbose bool) int {
	var kf findingsFile
	if b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("error: known_findings.json:", err)
			return 2
		}
	}
	open := map[string]finding{}
	for _, f := range kf.Open {
		if f.Property == prop {
			open[f.ID] = f
		}
	}

	// native runs of sampled paths
	validated, mismatched := 0, 0
	var mism []string
	var nativeViol []Violation
	for _, h := range ex.runs {
		e, bin := h.e, h.bin
		if bin == "" || len(h.wit) == 0 {
			continue
		}
		rest := h.wit
		for len(rest) > 0 {
			rs, status := e.runNative(bin, tier, rest, 60*time.Second, true)
			for i, r := range rs {
				if i >= len(rest) {
					break
				}
				w := rest[i]
				switch {
				case r.Outcome == "assert" || r.Outcome == "panic":
					nativeViol = append(nativeViol, Violation{Harness: h.name, Kind: r.Outcome, Msg: r.Msg, Inputs: w.Inputs})
				case r.Outcome != "ok" || strings.Join(r.Obs, ";") != strings.Join(w.Obs, ";"):
					mismatched++
					if len(mism) < 5 {
						mism = append(mism, fmt.Sprintf("%s: %s %s native %v symbolic %v inputs %v", h.name, r.Outcome, r.Msg, r.Obs, w.Obs, w.Inputs))
					}
				default:
					validated++
				}
			}
			if len(rs) >= len(rest) {
				break
			}
			if status == "" {
				status = "no result"
			}
			nativeViol = append(nativeViol, Violation{Harness: h.name, Kind: "crash", Msg: "process died: " + firstLines(status, 6), Inputs: rest[len(rs)].Inputs})
			rest = rest[len(rs)+1:]
		}
	}

	// violations found by the solver
	nViol := 0
	unconf := 0
	exit := 0
	raceBins := map[bool]string{}
	printedKF := map[string]bool{}
	replayDir := filepath.Join(e.verif, "replays")
	emit := func(v Violation, what string) {
		os.MkdirAll(replayDir, 0o755)
		nViol++
		file := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", prop, strings.TrimPrefix(v.Harness, prop+"_"), nViol))
		b, _ := json.MarshalIndent(struct {
			Violation
			Tier     string `json:"tier"`
			Native   string `json:"native"`
			Property string `json:"property"`
		}{v, tier, what, prop}, "", " ")
		os.WriteFile(file, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		fmt.Printf("  %s: %s [%s]\n  inputs %s\n", v.Harness, v.Msg, strings.ReplaceAll(what, "\n", "\n    "), showInputs(v.Inputs))
		exit = 1
	}
	seenOpen := map[string]bool{}
	for _, h := range ex.runs {
		e, bin := h.e, h.bin
		keys := make([]string, 0, len(h.viol))
		for k := range h.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		emitted := 0
		for _, k := range keys {
			vs := h.viol[k]
			known := ""
			for _, id := range vs[0].Known {
				if _, ok := open[id]; ok {
					known = id
				}
			}
			if known != "" && seenOpen[known] {
				continue
			}
			if known == "" && emitted >= 5 {
				continue
			}
			conf := bin == ""
			what := "not replayed"
			var cv = vs[0]
			for _, v := range vs {
				if bin == "" {
					break
				}
				b := bin
				if v.Kind == "race" {
					if raceBins[e.clibs] == "" {
						rb, err := e.buildNative(true)
						if err != nil {
							fmt.Println("error:", err)
							return 2
						}
						raceBins[e.clibs] = rb
					}
					b = raceBins[e.clibs]
				}
				ok, s := e.confirm(b, tier, v)
				what = s
				if ok {
					conf, cv = true, v
					break
				}
			}
			if !conf {
				unconf++
				fmt.Printf("UNCONFIRMED %s: %s (%s) native: %s inputs %s\n", h.name, vs[0].Msg, vs[0].Where, what, showInputs(vs[0].Inputs))
				continue
			}
			if known != "" {
				seenOpen[known] = true
				if !printedKF[known] {
					printedKF[known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, open[known].What)
				}
				continue
			}
			emitted++
			emit(cv, what)
		}
	}
	if exit == 0 {
		for i, v := range nativeViol {
			if i >= 3 {
				break
			}
			emit(v, "found while validating the path natively: "+v.Kind)
		}
	}

	// evidence
	incomplete := map[string]int{}
	var hs []map[string]interface{}
	var samples []interface{}
	exhaustive := true
	for _, h := range ex.runs {
		ic := map[string]int{}
		for k, n := range h.incomp {
			ic[k] = n
			incomplete[k] += n
			exhaustive = false
		}
		if len(h.stack) > 0 {
			ic["paths left when the budget ran out"] = len(h.stack)
			incomplete["paths left when the budget ran out"] += len(h.stack)
			exhaustive = false
		}
		nv := 0
		for _, v := range h.viol {
			nv += len(v)
		}
		hs = append(hs, map[string]interface{}{"harness": h.name, "paths": h.paths, "completed": h.complete, "outside_assumptions": h.assumed,
			"incomplete": ic, "symbolic_inputs_max": h.inputs, "reached": h.reach, "cpu_s": round(h.used.Seconds()), "max_steps": h.maxSteps, "max_call_depth": h.maxDepth, "counterexamples": nv})
		if len(h.wit) > 0 && len(samples) < 12 {
			w := h.wit[len(h.wit)/2]
			samples = append(samples, map[string]interface{}{"harness": w.Harness, "inputs": showInputs(w.Inputs), "observed": w.Obs})
		}
		if h.complete == 0 && exit == 0 {
			fmt.Printf("WARNING: %s completed no path\n", h.name)
		}
	}
	c := &ex.cnt
	var fns []string
	blocks, hit := 0, 0
	for _, f := range ex.coverage() {
		fns = append(fns, fmt.Sprintf("%s %d/%d", f.Name, f.Hit, f.Blocks))
		blocks += f.Blocks
		hit += f.Hit
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": c.paths.Load(), "transitions": c.decisions.Load(), "traces_validated_against_impl": validated,
			"samples": samples, "exhaustive": exhaustive,
			"rule":                        "states are symbolic paths (each a class of inputs), transitions are symbolic decisions along them; the property is an assertion decided by the solver for every input of each path",
			"native_mismatches":           mismatched,
			"assertions":                  c.asserts.Load(),
			"assertions_decided_smt":      c.assertsProved.Load(),
			"assertions_folded":           c.assertsConst.Load(),
			"smt_queries":                 map[string]interface{}{"total": c.queries.Load(), "sat": c.sat.Load(), "unsat": c.unsat.Load(), "unknown": c.unknown.Load(), "cache_hits": c.cacheHits.Load(), "byte_table_sat": c.tableSat.Load(), "byte_table_unsat": c.tableUnsat.Load()},
			"byte_tables":                 map[string]interface{}{"proved_by_smt": c.tablesProved.Load(), "refuted": c.tablesWrong.Load(), "shapes": c.tables.Load()},
			"solver_s":                    round(float64(c.solverNS.Load()) / 1e9),
			"solver":                      solverBin,
			"instructions":                c.steps.Load(),
			"harnesses":                   hs,
			"incomplete":                  incomplete,
			"functions_encoded":           fns,
			"blocks_encoded":              fmt.Sprintf("%d of %d", hit, blocks),
			"unconfirmed_counterexamples": unconf,
			"load_s":                      round(loadT.Seconds()), "explore_s": round(exploreT.Seconds()),
		},
		"assumptions": assumptionsFor(e, prop),
		"wall_s":      round(time.Since(t0).Seconds()),
		"violations":  nViol,
	}
	done := 0
	for _, h := range ex.runs {
		done += int(h.complete)
	}
	if n := c.tablesWrong.Load(); n > 0 && exit == 0 {
		fmt.Println("error: the solver refutes", n, "byte tables: the engine is wrong")
		exit = 2
	}
	if done == 0 && exit == 0 {
		fmt.Println("error: no path was completed: nothing was decided")
		exit = 2
	}
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	for _, s := range mism {
		fmt.Println("MISMATCH", s)
	}
	if verbose || exit != 0 || len(incomplete) > 0 {
		for _, h := range ex.runs {
			fmt.Printf("  %-40s paths %d completed %d assumed %d left %d cpu %.1fs reach %v incomplete %v\n", h.name, h.paths, h.complete, h.assumed, len(h.stack), h.used.Seconds(), h.reach, h.incomp)
		}
	}
	fmt.Printf("%s %s: %d paths, %d assertions (%d by solver), %d queries (%d unknown), solver %.1fs, %d native traces agree, %d disagree, wall %.1fs, exit %d\n",
		prop, tier, c.paths.Load(), c.asserts.Load(), c.assertsProved.Load(), c.queries.Load(), c.unknown.Load(), float64(c.solverNS.Load())/1e9, validated, mismatched, time.Since(t0).Seconds(), exit)
	return exit
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func showInputs(in []InputVal) string {
	var sb strings.Builder
	run := false
	for _, v := range in {
		if v.Kind == "u8" {
			if !run {
				sb.WriteString(" bytes:")
			}
			fmt.Fprintf(&sb, "%02x", v.V)
			run = true
			continue
		}
		run = false
		fmt.Fprintf(&sb, " %s:%d", v.Kind, v.V)
	}
	return strings.TrimSpace(sb.String())
}

func assumptionsFor(e *env, prop string) []string {
	r := []string{
		"go/ssa of the working tree, built with tags noasm,purego; reflect, sync, bytealg, fmt and strings.Title are modelled by the engine",
		"int is 64 bits; heap addresses of distinct objects are distinct; garbage collection is not modelled",
		"compress/zlib is replaced by a toy codec with the same interface while executing symbolically; counterexamples are replayed with the real one",
	}
	b, err := os.ReadFile(filepath.Join(e.verif, "harness", "bounds.json"))
	if err == nil {
		var m map[string][]string
		if json.Unmarshal(b, &m) == nil {
			r = append(r, m[prop]...)
		}
	}
	return r
}

func pickSolver(s string) string {
	if s != "" {
		return s
	}
	for _, b := range []string{"z3-new", "z3"} {
		if _, err := exec.LookPath(b); err == nil {
			return b
		}
	}
	return "z3"
}
