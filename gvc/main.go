package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	fRepo  = flag.String("repo", "/repo", "repository under verification")
	fVerif = flag.String("verif", "/verif", "verification directory")
	fProp  = flag.String("prop", "", "property to check")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fV     = flag.Bool("v", false, "verbose")
	fDump  = flag.String("dump", "", "dump failing scripts into this directory")
	fOnly  = flag.String("only", "", "only obligations whose label contains this")
	fNoRep = flag.Bool("noreplay", false, "skip replay")
	fSecs  = flag.Int("secs", 20, "solver seconds per attempt")
)

func main() {
	debug.SetMaxStack(4 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc check|fn|ssa|funcs|lint ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	if pf := os.Getenv("GVC_PROF"); pf != "" {
		if f, err := os.Create(pf); err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
			go func() { time.Sleep(100 * time.Second); pprof.StopCPUProfile() }()
		}
	}
	flag.CommandLine.Parse(os.Args[2:])
	if *fTier == "thorough" {
		*fSecs = *fSecs * 3
	}
	switch cmd {
	case "check":
		os.Exit(runCheck(*fProp))
	case "fn":
		os.Exit(runFns(flag.Args()))
	case "ssa":
		p, err := Load(*fRepo)
		die(err)
		for _, n := range flag.Args() {
			f := p.funcs[n]
			if f == nil {
				fmt.Println("no function", n)
				continue
			}
			f.WriteTo(os.Stdout)
		}
	case "funcs":
		p, err := Load(*fRepo)
		die(err)
		var ns []string
		for n := range p.funcs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n)
		}
	case "lint":
		sp, err := LoadSpec(filepath.Join(*fVerif, "contracts"))
		die(err)
		n := 0
		for _, c := range sp.contracts {
			n += len(c.clauses)
		}
		fmt.Printf("%d contracts, %d function types, %d clauses\n", len(sp.contracts), len(sp.functypes), n)
	case "replay":
		// runs the replay harnesses of a property (all given) against the repository
		rc := 0
		for _, a := range flag.Args() {
			for _, h := range harnesses(a) {
				f, out := runHarness(a, h)
				ok := strings.Contains(out, "\nok  ") || strings.HasPrefix(out, "ok  ")
				fmt.Printf("%s %s failed=%v ran=%v\n", a, filepath.Base(h.file), f, ok)
				if f || !ok {
					fmt.Println(trunc(out, 3000))
					rc = 1
				}
			}
		}
		os.Exit(rc)
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc:", err)
		os.Exit(2)
	}
}

// solveAll decides obligations in parallel; once a label has failed, further
// instances of it are skipped.
func solveAll(obls []*Obl) {
	scripts := make([]string, len(obls))
	near := make([][]string, len(obls)) // the same with only the facts near the goal
	for i, o := range obls {
		if o.goal == True {
			o.res = SolveRes{status: "unsat", solver: "simplifier"}
			continue
		}
		scripts[i] = buildScript(append(append([]*T{}, o.pc...), Not(o.goal)))
		for h := 1; h <= 2; h++ {
			if as, cut := nearFacts(o.pc, o.goal, h); cut {
				near[i] = append(near[i], buildScript(append(as, Not(o.goal))))
			}
		}
	}
	var mu sync.Mutex
	failed := map[string]bool{}
	parallel(len(obls), 8, func(i int) {
		o := obls[i]
		if o.res.status != "" {
			return
		}
		key := o.fn + "/" + o.label
		mu.Lock()
		sk := failed[key]
		mu.Unlock()
		if sk {
			o.res = SolveRes{status: "skipped"}
			return
		}
		o.script = scripts[i]
		for _, sc := range near[i] {
			t0 := time.Now()
			if st, _ := runSolver(z3bin, []string{"-in", "-smt2"}, "(set-option :timeout 4000)\n"+sc+"(check-sat)\n", 6*time.Second); st == "unsat" {
				o.res = SolveRes{st, z3bin, "", time.Since(t0)}
				return
			}
		}
		o.res = Solve(scripts[i], *fSecs)
		if o.res.status != "unsat" {
			mu.Lock()
			failed[key] = true
			mu.Unlock()
		}
	})
}

func runFns(names []string) int {
	sp, err := LoadSpec(filepath.Join(*fVerif, "contracts"))
	die(err)
	t0 := time.Now()
	p, err := Load(*fRepo)
	die(err)
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	feas := NewFeas()
	defer feas.Close()
	rc := 0
	var all []string
	for n, c := range sp.contracts {
		if c.kind != "func" {
			continue
		}
		for _, pat := range names {
			if n == pat || strings.HasSuffix(n, "."+pat) || strings.HasPrefix(pat, "@") && contains(c.props, pat[1:]) || pat == "all" {
				all = append(all, n)
				break
			}
		}
	}
	sort.Strings(all)
	for _, n := range all {
		t0 := time.Now()
		q0 := feas.queries
		r, err := VerifyFn(p, sp, feas, sp.contracts[n])
		if err != nil {
			fmt.Printf("%s: SPEC ERROR %v\n", n, err)
			rc = 1
			continue
		}
		te := time.Since(t0)
		var obls []*Obl
		for _, o := range r.obls {
			if *fOnly == "" || strings.Contains(o.label, *fOnly) {
				obls = append(obls, o)
			}
		}
		solveAll(obls)
		bad := 0
		var maxd time.Duration
		for _, o := range obls {
			if o.res.status != "unsat" {
				bad++
			}
			if o.res.dur > maxd {
				maxd = o.res.dur
			}
		}
		fmt.Printf("%s: paths ret=%d pan=%d steps=%d queries=%d exec %.1fs; obligations %d failed %d; solve %.1fs (max %.1fs)\n", n, r.retPaths, r.panicPaths, r.steps, feas.queries-q0, te.Seconds(), len(obls), bad, time.Since(t0).Seconds()-te.Seconds(), maxd.Seconds())
		if r.missing {
			fmt.Println("   MISSING FUNCTION")
			rc = 1
		}
		if r.abort != "" {
			fmt.Println("   ABORT", r.abort)
			rc = 1
		}
		for _, u := range r.unsup {
			fmt.Println("   over-approximated:", u)
		}
		if *fV {
			for _, u := range r.assumed {
				fmt.Println("   assumes:", u)
			}
			for _, u := range r.used {
				fmt.Println("   uses contract:", u)
			}
			lab := map[string]int{}
			for _, o := range obls {
				lab[o.kind+" "+o.label]++
			}
			for _, k := range sortedKeys(lab) {
				fmt.Printf("   %4d %s\n", lab[k], k)
			}
		}
		for i, o := range obls {
			if o.res.status == "unsat" || o.res.status == "skipped" {
				continue
			}
			rc = 1
			fmt.Printf("   FAILED %s %s [%s] %s\n", o.kind, o.label, o.res.status, o.src)
			for _, s := range o.path {
				fmt.Println("        ", s)
			}
			if *fV {
				fmt.Println("      goal:", Show(o.goal))
				for _, t := range o.pc {
					fmt.Println("      pc:", Show(t))
				}
			}
			if *fDump != "" {
				os.WriteFile(filepath.Join(*fDump, fmt.Sprintf("o%d.smt2", i)), []byte(o.script+"(check-sat)\n(get-model)\n"), 0644)
			}
		}
	}
	return rc
}

type finding struct {
	kind, prop, obl, text string
}

func loadFindings(dir string) []finding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k, rest, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		f := finding{kind: strings.TrimSpace(k)}
		rest = strings.TrimSpace(rest)
		for {
			w, r, _ := strings.Cut(rest, " ")
			if strings.HasPrefix(w, "property=") {
				f.prop = w[9:]
			} else if strings.HasPrefix(w, "obligation=") {
				f.obl = w[11:]
			} else {
				break
			}
			rest = strings.TrimSpace(r)
		}
		f.text = rest
		out = append(out, f)
	}
	return out
}

func oblName(o *Obl) string { return strings.ReplaceAll(o.fn+"/"+o.label, " ", "_") }

// relevant decides whether an obligation belongs to the check of prop.
func relevant(o *Obl, prop string, usedAsCallee bool) bool {
	if len(o.props) == 0 {
		return true
	}
	if contains(o.props, prop) {
		return true
	}
	return usedAsCallee && o.kind == "ensures"
}

func runCheck(prop string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sp, err := LoadSpec(filepath.Join(*fVerif, "contracts"))
	die(err)
	p, err := Load(*fRepo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gvc: the repository does not load:", err)
		return 2
	}
	feas := NewFeas()
	defer feas.Close()

	var roots []string
	for n, c := range sp.contracts {
		if c.kind == "func" && contains(c.props, prop) {
			roots = append(roots, n)
		}
	}
	sort.Strings(roots)
	guarded := autoGuardContracts(p, sp, prop)
	// a property that is nothing but a lock discipline: every function touching a
	// guarded table is a root, and what the functions it calls promise beyond that
	// does not matter to who holds which lock
	lockOnly := len(roots) == 0 && len(guarded) > 0
	roots = append(roots, guarded...)
	var fails []failure
	for _, w := range append(checkStable(p, sp), checkAtomic(p, sp, prop)...) {
		fails = append(fails, failure{name: "stable/" + w.name, detail: w.detail})
	}
	type job struct{ name string }
	done := map[string]*FnResult{}
	callee := map[string]bool{}
	var order []string
	work := append([]string(nil), roots...)
	var allObls []*Obl
	owner := map[*Obl]string{}
	var assumed = map[string]bool{}
	var unsup = map[string]bool{}
	externs := map[string]bool{}
	queries := 0
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if done[n] != nil {
			continue
		}
		c := sp.contracts[n]
		r, err := VerifyFn(p, sp, feas, c)
		if err != nil {
			// the contract no longer fits the code (a field or parameter it names is gone)
			r = &FnResult{name: n, abort: "contract does not apply to the current code: " + err.Error()}
		}
		done[n] = r
		order = append(order, n)
		if r.missing {
			fails = append(fails, failure{name: n + "/function_exists", detail: "the function under contract does not exist in the current source; no obligation about it can be generated"})
			continue
		}
		if r.abort != "" {
			fails = append(fails, failure{name: n + "/verification_completes", detail: r.abort})
			if len(r.obls) == 0 {
				continue
			}
		}
		if r.retPaths == 0 && !c.flags["noreturn"] && r.abort == "" {
			fails = append(fails, failure{name: n + "/returns_on_some_path", detail: "no path reaches a normal return, so the contract would hold vacuously"})
		}
		for _, u := range r.used {
			uc := sp.contracts[u]
			if uc == nil {
				uc = sp.functypes[u]
			}
			if uc == nil {
				continue
			}
			if uc.kind == "func" {
				if lockOnly && !contains(roots, u) {
					externs["contract of "+u+", proved by the checks of "+strings.Join(uc.props, ", ")] = true
				} else if !uc.flags["assumed"] {
					callee[u] = true
					work = append(work, u)
				} else {
					externs["assumed contract on "+u+" ("+uc.file+")"] = true
				}
			} else {
				externs["assumed contract on "+uc.kind+" "+u+" ("+uc.file+")"] = true
			}
		}
		for _, a := range r.assumed {
			assumed[a] = true
		}
		for _, a := range r.unsup {
			unsup[n+": "+a] = true
		}
		for _, o := range r.obls {
			allObls = append(allObls, o)
			owner[o] = n
		}
	}
	var obls []*Obl
	for _, o := range allObls {
		if relevant(o, prop, callee[owner[o]]) {
			obls = append(obls, o)
		}
	}
	tsolve := time.Now()
	solveAll(obls)
	solveWall := time.Since(tsolve)

	total, discharged, simp := 0, 0, 0
	bySolver := map[string]int{}
	var solverTime time.Duration
	byLabel := map[string]int{}
	failSeen := map[string]bool{}
	for _, o := range obls {
		total++
		byLabel[oblName(o)]++
		solverTime += o.res.dur
		if o.res.status == "unsat" {
			discharged++
			bySolver[o.res.solver]++
			if o.res.solver == "simplifier" {
				simp++
			}
			continue
		}
		if o.res.status == "skipped" || failSeen[oblName(o)] {
			continue
		}
		failSeen[oblName(o)] = true
		fails = append(fails, failure{name: oblName(o), detail: o.src, obl: o})
	}
	if total == 0 && len(fails) == 0 {
		fails = append(fails, failure{name: "no_obligations", detail: "no obligation was generated for this property"})
	}
	// known findings
	kf := loadFindings(*fVerif)
	var bad []failure
	known := 0
	for _, f := range fails {
		matched := false
		for _, k := range kf {
			if k.kind == "KNOWN" && k.prop == prop && k.obl == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, k.text, f.name)
				matched = true
				known++
				break
			}
		}
		if !matched {
			bad = append(bad, f)
		}
	}
	rc := 0
	var bounded map[string]interface{}
	if len(bad) > 0 {
		rc = 1
		reportFailures(prop, bad)
	} else {
		// bounded stand-ins, if the property declares any
		br := runBounded(prop)
		if br != nil {
			bounded = br.info
			if br.failed {
				rc = 1
				path := writeReplay(prop, nil, br.out)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			}
		}
	}
	// evidence
	var fns []string
	for _, n := range order {
		r := done[n]
		fns = append(fns, fmt.Sprintf("%s (%d return paths, %d panic paths, %d obligations)", n, r.retPaths, r.panicPaths, len(r.obls)))
	}
	queries = feas.queries
	var labels []string
	for _, k := range sortedKeys(byLabel) {
		labels = append(labels, fmt.Sprintf("%s x%d", k, byLabel[k]))
	}
	if len(labels) > 200 {
		labels = append(labels[:200], fmt.Sprintf("... and %d more", len(labels)-200))
	}
	trusted := []string{"gvc's translation of go/ssa to verification conditions", "go/packages and go/ssa (golang.org/x/tools v0.52.0)", "z3 5.3.2, cvc5 1.1.2", "the Go compiler and runtime"}
	trusted = append(trusted, sortedKeys(externs)...)
	ass := sortedKeys(assumed)
	ass = append(ass, "machine integers are treated as mathematical integers", "functions are verified for sequential execution; interference by other goroutines is covered by lock-discipline obligations, by havoc of unstable state between a function and the goroutines it starts, and where a contract is marked concurrent by havoc at lock acquisition")
	for _, u := range sortedKeys(unsup) {
		ass = append(ass, "over-approximated: "+u)
	}
	ass = append(ass, sp.propNotes[prop]...)
	cov := map[string]interface{}{
		"obligations": total, "discharged": discharged,
		"checker_cmd":              fmt.Sprintf("bash /verif/check.sh %s", prop),
		"trusted_base":             trusted,
		"functions_under_contract": fns,
		"obligation_labels":        labels,
		"discharged_by":            bySolver,
		"solver_seconds":           solverTime.Seconds(),
		"solver_wall_seconds":      solveWall.Seconds(),
		"path_feasibility_queries": queries,
		"path_feasibility_seconds": feas.spent.Seconds(),
		"known_findings_matched":   known,
	}
	if bounded != nil {
		cov["bounded"] = bounded
	}
	ev := map[string]interface{}{"property": prop, "tier": *fTier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": time.Since(t0).Seconds(), "violations": len(bad)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	os.WriteFile(filepath.Join(*fVerif, "evidence", prop+".json"), b, 0644)
	fmt.Printf("property=%s functions=%d obligations=%d discharged=%d (simplifier %d) failed=%d known=%d wall=%.1fs\n", prop, len(order), total, discharged, simp, len(bad), known, time.Since(t0).Seconds())
	return rc
}

type failure struct {
	name   string
	detail string
	obl    *Obl
}

func writeReplay(prop string, bad []failure, replayOut string) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", prop, os.Getpid()))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", prop)
	for _, f := range bad {
		fmt.Fprintf(&sb, "\nfailed obligation: %s\n", f.name)
		if f.detail != "" {
			fmt.Fprintf(&sb, "  clause: %s\n", f.detail)
		}
		if f.obl != nil {
			fmt.Fprintf(&sb, "  kind %s, verifier answer: %s (%s, %.1fs)\n", f.obl.kind, f.obl.res.status, f.obl.res.solver, f.obl.res.dur.Seconds())
			fmt.Fprintf(&sb, "  path through the function:\n")
			for _, s := range f.obl.path {
				fmt.Fprintf(&sb, "    %s\n", s)
			}
			fmt.Fprintf(&sb, "  goal: %s\n", Show(f.obl.goal))
			fmt.Fprintf(&sb, "  verifier output:\n%s\n", trunc(f.obl.res.out, 8000))
		}
	}
	if replayOut != "" {
		fmt.Fprintf(&sb, "\n==== replay against the real code ====\n%s\n", replayOut)
	}
	os.WriteFile(path, []byte(sb.String()), 0644)
	return path
}

func reportFailures(prop string, bad []failure) {
	for _, f := range bad {
		fmt.Printf("FAILED obligation %s: %s\n", f.name, f.detail)
	}
	confirmed := false
	out := ""
	if !*fNoRep {
		confirmed, out = runReplay(prop)
	}
	path := writeReplay(prop, bad, out)
	if confirmed {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
}

// ---------- replay harnesses ----------
// /verif/replay/<prop>/*.go : in-package test files, first line "// pkg: <dir>",
// optional "// race", "// bounded: <bound>", each holding tests TestVerif<prop>...

type harness struct {
	file, pkg string
	race      bool
	bounded   string
}

func harnesses(prop string) []harness {
	fs, _ := filepath.Glob(filepath.Join(*fVerif, "replay", prop, "*.go"))
	sort.Strings(fs)
	var out []harness
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		h := harness{file: f}
		for _, l := range strings.SplitN(string(b), "\n", 6) {
			switch {
			case strings.HasPrefix(l, "// pkg: "):
				h.pkg = strings.TrimSpace(l[8:])
			case strings.HasPrefix(l, "// race"):
				h.race = true
			case strings.HasPrefix(l, "// bounded: "):
				h.bounded = strings.TrimSpace(l[12:])
			}
		}
		if h.pkg != "" {
			out = append(out, h)
		}
	}
	return out
}

func runHarness(prop string, h harness) (failed bool, out string) {
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{filepath.Join(*fRepo, h.pkg, "zz_verif_"+filepath.Base(strings.TrimSuffix(h.file, ".go"))+"_test.go"): h.file}
	// helper files shared by harnesses of one package
	hs, _ := filepath.Glob(filepath.Join(*fVerif, "replay", "common", strings.ReplaceAll(h.pkg, "/", "_")+".go"))
	for _, c := range hs {
		rep[filepath.Join(*fRepo, h.pkg, "zz_verif_common_"+filepath.Base(strings.TrimSuffix(c, ".go"))+"_test.go")] = c
	}
	// the package's own tests are left out: only the harness runs
	own, _ := filepath.Glob(filepath.Join(*fRepo, h.pkg, "*_test.go"))
	for _, o := range own {
		rep[o] = ""
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, b, 0644)
	args := []string{"test", "-count=1", "-vet=off", "-timeout=120s", "-overlay=" + ov, "-run", "^TestVerif" + prop}
	env := append(os.Environ(), "TMPDIR="+tmp, "GOTMPDIR="+tmp, "GOMAXPROCS=8")
	if h.race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	args = append(args, "./"+h.pkg)
	c := exec.Command("timeout", append([]string{"-k", "5", "200", "go"}, args...)...)
	c.Dir = *fRepo
	c.Env = env
	o, err := c.CombinedOutput()
	s := string(o)
	if err == nil {
		return false, s
	}
	if strings.Contains(s, "[build failed]") || strings.Contains(s, "[setup failed]") {
		return false, s
	}
	// a failing input was demonstrated only if a test reported it, or the code crashed the process
	if strings.Contains(s, "--- FAIL") || strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") || strings.Contains(s, "DATA RACE") {
		return true, s
	}
	return false, s
}

func runReplay(prop string) (bool, string) {
	var sb strings.Builder
	for _, h := range harnesses(prop) {
		f, out := runHarness(prop, h)
		fmt.Fprintf(&sb, "---- %s (package %s) ----\n%s\n", filepath.Base(h.file), h.pkg, trunc(out, 20000))
		if f {
			return true, sb.String()
		}
	}
	return false, sb.String()
}

type boundedRes struct {
	failed bool
	out    string
	info   map[string]interface{}
}

func runBounded(prop string) *boundedRes {
	var res *boundedRes
	for _, h := range harnesses(prop) {
		if h.bounded == "" {
			continue
		}
		if res == nil {
			res = &boundedRes{info: map[string]interface{}{}}
		}
		f, out := runHarness(prop, h)
		st := "no violation"
		if f {
			st = "violation"
		} else if !strings.Contains(out, "ok  ") {
			st = "did not run"
		}
		res.info[filepath.Base(h.file)] = map[string]interface{}{"bound": h.bounded, "result": st, "label": "bounded, not proved"}
		res.out += out
		if f {
			res.failed = true
			return res
		}
	}
	return res
}

// checkAtomic: fields declared atomic for the property are accessed through
// sync/atomic (or methods of the synchronisation type itself) only.
func checkAtomic(p *Prog, sp *Spec, prop string) []stableFail {
	var out []stableFail
	for _, f := range p.allFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				key := fieldKey(fa)
				if !contains(sp.atomicProps[key], prop) {
					continue
				}
				if _, isNew := fa.X.(*ssa.Alloc); isNew {
					continue
				}
				for _, r := range *fa.Referrers() {
					okUse := false
					switch r := r.(type) {
					case *ssa.DebugRef:
						okUse = true
					case ssa.CallInstruction:
						c := r.Common()
						if g := c.StaticCallee(); g != nil {
							n := fnName(g)
							okUse = strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "sync.")
						}
					}
					if !okUse {
						out = append(out, stableFail{key + "_accessed_atomically_in_" + fnName(f), "field " + key + " is shared between goroutines but accessed without an atomic operation at " + p.prog.Fset.Position(r.Pos()).String()})
					}
				}
			}
		}
	}
	return out
}

type stableFail struct{ name, detail string }

// checkStable: fields declared stable are written only by the listed functions
// (or on objects under construction in the same function).
func checkStable(p *Prog, sp *Spec) []stableFail {
	var out []stableFail
	for _, f := range p.allFns {
		fn := fnName(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				key := ""
				var base ssa.Value
				switch fa := st.Addr.(type) {
				case *ssa.FieldAddr:
					key, base = fieldKey(fa), fa.X
				case *ssa.IndexAddr:
					key, base = "[]"+typeKey(st.Val.Type()), fa.X
					if pt, ok := fa.X.Type().Underlying().(*types.Slice); ok {
						key = "[]" + typeKey(pt.Elem())
					}
				default:
					continue
				}
				ws, ok := sp.stable[key]
				if !ok {
					continue
				}
				switch base.(type) {
				case *ssa.Alloc, *ssa.MakeSlice:
					continue
				}
				allowed := false
				for _, w := range ws {
					if fn == w || strings.HasPrefix(fn, w+"$") || strings.HasSuffix(fn, "."+w) || strings.Contains(fn, "."+w+"$") {
						allowed = true
					}
				}
				if !allowed {
					out = append(out, stableFail{key + "_written_in_" + fn, "field " + key + " is declared stable but written at " + p.prog.Fset.Position(st.Pos()).String()})
				}
			}
		}
	}
	return out
}
