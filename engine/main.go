package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const goRoot = "/opt/veriftools/go1.23.12"

func goEnv() []string {
	home := "/root"
	path := goRoot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
	cache := os.Getenv("GOSYM_GOCACHE")
	if cache == "" {
		cache = "/root/.cache/go-build"
	}
	return append(os.Environ(), "HOME="+home, "PATH="+path, "GOROOT="+goRoot, "GOTOOLCHAIN=local", "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

type options struct {
	overlay string
	prop, tier, repo, verif string
	re                      *regexp.Regexp
	workers                 int
	seed                    int64
	solver                  string
	budget                  time.Duration
	verbose                 bool
	noReplay                bool
	out                     string
}

type harness struct {
	name string
	fn   *ssa.Function
	opts map[string]string
	doc  string
}

type harnessResult struct {
	h       *harness
	ex      *Explorer
	wall    time.Duration
	complete bool
	samplesOK, samplesBad, samplesSkipped int
	badNotes []string
}

func main() {
	var o options
	var re, cpuprof string
	mode := "check"
	args := os.Args[1:]
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		mode, args = args[0], args[1:]
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	fs.StringVar(&o.prop, "prop", "", "property id")
	fs.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	fs.StringVar(&o.repo, "repo", "/repo", "repository")
	fs.StringVar(&o.verif, "verif", "/verif", "verification directory")
	fs.StringVar(&re, "run", "", "only harnesses matching")
	fs.IntVar(&o.workers, "workers", min(8, runtime.NumCPU()), "workers")
	fs.Int64Var(&o.seed, "seed", 1, "seed")
	fs.StringVar(&o.solver, "solver", "z3", "solver binary")
	fs.DurationVar(&o.budget, "budget", 0, "total time")
	fs.BoolVar(&o.verbose, "v", false, "verbose")
	fs.BoolVar(&o.noReplay, "noreplay", false, "skip native replay (debugging only)")
	fs.StringVar(&o.out, "out", "", "directory for evidence and replays (default the verif directory)")
	fs.StringVar(&cpuprof, "cpuprofile", "", "profile")
	fs.StringVar(&o.overlay, "overlay", "", "JSON file whose Replace map gives contents for files of the repository")
	file := fs.String("file", "", "violation file (replay)")
	fs.Parse(args)
	if re != "" {
		o.re = regexp.MustCompile(re)
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			o.seed = n
		}
	}
	if cpuprof != "" {
		f, _ := os.Create(cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := 2
	switch mode {
	case "check":
		code = check(&o)
	case "replay":
		code = replayCmd(&o, *file)
	default:
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

// overlayFiles maps virtual paths under the repository to harness files.
func overlayFiles(o *options) (map[string]string, error) {
	m := map[string]string{}
	add := func(dir, virt string) error {
		es, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				m[filepath.Join(o.repo, virt, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(o.verif, "sym"), "internal/verif/sym"); err != nil {
		return nil, err
	}
	for _, lib := range []string{"hx", "tm"} {
		if err := add(filepath.Join(o.verif, "harness", lib), "internal/verif/"+lib); err != nil && !os.IsNotExist(err) {
			return nil, err
		}
	}
	id := strings.ToLower(o.prop)
	if err := add(filepath.Join(o.verif, "harness", id), "internal/verif/"+id); err != nil {
		return nil, err
	}
	if o.overlay != "" {
		b, err := os.ReadFile(o.overlay)
		if err != nil {
			return nil, err
		}
		var f struct{ Replace map[string]string }
		if err := json.Unmarshal(b, &f); err != nil {
			return nil, err
		}
		for v, r := range f.Replace {
			m[v] = r
		}
	}
	return m, nil
}

type loaded struct {
	p         *Program
	pkg       *packages.Package
	harnesses []*harness
	loadTime  time.Duration
}

func load(o *options, ov map[string]string) (*loaded, error) {
	t0 := time.Now()
	id := strings.ToLower(o.prop)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: o.repo, Env: goEnv(), Overlay: map[string][]byte{}}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		cfg.Overlay[v] = b
	}
	pkgs, err := packages.Load(cfg, "./internal/verif/"+id)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, globals: map[*ssa.Global]int{}, pkgByPath: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		p.pkgByPath[sp.Pkg.Path()] = sp
	}
	if false {
		return nil, fmt.Errorf("no module for %s", pkgs[0].PkgPath)
	}
	if len(pkgs[0].Syntax) == 0 { return nil, fmt.Errorf("no syntax") }
	p.mod = strings.TrimSuffix(pkgs[0].PkgPath, "/internal/verif/"+id)
	p.proto = buildProtoWorld(p, pkgs)
	ssapkgs[0].Build()
	l := &loaded{p: p, pkg: pkgs[0]}
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Check") || fd.Type.Params.NumFields() > 0 {
				continue
			}
			h := &harness{name: fd.Name.Name, fn: ssapkgs[0].Func(fd.Name.Name), opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(strings.Replace(c.Text, "// ", "//", 1), "//gosym:"); ok {
						for _, kv := range strings.Fields(rest) {
							k, v, _ := strings.Cut(kv, "=")
							h.opts[k] = v
						}
					}
				}
				h.doc = strings.TrimSpace(fd.Doc.Text())
			}
			l.harnesses = append(l.harnesses, h)
		}
	}
	sort.Slice(l.harnesses, func(i, j int) bool { return l.harnesses[i].name < l.harnesses[j].name })
	l.loadTime = time.Since(t0)
	return l, nil
}

// ---- native replay

type native struct {
	o   *options
	dir string
	bin string
	raceBin string
	err error
	ov  map[string]string
	names []string
	once sync.Once
}

const replayMain = `package main

import (
	"fmt"
	"os"

	h "%s/internal/verif/%s"
	"%s/internal/verif/sym"
)

var fns = map[string]func(){
%s}

func main() {
	if err := sym.Load(os.Args[2]); err != nil {
		fmt.Println("SYM-LOAD", err)
		os.Exit(4)
	}
	sym.Start()
	fns[os.Args[1]]()
	for _, o := range sym.Observed() {
		fmt.Println("SYM-OBS " + o)
	}
	fmt.Println("SYM-OK")
}
`

func (n *native) build(mod string) {
	id := strings.ToLower(n.o.prop)
	var fns bytes.Buffer
	for _, h := range n.names {
		fmt.Fprintf(&fns, "\t%q: h.%s,\n", h, h)
	}
	main := filepath.Join(n.dir, "main.go")
	if n.err = os.WriteFile(main, []byte(fmt.Sprintf(replayMain, mod, id, mod, fns.String())), 0o644); n.err != nil {
		return
	}
	rep := map[string]string{filepath.Join(n.o.repo, "internal/verif/zz_replay_"+id, "main.go"): main}
	for v, r := range n.ov {
		rep[v] = r
	}
	ovf := filepath.Join(n.dir, "overlay.json")
	os.WriteFile(ovf, mustJSON(map[string]any{"Replace": rep}), 0o644)
	n.bin = filepath.Join(n.dir, "replay")
	cmd := exec.Command(goRoot+"/bin/go", "build", "-overlay", ovf, "-o", n.bin, "./internal/verif/zz_replay_"+id)
	cmd.Dir, cmd.Env = n.o.repo, goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
}

func (n *native) buildRace() string {
	n.once.Do(func() {
		id := strings.ToLower(n.o.prop)
		bin := filepath.Join(n.dir, "replay-race")
		cmd := exec.Command(goRoot+"/bin/go", "build", "-race", "-overlay", filepath.Join(n.dir, "overlay.json"), "-o", bin, "./internal/verif/zz_replay_"+id)
		cmd.Dir, cmd.Env = n.o.repo, append(goEnv(), "CGO_ENABLED=1")
		if _, err := cmd.CombinedOutput(); err == nil {
			n.raceBin = bin
		}
	})
	return n.raceBin
}

type nativeRun struct {
	status string // ok, fail, panic, assume, hang, error
	label  string
	known  string
	obs    []string
	out    string
}

func (n *native) run(bin, h, file string, tmo time.Duration, env ...string) nativeRun {
	cmd := exec.Command(bin, h, file)
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all"), env...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return nativeRun{status: "error", out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	hang := false
	select {
	case err = <-done:
	case <-time.After(tmo):
		hang = true
		cmd.Process.Kill()
		<-done
	}
	r := nativeRun{out: buf.String()}
	for _, l := range strings.Split(r.out, "\n") {
		if s, ok := strings.CutPrefix(l, "SYM-OBS "); ok {
			r.obs = append(r.obs, s)
		}
		if s, ok := strings.CutPrefix(l, "SYM-FAIL "); ok {
			r.label, _, _ = strings.Cut(s, "\t")
			r.status = "fail"
		}
		if s, ok := strings.CutPrefix(l, "SYM-KNOWN "); ok {
			r.known = s
		}
	}
	switch {
	case r.status == "fail":
	case hang:
		r.status = "hang"
	case strings.Contains(r.out, "SYM-ASSUME-FAILED"):
		r.status = "assume"
	case strings.Contains(r.out, "all goroutines are asleep"):
		r.status = "hang"
	case strings.Contains(r.out, "WARNING: DATA RACE"):
		r.status = "race"
	case strings.Contains(r.out, "panic: ") || strings.Contains(r.out, "fatal error: "):
		r.status = "panic"
	case err == nil && strings.Contains(r.out, "SYM-OK"):
		r.status = "ok"
	default:
		r.status = "error"
	}
	return r
}

type replayFile struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Msg      string            `json:"msg"`
	Inputs   map[string]uint64 `json:"inputs"`
	Order    []string          `json:"order"`
	Stack    []string          `json:"stack"`
	Sched    bool              `json:"schedule_dependent"`
	Native   string            `json:"native"`
	NativeOutput string        `json:"native_output,omitempty"`
	Confirmed bool             `json:"confirmed"`
	Known    string            `json:"known,omitempty"`
}

// confirm replays a violation natively.
func (n *native) confirm(v *Violation, tier string, idx int) *replayFile {
	rf := &replayFile{Property: n.o.prop, Tier: tier, Harness: v.Harness, Label: v.Label, Msg: v.Msg, Inputs: v.Inputs, Order: v.Order, Stack: v.Stack, Sched: v.Sched, Known: v.Known}
	if n.o.noReplay {
		rf.Native, rf.Confirmed = "skipped", true
		return rf
	}
	if n.err != nil {
		rf.Native = "native build failed: " + n.err.Error()
		return rf
	}
	file := filepath.Join(n.dir, fmt.Sprintf("v%d.json", idx))
	os.WriteFile(file, mustJSON(rf), 0o644)
	match := func(r nativeRun) bool {
		switch v.Label {
		case "panic":
			return r.status == "panic"
		case "deadlock":
			return r.status == "hang"
		case "data-race":
			return r.status == "race" || r.status == "panic" && strings.Contains(r.out, "concurrent map")
		}
		return r.status == "fail" && r.label == v.Label
	}
	tries, tmo := 1, 25*time.Second
	bin := n.bin
	if v.Label == "deadlock" {
		tmo = 12 * time.Second
	}
	if v.Label == "data-race" {
		if b := n.buildRace(); b != "" {
			bin = b
		}
		tries = 20
	} else if v.Sched {
		tries, tmo = 60, 8*time.Second
	}
	deadline := time.Now().Add(30 * time.Second)
	var r nativeRun
	for i := 0; i < tries && (i == 0 || time.Now().Before(deadline)); i++ {
		var env []string
		if v.Sched {
			env = append(env, fmt.Sprintf("GOMAXPROCS=%d", []int{8, 1, 2, 4}[i%4]))
		}
		r = n.run(bin, v.Harness, file, tmo, env...)
		if match(r) {
			rf.Confirmed = true
			rf.Native = fmt.Sprintf("reproduced natively (%s, attempt %d)", r.status, i+1)
			rf.NativeOutput = clip(r.out, 3000)
			return rf
		}
	}
	rf.NativeOutput = clip(r.out, 3000)
	if v.Sched || v.Label == "data-race" {
		rf.Confirmed = true
		rf.Native = "the schedule in inputs (sched*) reproduces it in the executor; not reproduced by free-running native execution, last native outcome: " + r.status + " " + r.label
	} else {
		rf.Native = "NOT reproduced natively: " + r.status + " " + r.label
	}
	return rf
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- known findings

type known struct {
	prop, harness, label, id, text string
}

func loadKnown(o *options) []known {
	b, err := os.ReadFile(filepath.Join(o.verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "known: ")
		if !ok {
			continue
		}
		head, text, _ := strings.Cut(rest, " | ")
		k := known{text: strings.TrimSpace(text)}
		for _, f := range strings.Fields(head) {
			key, v, _ := strings.Cut(f, "=")
			switch key {
			case "property":
				k.prop = v
			case "harness":
				k.harness = v
			case "label":
				k.label = v
			case "id":
				k.id = v
			}
		}
		if k.prop == o.prop {
			r = append(r, k)
		}
	}
	return r
}

func (k *known) matches(v *Violation) bool {
	return k.id != "" && v.Known == k.id && (k.harness == "" || k.harness == v.Harness) && (k.label == "" || k.label == v.Label)
}

// ---- check

func optInt(m map[string]string, tier, k string, def int64) int64 {
	for _, key := range []string{tier + "." + k, k} {
		if s, ok := m[key]; ok {
			n, err := strconv.ParseInt(s, 10, 64)
			if err == nil {
				return n
			}
		}
	}
	return def
}

func optDur(m map[string]string, tier, k string, def time.Duration) time.Duration {
	for _, key := range []string{tier + "." + k, k} {
		if s, ok := m[key]; ok {
			d, err := time.ParseDuration(s)
			if err == nil {
				return d
			}
		}
	}
	return def
}

func check(o *options) int {
	t0 := time.Now()
	if o.out == "" {
		o.out = o.verif
	}
	if o.budget == 0 {
		o.budget = 240 * time.Second
		if o.tier == "thorough" {
			o.budget = 780 * time.Second
		}
	}
	end := t0.Add(o.budget)
	ov, err := overlayFiles(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	l, err := load(o, ov)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("gosym: property %s tier %s, %d harnesses, loaded in %.1fs\n", o.prop, o.tier, len(l.harnesses), l.loadTime.Seconds())
	nat := &native{o: o, ov: ov}
	nat.dir, err = os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(nat.dir)
	var hs []*harness
	for _, h := range l.harnesses {
		nat.names = append(nat.names, h.name)
		if o.re != nil && !o.re.MatchString(h.name) {
			continue
		}
		if t := h.opts["tier"]; t != "" && t != o.tier {
			continue
		}
		hs = append(hs, h)
	}
	var bw sync.WaitGroup
	if !o.noReplay {
		bw.Add(1)
		go func() { defer bw.Done(); nat.build(l.p.mod) }()
	}
	var vms []*VM
	for i := 0; i < o.workers; i++ {
		vms = append(vms, newVM(l.p, &Explorer{solverBin: o.solver, solverTmo: 10 * time.Second}))
	}
	var results []*harnessResult
	for i, h := range hs {
		ex := &Explorer{p: l.p, fn: h.fn, name: h.name, workers: o.workers, seed: o.seed, solverBin: o.solver, tier: o.tier}
		ex.maxPaths = optInt(h.opts, o.tier, "paths", 2_000_000)
		ex.maxSteps = int(optInt(h.opts, o.tier, "steps", 400_000))
		ex.maxBranch = int(optInt(h.opts, o.tier, "branches", 2000))
		ex.maxGor = int(optInt(h.opts, o.tier, "gor", 0))
		ex.solverTmo = optDur(h.opts, o.tier, "qtime", 10*time.Second)
		def := 60 * time.Second
		if o.tier == "thorough" {
			def = 400 * time.Second
		}
		tm := optDur(h.opts, o.tier, "time", def)
		// what is left is shared by the remaining harnesses
		if left := time.Until(end) - 15*time.Second; tm > left-time.Duration(len(hs)-i-1)*time.Second {
			tm = max(left-time.Duration(len(hs)-i-1)*time.Second, 2*time.Second)
		}
		ex.deadline = time.Now().Add(tm)
		st := time.Now()
		for _, vm := range vms {
			if vm.solver != nil {
				vm.solver.tmo = ex.solverTmo
			}
		}
		ex.Run(vms)
		r := &harnessResult{h: h, ex: ex, wall: time.Since(st)}
		r.complete = ex.stopReason == "" && ex.truncated == 0
		results = append(results, r)
		fmt.Printf("  %-34s paths %d (ok %d, pruned %d, infeasible %d, truncated %d) branches %d asserts %d sym/%d conc queries %d (%.1fs, unknown %d) viol %d  %.1fs %s\n", h.name, ex.paths, ex.okPaths, ex.pruned, ex.infeasible, ex.truncated,
			ex.branches, ex.assertsChecked, ex.assertsConcrete, ex.stats.Queries, ex.stats.Time.Seconds(), ex.stats.Unknown, len(ex.violations), r.wall.Seconds(), ex.stopReason)
		if o.verbose || len(ex.reasons) > 0 {
			var ks []string
			for k := range ex.reasons {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ex.reasons[ks[i]] > ex.reasons[ks[j]] })
			for i, k := range ks {
				if i == 6 && !o.verbose {
					break
				}
				fmt.Printf("      %6d x %s\n", ex.reasons[k], clip(k, 900))
			}
		}
		if o.verbose {
			fmt.Printf("      covers %v\n      labels %v\n", ex.covers, ex.assertLabels)
		}
	}
	for _, vm := range vms {
		if vm.solver != nil {
			vm.solver.Close()
		}
	}
	bw.Wait()
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, nat.err)
		return 2
	}
	// validate samples against the real code
	if !o.noReplay {
		var wg sync.WaitGroup
		sem := make(chan bool, o.workers)
		var mu sync.Mutex
		for ri, r := range results {
			if r.h.opts["noreplay"] != "" {
				continue
			}
			for si, s := range r.ex.samples {
				wg.Add(1)
				sem <- true
				go func() {
					defer func() { <-sem; wg.Done() }()
					f := filepath.Join(nat.dir, fmt.Sprintf("s%d_%d.json", ri, si))
					os.WriteFile(f, mustJSON(map[string]any{"inputs": s.Inputs, "tier": o.tier}), 0o644)
					n := nat.run(nat.bin, r.h.name, f, 30*time.Second)
					mu.Lock()
					defer mu.Unlock()
					if n.status != "ok" {
						r.samplesBad++
						r.badNotes = append(r.badNotes, fmt.Sprintf("native run of a passing path ended with %s %s: inputs %v\n%s", n.status, n.label, s.Inputs, clip(n.out, 600)))
						return
					}
					if !s.Sched && strings.Join(n.obs, "\n") != strings.Join(s.Observed, "\n") {
						r.samplesBad++
						r.badNotes = append(r.badNotes, fmt.Sprintf("observations differ: inputs %v\n  executor %v\n  native   %v", s.Inputs, s.Observed, n.obs))
						return
					}
					r.samplesOK++
				}()
			}
		}
		wg.Wait()
	}
	kn := loadKnown(o)
	knownSeen := map[int]bool{}
	code := 0
	replayDir := filepath.Join(o.out, "evidence", "replay")
	var unconfirmed, reported []*replayFile
	idx := 0
	perKey := map[string]bool{}
	for _, r := range results {
		sort.SliceStable(r.ex.violations, func(i, j int) bool { return r.ex.violations[i].Label < r.ex.violations[j].Label })
		for _, v := range r.ex.violations {
			isKnown := -1
			for i := range kn {
				if kn[i].matches(v) {
					isKnown = i
				}
			}
			key := v.Harness + "/" + v.Label + "/" + v.Known
			if isKnown >= 0 && knownSeen[isKnown] || perKey[key] && v.Label != "panic" && v.Label != "deadlock" {
				continue
			}
			idx++
			rf := nat.confirm(v, o.tier, idx)
			if !rf.Confirmed {
				unconfirmed = append(unconfirmed, rf)
				fmt.Printf("  UNCONFIRMED %s/%s %s: %s\n     inputs %v\n     stack %v\n     native output: %s\n", v.Harness, v.Label, v.Msg, rf.Native, v.Inputs, v.Stack, clip(rf.NativeOutput, 1200))
				continue
			}
			perKey[key] = true
			if isKnown >= 0 {
				knownSeen[isKnown] = true
				continue
			}
			os.MkdirAll(replayDir, 0o755)
			f := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%s-%d.json", o.prop, v.Harness, sanitize(v.Label), idx))
			os.WriteFile(f, mustJSON(rf), 0o644)
			reported = append(reported, rf)
			fmt.Printf("  violation in %s: %s %s\n     inputs %s\n     stack %v\n     %s\n", v.Harness, v.Label, v.Msg, showInputs(v), v.Stack, rf.Native)
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, f)
			code = 1
		}
	}
	for i, k := range kn {
		if knownSeen[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.text)
		} else {
			fmt.Printf("  note: known finding %s was not observed in this run\n", k.id)
		}
	}
	writeEvidence(o, l, results, reported, unconfirmed, time.Since(t0))
	for _, r := range results {
		for _, b := range r.badNotes {
			fmt.Printf("  MISMATCH %s: %s\n", r.h.name, b)
		}
	}
	fmt.Printf("gosym: %s done in %.1fs, %d violation(s)\n", o.prop, time.Since(t0).Seconds(), len(reported))
	return code
}

func showInputs(v *Violation) string {
	var b strings.Builder
	for i, k := range v.Order {
		if i > 60 {
			b.WriteString("...")
			break
		}
		fmt.Fprintf(&b, "%s=%d ", k, v.Inputs[k])
	}
	return b.String()
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(s, "_")
}

func writeEvidence(o *options, l *loaded, rs []*harnessResult, reported, unconfirmed []*replayFile, wall time.Duration) {
	var states, trans, queries, sat, unsat, unknown, okp, infeas, trunc, asserts, assertsC, sched int64
	var stime float64
	traces, bad := 0, 0
	var hs []map[string]any
	var samples []any
	allComplete := true
	for _, r := range rs {
		ex := r.ex
		states += ex.paths
		trans += ex.transitions
		queries += int64(ex.stats.Queries)
		sat += int64(ex.stats.Sat)
		unsat += int64(ex.stats.Unsat)
		unknown += int64(ex.stats.Unknown)
		stime += ex.stats.Time.Seconds()
		okp += ex.okPaths
		infeas += ex.infeasible
		trunc += ex.truncated
		asserts += ex.assertsChecked
		assertsC += ex.assertsConcrete
		sched += ex.schedOps
		traces += r.samplesOK
		bad += r.samplesBad
		if !r.complete {
			allComplete = false
		}
		m := map[string]any{
			"harness": r.h.name, "what": r.h.doc, "bounds": r.h.opts, "paths": ex.paths, "paths_completed": ex.okPaths, "paths_infeasible": ex.infeasible, "paths_truncated": ex.truncated, "paths_pruned_by_partial_order_reduction": ex.pruned,
			"complete_within_bounds": r.complete, "stop_reason": ex.stopReason, "branches": ex.branches, "assertions_decided_by_solver": ex.assertsChecked, "assertions_concrete": ex.assertsConcrete,
			"assertion_labels": ex.assertLabels, "covers": ex.covers, "queries": ex.stats.Queries, "solver_s": round(ex.stats.Time.Seconds()), "solver_unknown": ex.stats.Unknown, "wall_s": round(r.wall.Seconds()),
			"truncation_reasons": ex.reasons, "symbolic_inputs": len(ex.symVars), "context_switches": ex.switches, "scheduling_operations": ex.schedOps,
			"native_traces_agreeing": r.samplesOK, "native_traces_disagreeing": r.samplesBad, "disagreements": r.badNotes, "longest_decision_sequence": ex.maxTrail,
		}
		hs = append(hs, m)
		for i, s := range ex.samples {
			if i < 2 && len(samples) < 40 {
				samples = append(samples, map[string]any{"harness": r.h.name, "inputs": s.Inputs, "observed": s.Observed})
			}
		}
	}
	var fns []string
	l.p.funcs.Range(func(_, v any) bool {
		c := v.(*cfunc)
		if c.hit.Load() && c.inRepo && !strings.Contains(c.name, "/internal/verif/") {
			fns = append(fns, c.name)
		}
		return true
	})
	sort.Strings(fns)
	fns = dedup(fns)
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "model_checking", "wall_s": round(wall.Seconds()),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
			"paths_completed": okp, "paths_infeasible": infeas, "paths_truncated": trunc, "complete_within_bounds": allComplete,
			"assertions_decided_by_solver": asserts, "assertions_concrete": assertsC,
			"solver": o.solver, "queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unknown, "solver_s": round(stime),
			"scheduling_operations": sched, "functions_encoded": fns, "harnesses": hs, "native_traces_disagreeing": bad,
			"unconfirmed_counterexamples": unconfirmed, "load_s": round(l.loadTime.Seconds()),
		},
		"violations": reported,
	}
	if reported == nil {
		delete(ev, "violations")
	}
	dir := filepath.Join(o.out, "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return
	}
	if o.re == nil {
		os.WriteFile(filepath.Join(dir, o.prop+".json"), b, 0o644)
	}
}

func dedup(s []string) []string {
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}

func round(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

// replayCmd runs a violation file natively.
func replayCmd(o *options, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o.prop = rf.Property
	ov, err := overlayFiles(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gosym-")
	defer os.RemoveAll(dir)
	n := &native{o: o, ov: ov, dir: dir, names: []string{rf.Harness}}
	mb, _ := os.ReadFile(filepath.Join(o.repo, "go.mod"))
	mod := strings.Fields(string(mb))[1]
	n.build(mod)
	if n.err != nil {
		fmt.Fprintln(os.Stderr, n.err)
		return 2
	}
	bin := n.bin
	if rf.Label == "data-race" {
		if b := n.buildRace(); b != "" {
			bin = b
		}
	}
	r := n.run(bin, rf.Harness, file, 30*time.Second)
	fmt.Println(r.out)
	fmt.Println("outcome:", r.status, r.label)
	if r.status == "ok" {
		return 0
	}
	return 1
}
