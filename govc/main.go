package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Stats struct {
	Vcs, Discharged, Inv int
}

type Engine struct {
	c            *Ctx
	s            *Solver
	prog         *ssa.Program
	pkg          *ssa.Package
	fset         *token.FileSet
	rootFn       *ssa.Function
	models       map[string]*ssa.Function
	hooks        map[string]*ssa.Function
	invs         []*ssa.Function
	rely         *ssa.Function
	pure         map[string]bool
	guarded      map[string][]string
	atomics      map[string]bool
	lay          map[types.Type][]string
	comps        map[string]*comp
	bases        map[string]*layer
	fnTab        map[*Term]*FnVal
	fnConst      map[*ssa.Function]*Term
	globs        map[*ssa.Global]*Term
	loops        map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	boxT         map[string]types.Type
	implQ        []types.Type
	implTab      map[string]bool
	pendingFacts []*Term
	rigids       []rigid
	mapRefs      []*Term

	wl                                        []*State
	terms                                     []*State
	depth, dry, quick, steps, paths, maxPaths int
	noSolve                                   bool
	lockSeq                                   int
	lockset                                   bool
	inAtomic                                  int
	strictCover                               bool
	feasTO, invTO, proveTO                    int
	deadline                                  time.Time

	obls                                     map[string]*Obl
	covers                                   map[string]string
	stats                                    Stats
	fails                                    map[string]bool
	externals, modelUsed, entered, locksSeen map[string]bool
	loopsSeen                                int
	debug                                    int
	task                                     *Task
	log                                      strings.Builder
}

func (e *Engine) dbg(f string, a ...any) { fmt.Fprintf(os.Stderr, "["+e.task.Name+"] "+f+"\n", a...) }
func (e *Engine) fail(msg string) {
	if !e.fails[msg] {
		e.fails[msg] = true
		if e.debug > 0 {
			e.dbg("UNSUPPORTED %s", msg)
		}
	}
}
func (e *Engine) failed() bool  { return len(e.fails) > 0 }
func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

// Task is one proof task: a contract function of the overlay.
type Task struct {
	Prop, Name string
	Fn         string
	Opts       map[string]string
	fn         *ssa.Function
}

type Directives struct {
	models  map[string][]string
	hooks   map[string][]string
	invs    []string
	rely    string
	pure    []string
	guarded map[string][]string
	atomics []string
	closed  []string
	auto    map[string]string
	tasks   []*Task
}

type Loaded struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	fset     *token.FileSet
	dir      *Directives
	typeErrs []string
}

// load type-checks /repo's current tree together with the contract files and builds SSA.
func load(repo string, files []string) (*Loaded, error) {
	overlay := map[string][]byte{}
	names := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		dst := filepath.Join(repo, "zz_gv_"+filepath.Base(f))
		overlay[dst] = b
		names[dst] = f
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedDeps | packages.NeedExportFile,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     os.Environ(),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("%d packages", len(pkgs))
	}
	p := pkgs[0]
	l := &Loaded{fset: fset}
	for _, e := range p.Errors {
		l.typeErrs = append(l.typeErrs, e.Error())
	}
	if len(l.typeErrs) > 0 {
		return l, nil
	}
	if p.IllTyped {
		var bad []string
		for _, i := range p.Imports {
			if i.IllTyped {
				bad = append(bad, i.PkgPath)
			}
		}
		return nil, fmt.Errorf("package is ill typed: %v %v", bad, p.TypeErrors)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	l.prog, l.pkg = prog, spkgs[0]
	l.dir = &Directives{models: map[string][]string{}, hooks: map[string][]string{}, guarded: map[string][]string{}}
	for i, f := range p.Syntax {
		fn := p.CompiledGoFiles[i]
		if _, ok := overlay[fn]; !ok {
			continue
		}
		l.dir.scan(f)
	}
	return l, nil
}

func (d *Directives) scan(f *ast.File) {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//govc:") {
				d.free(strings.TrimPrefix(c.Text, "//govc:"))
			}
		}
	}
	for _, decl := range f.Decls {
		fd, ok := decl.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, "//govc:") {
				continue
			}
			w := strings.Fields(strings.TrimPrefix(c.Text, "//govc:"))
			rest := strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(c.Text, "//govc:"), w[0]))
			switch w[0] {
			case "model":
				d.models[rest] = append(d.models[rest], fd.Name.Name)
			case "hook":
				d.hooks[rest] = append(d.hooks[rest], fd.Name.Name)
			case "inv":
				d.invs = append(d.invs, fd.Name.Name)
			case "rely":
				d.rely = fd.Name.Name
			case "task":
				t := &Task{Prop: w[1], Name: w[2], Fn: fd.Name.Name, Opts: map[string]string{}}
				for _, o := range w[3:] {
					kv := strings.SplitN(o, "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					t.Opts[kv[0]] = kv[1]
				}
				d.tasks = append(d.tasks, t)
			}
		}
	}
}

func (d *Directives) free(s string) {
	w := strings.Fields(s)
	switch w[0] {
	case "guarded":
		for _, f := range w[2:] {
			d.guarded[w[1]] = append(d.guarded[w[1]], f)
		}
	case "pure":
		d.pure = append(d.pure, strings.Join(w[1:], " "))
	case "auto":
		d.auto = map[string]string{}
		for _, o := range w[1:] {
			k, v, ok := strings.Cut(o, "=")
			if !ok {
				v = "1"
			}
			d.auto[k] = v
		}
	case "closed", "closedw":
		for _, f := range w[1:] {
			d.closed = append(d.closed, w[0]+":"+strings.TrimPrefix(f, "f:"))
		}
	case "atomic":
		d.atomics = append(d.atomics, w[1:]...)
	}
}

func newEngine(l *Loaded, t *Task, debug int) (*Engine, error) {
	c := NewCtx()
	e := &Engine{c: c, s: NewSolver(c), prog: l.prog, pkg: l.pkg, fset: l.fset, task: t, debug: debug,
		models: map[string]*ssa.Function{}, hooks: map[string]*ssa.Function{}, pure: map[string]bool{}, guarded: map[string][]string{}, atomics: map[string]bool{},
		lay: map[types.Type][]string{}, comps: map[string]*comp{}, bases: map[string]*layer{}, fnTab: map[*Term]*FnVal{}, fnConst: map[*ssa.Function]*Term{},
		globs: map[*ssa.Global]*Term{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, boxT: map[string]types.Type{}, implTab: map[string]bool{},
		obls: map[string]*Obl{}, covers: map[string]string{}, fails: map[string]bool{}, externals: map[string]bool{}, modelUsed: map[string]bool{}, entered: map[string]bool{}, locksSeen: map[string]bool{},
		feasTO: 500, invTO: 800, proveTO: 5000, maxPaths: 1000000}
	mode := t.Opts["mode"]
	get := func(n string) (*ssa.Function, error) {
		f := l.pkg.Func(n)
		if f == nil {
			return nil, fmt.Errorf("no function %s", n)
		}
		return f, nil
	}
	// a directive function may be restricted to tasks: name suffix "__task"
	ok := func(n string) bool {
		i := strings.Index(n, "__")
		if i < 0 {
			return true
		}
		for _, s := range strings.Split(n[i+2:], "__") {
			if s == mode {
				return true
			}
		}
		return false
	}
	var err error
	for k, ns := range l.dir.models {
		for _, kk := range strings.Split(k, "|") {
			kk = strings.TrimSpace(kk)
			for _, n := range ns {
				// a mode's own model wins over a general one
				if ok(n) && (e.models[kk] == nil || strings.Contains(n, "__")) {
					if e.models[kk], err = get(n); err != nil {
						return nil, err
					}
				}
			}
		}
	}
	for k, ns := range l.dir.hooks {
		for _, n := range ns {
			if ok(n) {
				if e.hooks[strings.ReplaceAll(k, " ", ":")], err = get(n); err != nil {
					return nil, err
				}
			}
		}
	}
	for _, n := range l.dir.invs {
		if ok(n) {
			f, err := get(n)
			if err != nil {
				return nil, err
			}
			e.invs = append(e.invs, f)
		}
	}
	if l.dir.rely != "" && ok(l.dir.rely) && t.Opts["norely"] == "" {
		if e.rely, err = get(l.dir.rely); err != nil {
			return nil, err
		}
	}
	for _, p := range pureNames {
		e.pure[p] = true
	}
	for _, p := range l.dir.pure {
		e.pure[p] = true
	}
	e.guarded = l.dir.guarded
	for _, a := range l.dir.atomics {
		e.atomics[a] = true
	}
	e.rootFn, err = get("gvRoot")
	if err != nil {
		return nil, err
	}
	t.fn, err = get(t.Fn)
	if err != nil {
		return nil, err
	}
	e.lockset = t.Opts["lockset"] != ""
	if v := t.Opts["prove"]; v != "" {
		fmt.Sscan(v, &e.proveTO)
	}
	if v := t.Opts["inv"]; v != "" {
		fmt.Sscan(v, &e.invTO)
	}
	if v := t.Opts["feas"]; v != "" {
		fmt.Sscan(v, &e.feasTO)
	}
	return e, nil
}

type Result struct {
	Prop, Task                 string
	Obls                       []*Obl
	Covers                     map[string]string
	Fails                      []string
	Stats                      Stats
	Paths                      int
	Loops                      int
	SolverTime                 float64
	Queries                    int
	By                         map[string]int
	Externals, Models, Entered []string
	Wall                       float64
	Returned                   int
}

func (e *Engine) runTask(budget time.Duration) *Result {
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	r := &Result{Prop: e.task.Prop, Task: e.task.Name}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if e.debug > 1 {
					panic(x)
				}
				e.fail(fmt.Sprintf("engine: %v", x))
			}
		}()
		st := &State{factSet: map[*Term]bool{}, heap: map[string]*layer{}, locks: map[*Term]*lockInfo{}, escaped: map[*Term]bool{},
			queues: map[*Term]*queue{}, owner: map[*Term]*Term{}, ownerIn: map[*Term]loadedIn{}, iters: map[*Term]*iter{}, flags: map[string]bool{}}
		if e.task.Opts["panics"] != "" {
			st.flags["panics"] = true
		}
		if e.task.Opts["interfere"] != "" {
			st.flags["interfere"] = true
		}
		if e.task.Opts["freshappend"] != "" {
			st.flags["freshappend"] = true
		}
		st.spawn = e.task.Opts["spawn"]
		outs := e.exploreF(func() {
			var args []Val
			for _, p := range e.task.fn.Params {
				args = append(args, e.freshVal(st, p.Name(), p.Type()))
			}
			if e.task.fn.Signature.Recv() != nil && args[0][0].sort == "Int" {
				st.assume(e, e.c.Not(e.c.Eq(args[0][0], e.c.Int(0))))
			}
			e.enter(st, e.task.fn, args, nil, false, nil)
		})
		for _, o := range outs {
			if o.panick {
				e.uncaught(o, "contract")
				continue
			}
			if o.ret {
				r.Returned++
				e.checkLocksReleased(o, "operation")
			}
		}
		if e.task.Opts["panics"] != "" {
			o := e.obl("no-uncaught-panic")
			_ = o
		}
	}()
	for _, k := range sortedKeys(e.obls) {
		r.Obls = append(r.Obls, e.obls[k])
	}
	for l := range e.plannedCovers() {
		if e.covers[l] == "" {
			e.covers[l] = "never tried"
		}
	}
	r.Covers = e.covers
	r.Fails = sortedKeys(e.fails)
	r.Stats = e.stats
	r.Paths = e.paths
	r.Loops = e.loopsSeen
	r.SolverTime = e.s.Time.Seconds()
	r.Queries = e.s.Queries
	r.By = e.s.By
	r.Externals = sortedKeys(e.externals)
	r.Models = sortedKeys(e.modelUsed)
	r.Entered = sortedKeys(e.entered)
	r.Wall = time.Since(t0).Seconds()
	e.s.Close()
	return r
}

// closedCheck establishes the frame condition of a property: every function of the package that
// touches a field the property is about was entered by one of its proof tasks.
func (l *Loaded) closedCheck(prop string, res []*Result) []*Result {
	if len(l.dir.closed) == 0 {
		return nil
	}
	t0 := time.Now()
	entered := map[string]bool{}
	for _, r := range res {
		for _, n := range r.Entered {
			entered[n] = true
		}
	}
	r := &Result{Prop: prop, Task: "frame", Returned: 1, Paths: 1}
	e := &Engine{fset: l.fset}
	l.touching(func(fn *ssa.Function, in ssa.Instruction, n string) {
		if !entered[fnName(fn)] {
			r.Obls = append(r.Obls, &Obl{Label: "only-functions-under-contract-touch:" + n, Paths: 1, Failed: 1, Answer: "frame", Trace: []string{fnName(fn) + " touches " + n + " at " + l.fset.Position(in.Pos()).String()}})
		}
	})
	_ = e
	for _, c := range l.dir.closed {
		_, f, _ := strings.Cut(c, ":")
		bad := false
		for _, o := range r.Obls {
			bad = bad || strings.HasSuffix(o.Label, ":"+f)
		}
		r.Stats.Vcs++
		if !bad {
			r.Stats.Discharged++
			r.Obls = append(r.Obls, &Obl{Label: "only-functions-under-contract-touch:" + f, Paths: 1, Proved: 1, By: map[string]int{"frame": 1}})
		}
	}
	r.Wall = time.Since(t0).Seconds()
	return []*Result{r}
}

// untouched lists the functions that touch a closed field and were not entered.
func (l *Loaded) untouched(res []*Result) []*ssa.Function {
	entered := map[string]bool{}
	for _, r := range res {
		for _, n := range r.Entered {
			entered[n] = true
		}
	}
	var fs []*ssa.Function
	seen := map[*ssa.Function]bool{}
	l.touching(func(fn *ssa.Function, in ssa.Instruction, n string) {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if !entered[fnName(fn)] && !seen[fn] {
			seen[fn] = true
			fs = append(fs, fn)
		}
	})
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	return fs
}

func (l *Loaded) touching(visit func(fn *ssa.Function, in ssa.Instruction, field string)) {
	e := &Engine{fset: l.fset}
	used := l.used()
	for fn := range ssautil.AllFunctions(l.prog) {
		if fn.Pkg != l.pkg || fn.Blocks == nil || e.overlayFn(fn) || !used(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var x ssa.Value
				var idx int
				switch in := in.(type) {
				case *ssa.FieldAddr:
					x, idx = in.X, in.Field
				default:
					continue
				}
				if _, ok := x.(*ssa.Alloc); ok {
					continue
				}
				pt := x.Type().Underlying().(*types.Pointer).Elem()
				n := typeKey(pt) + "." + pt.Underlying().(*types.Struct).Field(idx).Name()
				for _, c := range l.dir.closed {
					k, f, _ := strings.Cut(c, ":")
					if f != n || k == "closedw" && readOnly(in.(ssa.Value)) {
						continue
					}
					visit(fn, in, n)
				}
			}
		}
	}
}

// used tells which functions of the package can be called: exported ones, methods whose name an interface has, and
// whatever an instruction mentions.
func (l *Loaded) used() func(*ssa.Function) bool {
	e := &Engine{fset: l.fset}
	seen := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for fn := range ssautil.AllFunctions(l.prog) {
		if fn.Pkg != l.pkg || e.overlayFn(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					invoked[ci.Common().Method.Name()] = true
				}
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f != fn {
						seen[f] = true
					}
				}
			}
		}
	}
	return func(fn *ssa.Function) bool {
		return fn.Object() == nil || fn.Object().Exported() || fn.Name() == "init" || fn.Parent() != nil || invoked[fn.Name()] || seen[fn]
	}
}

func readOnly(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !readOnly(u) {
				return false
			}
		case *ssa.IndexAddr:
			if !readOnly(u) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func main() {
	prop := flag.String("prop", "", "property")
	repo := flag.String("repo", "/repo", "repository")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	out := flag.String("out", "", "result file")
	debug := flag.Int("v", 0, "debug")
	only := flag.String("task", "", "only this task")
	budget := flag.Int("budget", 500, "seconds per task")
	par := flag.Int("j", 6, "parallel tasks")
	flag.Parse()
	t0 := time.Now()
	files, _ := filepath.Glob(filepath.Join(*cdir, "gv_*.go"))
	pf, _ := filepath.Glob(filepath.Join(*cdir, strings.ToLower(*prop)+"_*.go"))
	files = append(files, pf...)
	sort.Strings(files)
	type Report struct {
		Prop     string
		LoadErrs []string
		Results  []*Result
		LoadWall float64
		Wall     float64
	}
	rep := &Report{Prop: *prop}
	l, err := load(*repo, files)
	if err != nil {
		rep.LoadErrs = append(rep.LoadErrs, err.Error())
	} else {
		rep.LoadErrs = l.typeErrs
	}
	rep.LoadWall = time.Since(t0).Seconds()
	if len(rep.LoadErrs) == 0 {
		var ts []*Task
		for _, t := range l.dir.tasks {
			if t.Prop == *prop && (*only == "" || strings.Contains(","+*only+",", ","+t.Name+",")) {
				ts = append(ts, t)
			}
		}
		res := make([]*Result, len(ts))
		sem := make(chan bool, *par)
		var wg sync.WaitGroup
		for i, t := range ts {
			wg.Add(1)
			go func(i int, t *Task) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				e, err := newEngine(l, t, *debug)
				if err != nil {
					res[i] = &Result{Prop: t.Prop, Task: t.Name, Fails: []string{err.Error()}}
					return
				}
				res[i] = e.runTask(time.Duration(*budget) * time.Second)
			}(i, t)
		}
		wg.Wait()
		rep.Results = res
		if *only == "" {
			// functions no task reached are verified on their own, for arbitrary arguments
			if l.dir.auto != nil {
				for _, fn := range l.untouched(res) {
					e, err := newEngine(l, &Task{Prop: *prop, Name: "auto:" + fnName(fn), Fn: "gvRoot", Opts: l.dir.auto}, *debug)
					if err == nil {
						e.task.fn = fn
						res = append(res, e.runTask(time.Duration(*budget)*time.Second))
					}
				}
				rep.Results = res
			}
			rep.Results = append(rep.Results, l.closedCheck(*prop, res)...)
		}
	}
	rep.Wall = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0o644)
	} else {
		for _, e := range rep.LoadErrs {
			fmt.Println("LOAD", e)
		}
		for _, r := range rep.Results {
			fmt.Printf("%s/%s: paths %d returned %d loops %d vcs %d/%d queries %d solver %.1fs wall %.1fs\n", r.Prop, r.Task, r.Paths, r.Returned, r.Loops, r.Stats.Discharged, r.Stats.Vcs, r.Queries, r.SolverTime, r.Wall)
			for _, o := range r.Obls {
				s := "ok"
				if o.Failed > 0 {
					s = "FAILED " + o.Answer
				}
				fmt.Printf("   %-50s %d/%d %s\n", o.Label, o.Proved, o.Paths, s)
			}
			for _, k := range sortedKeys(r.Covers) {
				fmt.Printf("   cover %s: %s\n", k, r.Covers[k])
			}
			for _, f := range r.Fails {
				fmt.Println("   UNSUPPORTED", f)
			}
			if *debug > 0 {
				fmt.Println("   externals:", r.Externals)
				fmt.Println("   models:", r.Models)
				fmt.Println("   entered:", r.Entered)
			}
		}
	}
}
