package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	pkgs []*ssa.Package
	fns  map[*ssa.Function]bool
	by   map[string]*ssa.Function
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, ".", "./date", "./internal/...")
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if n < 5 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			n++
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d load errors", n)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, by: map[string]*ssa.Function{}}
	for _, p := range sp {
		if p != nil {
			p.Build()
			P.pkgs = append(P.pkgs, p)
		}
	}
	P.fns = ssautil.AllFunctions(prog)
	for f := range P.fns {
		if len(f.Blocks) == 0 {
			continue
		}
		k := funcKey(f)
		if o, ok := P.by[k]; ok && o.Synthetic == "" {
			continue
		}
		P.by[k] = f
	}
	scanGlobals(prog, P.pkgs, P.fns)
	return P, nil
}

type OblOut struct {
	Func   string   `json:"func"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos"`
	In     string   `json:"in"`
	Tags   []string `json:"tags"`
	Status string   `json:"status"`
	Solver string   `json:"solver"`
	Secs   float64  `json:"secs"`
	Detail string   `json:"detail,omitempty"`
}

type FuncOut struct {
	Func    string   `json:"func"`
	Err     string   `json:"err,omitempty"`
	Obls    []OblOut `json:"obls"`
	Notes   []string `json:"notes"`
	Inlined []string `json:"inlined"`
	Modular []string `json:"modular"`
	Models  []string `json:"models"`
	Secs    float64  `json:"secs"`
	SolverT float64  `json:"solver_s"`
	Queries int      `json:"queries"`
	Trusted bool     `json:"trusted,omitempty"`
}

func verifyFunc(P *Program, C *Contracts, c *Contract, prop string, ms int) (out FuncOut) {
	t0 := time.Now()
	out.Func = c.Name
	S := NewSolvers()
	defer S.Close()
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ExecError); ok {
				out.Err = e.msg
			} else {
				out.Err = fmt.Sprintf("internal: %v", r)
				if verbose {
					debug.PrintStack()
				}
			}
		}
		out.Secs = time.Since(t0).Seconds()
		out.SolverT = S.Stats.Time
		out.Queries = S.Stats.Queries
	}()
	f := P.by[c.Name]
	if f == nil {
		out.Err = "function not found"
		return
	}
	c.fn = f
	x := NewExec(P.prog, C, S)
	defer func() {
		out.Notes = sortedKeys(x.notes)
		out.Inlined = sortedKeys(x.inlined)
		out.Modular = sortedKeys(x.modular)
		out.Models = sortedKeys(x.models)
	}()
	x.root, x.rootC = f, c
	x.overflow = c.Overflow
	x.lastRef = I(999999)
	st := &State{pc: True, heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	env := &SpecEnv{x: x, c: c, names: map[string]Val{}, st: st, pkg: f.Pkg}
	var args []Val
	for i, p := range f.Params {
		v := x.freshVal("p_"+p.Name(), p.Type())
		for j, l := range layout(p.Type()) {
			if l.role == "ref" || l.role == "slice.ref" {
				x.fact(And(Lt(v.L[j], I(1000000)), Ge(v.L[j], I(0))))
			}
			if strings.HasPrefix(l.role, "time.loc") {
				x.fact(Not(Eq(v.L[j], I(utcLoc))))
			}
		}
		st.env[p] = v
		args = append(args, v)
		_ = i
	}
	if len(f.FreeVars) > 0 {
		x.fail("closure as root")
	}
	c.bindParams(env, f, args)
	x.entryEnv = map[string]Val{}
	for n, v := range env.names {
		x.entryEnv[n] = v
	}
	// locks are free on entry unless the contract says otherwise
	x.entryLocks(st, c, args)
	x.entry = st.clone()
	x.entry.env = map[ssa.Value]Val{}
	env.old = x.entry
	x.stack = append(x.stack, f)
	for _, cl := range c.Requires {
		x.fact(x.evalBool(env, cl))
	}
	// frame: what the contract lets this function write
	var locs []Loc
	for _, m := range c.Modifies {
		locs = append(locs, x.locsOf(env, m)...)
	}
	x.allowed = func(key string, ref *Term) *Term {
		var ds []*Term
		for _, l := range locs {
			if l.allowKey == key || (strings.HasPrefix(key, "F|") && strings.HasPrefix(key, l.allowKey)) || (strings.HasPrefix(key, "E|") && l.allowKey == key) {
				ds = append(ds, Eq(ref, l.ref))
			}
		}
		return Or(ds...)
	}
	x.stack = nil
	rets := x.runBody(f, st, args)
	x.stack = append(x.stack, f)
	nres := f.Signature.Results().Len()
	for ri, r := range rets {
		if r.st.dead() {
			continue
		}
		e2 := *env
		e2.st = r.st
		res := Val{T: f.Signature.Results()}
		for i := 0; i < nres; i++ {
			v := r.vals[i]
			v.T = f.Signature.Results().At(i).Type()
			res.Tup = append(res.Tup, v)
		}
		if nres == 1 {
			e2.res = &res.Tup[0]
		} else {
			e2.res = &res
		}
		for _, cl := range c.Ensures {
			if prop != "" && len(cl.Tags) > 0 && !hasTag(cl.Tags, prop) {
				continue
			}
			s := r.st.clone()
			x.oblige("post", cl.Src, cl.Tags, 0, s, splitIte(x.evalBool(&e2, cl)))
		}
		for _, n := range c.Fresh {
			if n >= len(res.Tup) {
				x.fail("fresh %d", n)
			}
			v := res.Tup[n]
			if v.A != nil {
				continue
			}
			for j, l := range layout(v.T) {
				if l.role == "ref" || l.role == "slice.ref" {
					switch v.T.Underlying().(type) {
					case *types.Signature, *types.Interface:
						continue
					}
					g := Ge(v.L[j], I(1000000))
					if c.MaybeNil[n] {
						g = Or(Eq(v.L[j], I(0)), g)
					}
					x.oblige("frame", fmt.Sprintf("result %d is newly allocated", n), []string{"C10"}, 0, r.st.clone(), g)
				}
			}
		}
		x.exitLocks(r.st, c, args)
		_ = ri
	}
	if c.Timeout > 0 {
		ms = c.Timeout * 1000
	}
	cnt := map[string]int{}
	for _, o := range x.obls {
		base := o.Kind + ":" + o.Func + ":" + o.Name
		cnt[base]++
		if prop != "" && !relevantTo(o, prop) {
			continue
		}
		oo := OblOut{Func: c.Name, Name: o.Name, Kind: o.Kind, Pos: o.Pos, In: o.Func, Tags: o.Tags}
		t1 := time.Now()
		if o.Goal == True || o.PC == False {
			oo.Status, oo.Solver = "proved", "simplifier"
		} else {
			as := x.relevant(o.Facts, o.PC, Not(o.Goal))
			r, m, w := S.Check(as, ms, true, true)
			oo.Solver = w
			switch r {
			case "unsat":
				oo.Status = "proved"
			case "sat":
				oo.Status, oo.Detail = "failed", trimModel(m)
			default:
				oo.Status = "unknown"
			}
			if verbose && oo.Status != "proved" {
				fmt.Fprintf(os.Stderr, "GOAL %s\n PC %s\n", o.Goal, o.PC)
			}
		}
		oo.Secs = time.Since(t1).Seconds()
		out.Obls = append(out.Obls, oo)
	}
	return
}

func trimModel(m string) string {
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	return m
}

func relevantTo(o *Obligation, prop string) bool {
	if hasTag(o.Tags, prop) {
		return true
	}
	switch o.Kind {
	case "invariant", "unwind":
		return true
	}
	return false
}

// entryLocks: mutexes of parameters are free at entry (or held when the
// contract's precondition says so).
func (x *Exec) lockTerms(st *State, args []Val) []*Term {
	var out []*Term
	for _, v := range args {
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		for _, l := range layout(p.Elem()) {
			if l.role == "mutex" {
				k := objKey(p.Elem(), l.path)
				out = append(out, Select(st.get(k, arrOf(SInt)), v.t1()))
			}
		}
	}
	return out
}
func (x *Exec) entryLocks(st *State, c *Contract, args []Val) {
	for _, cl := range c.Requires {
		if strings.Contains(cl.Src, "held(") {
			return
		}
	}
	for _, t := range x.lockTerms(st, args) {
		x.fact(Eq(t, I(0)))
	}
}
func (x *Exec) exitLocks(st *State, c *Contract, args []Val) {
	want := I(0)
	for _, cl := range c.Requires {
		if strings.Contains(cl.Src, "held(") && !strings.Contains(cl.Src, "unheld(") {
			want = I(1)
		}
	}
	for _, t := range x.lockTerms(st, args) {
		x.oblige("lock", "the lock is in its entry state on return", []string{"C18"}, 0, st.clone(), Eq(t, want))
	}
}

// selectFuncs lists the contracted functions a property's check has to verify.
func selectFuncs(P *Program, C *Contracts, prop string) []string {
	sel := map[string]bool{}
	reqTagged := map[string]bool{}
	for n, c := range C.byName {
		if strings.HasPrefix(n, "field ") {
			for _, cl := range c.Requires {
				if hasTag(cl.Tags, prop) || len(cl.Tags) == 0 && hasTag(c.allTags(), prop) {
					reqTagged[n] = true
				}
			}
			continue
		}
		if prop == "" || prop == "C01" || prop == "C10" || hasTag(c.allTags(), prop) {
			sel[n] = true
		}
		for _, cl := range c.Requires {
			if hasTag(cl.Tags, prop) || len(cl.Tags) == 0 && hasTag(c.allTags(), prop) {
				reqTagged[n] = true
			}
		}
	}
	// callers that have to establish a tagged precondition
	if prop != "" {
		for n, c := range C.byName {
			if sel[n] || c.Inline || c.Trusted {
				continue
			}
			f := P.by[n]
			if f == nil {
				continue
			}
			if reaches(P, C, f, reqTagged, map[*ssa.Function]bool{}) {
				sel[n] = true
			}
		}
	}
	var out []string
	for n := range sel {
		c := C.byName[n]
		if c.Inline || c.Trusted {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func reaches(P *Program, C *Contracts, f *ssa.Function, want map[string]bool, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					if mc, ok2 := (*op).(*ssa.MakeClosure); ok2 {
						g, _ = mc.Fn.(*ssa.Function)
					}
				}
				if g == nil {
					continue
				}
				k := funcKey(g)
				if want[k] {
					return true
				}
				if c := C.byName[k]; c != nil && !c.Inline {
					continue
				}
				if len(g.Blocks) > 0 && reaches(P, C, g, want, seen) {
					return true
				}
			}
		}
	}
	return false
}

func main() {
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "")
	outF := fs.String("out", "", "")
	jobs := fs.Int("jobs", 7, "")
	ms := fs.Int("ms", 20000, "")
	only := fs.String("func", "", "")
	fs.Parse(os.Args[2:])
	C, err := LoadContracts(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	switch mode {
	case "worker":
		P, err := loadProgram(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fmt.Println("READY")
		sc := bufio.NewScanner(os.Stdin)
		w := json.NewEncoder(os.Stdout)
		for sc.Scan() {
			n := strings.TrimSpace(sc.Text())
			r := verifyFunc(P, C, C.byName[n], *prop, *ms)
			w.Encode(r)
		}
	case "list":
		P, err := loadProgram(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, n := range selectFuncs(P, C, *prop) {
			fmt.Println(n)
		}
	case "ssa":
		P, err := loadProgram(*repo)
		if err != nil {
			os.Exit(3)
		}
		f := P.by[*only]
		if f == nil {
			for _, k := range sortedKeys(P.by) {
				fmt.Println(k)
			}
			return
		}
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	case "verify":
		P, err := loadProgram(*repo)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var names []string
		if *only != "" {
			names = strings.Split(*only, ",")
		} else {
			names = selectFuncs(P, C, *prop)
		}
		results := map[string]FuncOut{}
		if len(names) == 1 || *jobs == 1 {
			for _, n := range names {
				if C.byName[n] == nil {
					fmt.Fprintln(os.Stderr, "no contract", n)
					os.Exit(3)
				}
				results[n] = verifyFunc(P, C, C.byName[n], *prop, *ms)
			}
		} else {
			runWorkers(names, *jobs, *prop, *repo, *cdir, *ms, results)
		}
		ok := report(names, results)
		if *outF != "" {
			var rs []FuncOut
			for _, n := range names {
				rs = append(rs, results[n])
			}
			b, _ := json.MarshalIndent(rs, "", " ")
			os.WriteFile(*outF, b, 0o644)
		}
		if !ok {
			os.Exit(1)
		}
	}
}

func report(names []string, results map[string]FuncOut) bool {
	ok := true
	for _, n := range names {
		r := results[n]
		p, bad := 0, 0
		for _, o := range r.Obls {
			if o.Status == "proved" {
				p++
			} else {
				bad++
			}
		}
		st := "ok"
		if bad > 0 || r.Err != "" {
			st = "FAIL"
			ok = false
		}
		fmt.Printf("%-5s %-55s %4d proved %3d open  %6.1fs (solver %.1fs, %d queries) %s\n", st, n, p, bad, r.Secs, r.SolverT, r.Queries, r.Err)
		for _, o := range r.Obls {
			if o.Status != "proved" {
				fmt.Printf("      %s [%s] %s @%s in %s tags=%v (%s %.1fs)\n", o.Status, o.Kind, o.Name, o.Pos, o.In, o.Tags, o.Solver, o.Secs)
			}
		}
	}
	return ok
}

func runWorkers(names []string, jobs int, prop, repo, cdir string, ms int, results map[string]FuncOut) {
	if jobs > len(names) {
		jobs = len(names)
	}
	ch := make(chan string, len(names))
	for _, n := range names {
		ch <- n
	}
	close(ch)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var cmd *exec.Cmd
			var in *bufio.Writer
			var out *bufio.Reader
			start := func() error {
				cmd = exec.Command(os.Args[0], "worker", "-repo", repo, "-contracts", cdir, "-prop", prop, "-ms", fmt.Sprint(ms))
				cmd.Stderr = os.Stderr
				ip, _ := cmd.StdinPipe()
				op, _ := cmd.StdoutPipe()
				in = bufio.NewWriter(ip)
				out = bufio.NewReaderSize(op, 1<<20)
				if err := cmd.Start(); err != nil {
					return err
				}
				_, err := out.ReadString('\n')
				return err
			}
			for n := range ch {
				// a fresh process per function keeps the term table small
				err := start()
				var r FuncOut
				if err == nil {
					fmt.Fprintln(in, n)
					in.Flush()
					done := make(chan error, 1)
					go func() {
						line, e := out.ReadBytes('\n')
						if e == nil {
							e = json.Unmarshal(line, &r)
						}
						done <- e
					}()
					select {
					case err = <-done:
					case <-time.After(600 * time.Second):
						err = fmt.Errorf("function time limit")
					}
				}
				if err != nil {
					r = FuncOut{Func: n, Err: "worker: " + err.Error()}
				}
				cmd.Process.Kill()
				cmd.Wait()
				mu.Lock()
				results[n] = r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
