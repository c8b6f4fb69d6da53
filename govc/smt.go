package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// ---- printing ----

var strIDs = map[string]int64{"": 0}
var strByID = []string{""}

const strBase = 7000000000

func strID(s string) int64 {
	if id, ok := strIDs[s]; ok {
		return strBase + id
	}
	id := int64(len(strByID))
	strIDs[s] = id
	strByID = append(strByID, s)
	return strBase + id
}

// unary string functions with Go evaluators: used for ground congruence facts
type strFn struct {
	name string
	sort Sort
	eval func(string) *Term
}

var strFns = map[string]strFn{}

type printer struct {
	b      strings.Builder
	decl   map[string]string
	order  []string
	ref    map[*Term]int
	names  map[*Term]string
	strs   map[string]bool
	fns    map[string]bool
	nshare int
}

var sanRepl = strings.NewReplacer("|", "!", "\\", "/", "\n", " ")

func sanName(s string) string { return "|" + sanRepl.Replace(s) + "|" }

func (p *printer) scan(t *Term, seen map[*Term]bool) {
	p.ref[t]++
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case OConst:
		if _, ok := p.decl[t.name]; !ok {
			p.decl[t.name] = fmt.Sprintf("(declare-fun %s () %s)", sanName(t.name), t.sort)
			p.order = append(p.order, t.name)
		}
	case OStr:
		p.strs[t.name] = true
	case OApp:
		p.fns[t.name] = true
		if _, ok := p.decl[t.name]; !ok {
			var ss []string
			for _, a := range t.args {
				ss = append(ss, string(a.sort))
			}
			p.decl[t.name] = fmt.Sprintf("(declare-fun %s (%s) %s)", sanName(t.name), strings.Join(ss, " "), t.sort)
			p.order = append(p.order, t.name)
		}
	}
	for _, a := range t.args {
		p.scan(a, seen)
	}
	for _, a := range t.pats {
		p.scan(a, seen)
	}
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if len(t.args) > 0 && p.ref[t] > 1 && !t.hasBound && len(s) > 12 {
		p.nshare++
		n := "_t" + strconv.Itoa(p.nshare)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case OConst:
		return sanName(t.name)
	case OBound:
		return sanName(t.name)
	case OInt:
		return intLit(t.n)
	case OStr:
		return strconv.FormatInt(strID(t.name), 10)
	case OReal:
		num, den := t.r.Num(), t.r.Denom()
		s := new(big.Int).Abs(num).String() + ".0"
		if den.Cmp(big.NewInt(1)) != 0 {
			s = "(/ " + s + " " + den.String() + ".0)"
		}
		if num.Sign() < 0 {
			s = "(- " + s + ")"
		}
		return s
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OForall:
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.bvs {
			fmt.Fprintf(&b, "(%s %s)", sanName(v.name), v.sort)
		}
		b.WriteString(") ")
		body := p.str(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, q := range t.pats {
				b.WriteString(" :pattern (" + p.str(q) + ")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	}
	var b strings.Builder
	b.WriteByte('(')
	if t.op == OApp {
		if len(t.args) == 0 {
			return sanName(t.name)
		}
		b.WriteString(sanName(t.name))
	} else {
		b.WriteString(opName(t))
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

// Script builds an SMT-LIB script that is satisfiable iff the asserts are.
func Script(asserts []*Term) string {
	p := &printer{decl: map[string]string{}, ref: map[*Term]int{}, names: map[*Term]string{}, strs: map[string]bool{}, fns: map[string]bool{}}
	seen := map[*Term]bool{}
	for _, a := range asserts {
		p.scan(a, seen)
	}
	// ground facts about string constants for the unary functions in use
	var ground []*Term
	for round := 0; round < 2; round++ {
		var cur []string
		for s := range p.strs {
			cur = append(cur, s)
		}
		ground = ground[:0]
		for f := range p.fns {
			sf, ok := strFns[f]
			if !ok {
				continue
			}
			for _, s := range cur {
				v := sf.eval(s)
				raw := mk(&Term{op: OApp, sort: sf.sort, name: sf.name, args: []*Term{S(s)}})
				ground = append(ground, mk(&Term{op: OEq, sort: SBool, args: []*Term{raw, v}}))
				if v.op == OStr {
					p.strs[v.name] = true
				}
			}
		}
	}
	for _, g := range ground {
		p.scan(g, seen)
	}
	var body strings.Builder
	for _, g := range append(ground, asserts...) {
		s := p.str(g)
		body.WriteString(p.b.String())
		p.b.Reset()
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	var out strings.Builder
	for _, n := range p.order {
		out.WriteString(p.decl[n])
		out.WriteByte('\n')
	}
	out.WriteString(body.String())
	return out.String()
}

// ---- solver processes ----

type solver struct {
	name string
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func (s *solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s.cmd.Start()
}
func (s *solver) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

// run returns sat/unsat/unknown and, for sat, the model text.
func (s *solver) run(script string, ms int, wantModel bool) (string, string) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return "unknown", err.Error()
		}
	}
	isZ3 := strings.HasPrefix(s.name, "z3")
	var b strings.Builder
	if isZ3 {
		b.WriteString("(reset)\n(set-option :smt.random_seed 7)\n")
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", ms)
		if wantModel {
			b.WriteString("(set-option :produce-models true)\n")
		}
	} else {
		b.WriteString("(reset)\n(set-logic ALL)\n")
		fmt.Fprintf(&b, "(set-option :tlimit-per %d)\n", ms)
	}
	b.WriteString(script)
	b.WriteString("(check-sat)\n(echo \"<<done>>\")\n")
	type res struct{ r, m string }
	ch := make(chan res, 1)
	go func() {
		io.WriteString(s.in, b.String())
		var lines []string
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{"unknown", "solver died: " + strings.Join(lines, " ")}
				return
			}
			l = strings.TrimSpace(l)
			if strings.Contains(l, "<<done>>") {
				break
			}
			lines = append(lines, l)
		}
		r := "unknown"
		for _, l := range lines {
			if l == "sat" || l == "unsat" || l == "unknown" {
				r = l
			}
			if strings.HasPrefix(l, "(error") {
				ch <- res{"error", strings.Join(lines, "\n")}
				return
			}
		}
		m := ""
		if r == "sat" && wantModel {
			io.WriteString(s.in, "(get-model)\n(echo \"<<done>>\")\n")
			var mb strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil || strings.Contains(l, "<<done>>") {
					break
				}
				mb.WriteString(l)
			}
			m = mb.String()
		}
		ch <- res{r, m}
	}()
	select {
	case r := <-ch:
		if r.r == "error" {
			s.kill()
		}
		return r.r, r.m
	case <-time.After(time.Duration(ms)*time.Millisecond*2 + 3*time.Second):
		s.kill()
		<-ch
		return "unknown", "killed after timeout"
	}
}

type SolverStats struct {
	Queries int
	ByName  map[string]int
	Time    float64
}

type Solvers struct {
	list  []*solver
	Stats SolverStats
}

func NewSolvers() *Solvers {
	s := &Solvers{Stats: SolverStats{ByName: map[string]int{}}}
	s.list = []*solver{
		{name: "z3-new", args: []string{"-in"}},
		{name: "z3", args: []string{"-in"}},
		{name: "cvc5", args: []string{"--lang=smt2", "--incremental", "--quiet"}},
	}
	return s
}

func (s *Solvers) Close() {
	for _, x := range s.list {
		x.kill()
	}
}

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int

// Check decides satisfiability; which names the deciding solver.
func (s *Solvers) Check(asserts []*Term, ms int, wantModel bool, tryAll bool) (res, model, which string) {
	for _, a := range asserts {
		if a == False {
			return "unsat", "", "simplifier"
		}
	}
	asserts = append(append([]*Term{}, asserts...), foldAxioms(asserts)...)
	script := Script(asserts)
	if dumpDir != "" {
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", dumpDir, dumpN), []byte(script+"(check-sat)\n"), 0o644)
	}
	t0 := time.Now()
	defer func() {
		s.Stats.Time += time.Since(t0).Seconds()
		s.Stats.Queries++
		s.Stats.ByName[which]++
	}()
	last := ""
	for i, x := range s.list {
		if i > 0 && !tryAll {
			break
		}
		r, m := x.run(script, ms, wantModel)
		if r == "error" {
			if len(m) > 300 {
				m = m[:300]
			}
			fmt.Fprintln(os.Stderr, "solver error:", x.name, m)
			if dumpDir == "" {
				os.WriteFile("/tmp/govc-error.smt2", []byte(script), 0o644)
			}
			last = "error"
			continue
		}
		if r == "unsat" || r == "sat" {
			return r, m, x.name
		}
		last = r
	}
	if last == "" || last == "error" {
		last = "unknown"
	}
	return last, "", "none"
}
