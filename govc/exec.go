package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Name  string
	Kind  string
	Func  string
	Pos   string
	Tags  []string
	Facts int // number of facts to use
	PC    *Term
	Goal  *Term
	// result
	Status string
	Solver string
	Secs   float64
	Detail string
}

type ExecError struct{ msg string }

func (e ExecError) Error() string { return e.msg }

type Exec struct {
	prog    *ssa.Program
	C       *Contracts
	S       *Solvers
	root    *ssa.Function
	rootC   *Contract
	facts   []*Term
	factSet map[*Term]int
	obls    []*Obligation
	trial   int // >0 while inferring loop invariants
	seq     int
	lastRef *Term
	depth   int
	stack   []*ssa.Function
	frames  []*Frame
	notes   map[string]bool // assumptions used
	allowed func(key string, ref *Term) *Term
	invMemo map[string]map[string]bool
	entry   *State
	entryEnv map[string]Val
	safety  bool
	wfDone  map[*Term]bool
	incomplete []string
	inlined map[string]bool
	modular map[string]bool
	models  map[string]bool
	curPos  token.Pos
	overflow bool
	oblSeq  map[string]int
	inRegion int
	templates []*LoopTemplate
	maxUnroll int
	loopInfo map[*ssa.Function]*Loops
	budget int
	holdWF bool
	noOwn map[*Term]bool
	loopTime int
}

type Frame struct {
	fn      *ssa.Function
	defers  []*ssa.Defer
	parent  *Frame
	args    []Val
	retVals []Val
	deferSt []deferred
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fv   Val
	pc   *Term
	instr ssa.Instruction
}

func NewExec(prog *ssa.Program, c *Contracts, s *Solvers) *Exec {
	return &Exec{prog: prog, C: c, S: s, factSet: map[*Term]int{}, notes: map[string]bool{}, invMemo: map[string]map[string]bool{}, wfDone: map[*Term]bool{}, inlined: map[string]bool{}, modular: map[string]bool{}, models: map[string]bool{}, oblSeq: map[string]int{}, maxUnroll: 70, loopInfo: map[*ssa.Function]*Loops{}, safety: true, noOwn: map[*Term]bool{}}
}

func (x *Exec) fail(f string, a ...any) {
	panic(ExecError{fmt.Sprintf(f, a...)})
}

func (x *Exec) fact(t *Term) {
	if t == True || t == nil {
		return
	}
	for _, c := range conj(t) {
		if c.hasBound {
			continue
		}
		if _, ok := x.factSet[c]; ok {
			continue
		}
		x.factSet[c] = len(x.facts)
		x.facts = append(x.facts, c)
	}
}
func (x *Exec) mark() int { return len(x.facts) }
func (x *Exec) rollback(n int) {
	for _, f := range x.facts[n:] {
		delete(x.factSet, f)
	}
	x.facts = x.facts[:n]
}

func (x *Exec) note(s string) { x.notes[s] = true }

func (x *Exec) newRef() *Term {
	x.seq++
	constCounter++
	r := mk(&Term{op: OConst, sort: SInt, name: fmt.Sprintf("ref!%d", constCounter), seq: x.seq})
	if x.lastRef != nil {
		x.fact(Lt(x.lastRef, r))
	} else {
		x.fact(Ge(r, I(1000000)))
	}
	x.lastRef = r
	return r
}

func (x *Exec) fresh(name string, s Sort) *Term {
	x.seq++
	return Fresh(name, s, x.seq)
}

func (x *Exec) freshVal(name string, t types.Type) Val {
	ls := layout(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = x.fresh(name+l.path, l.sort)
	}
	x.wf(v)
	return v
}

// wf adds type well-formedness facts for unknown values.
func (x *Exec) wf(v Val) {
	if v.A != nil || v.bad != "" {
		return
	}
	if v.Tup != nil {
		for _, t := range v.Tup {
			x.wf(t)
		}
		return
	}
	ls := layout(v.T)
	if len(ls) != len(v.L) {
		return
	}
	for i := 0; i < len(ls); {
		l := ls[i]
		switch l.role {
		case "time.Y":
			if !(v.L[i].isInt() && v.L[i+1].isInt() && v.L[i+2].isInt()) {
				x.fact(timeWF(v.L[i], v.L[i+1], v.L[i+2], v.L[i+3], v.L[i+4]))
			}
			i += 6
			continue
		case "slice.ref":
			ref, off, ln, cp := v.L[i], v.L[i+1], v.L[i+2], v.L[i+3]
			if !(off.isInt() && ln.isInt() && cp.isInt()) && !x.wfDone[ln] {
				x.fact(And(Ge(off, I(0)), Ge(ln, I(0)), Ge(cp, ln), Ge(ref, I(-1000000))))
				x.fact(Imp(Eq(ref, I(0)), And(Eq(ln, I(0)), Eq(cp, I(0)), Eq(off, I(0)))))
			}
			i += 4
			continue
		}
		if l.sort == SInt && l.t != nil {
			x.wfLeaf(l.t, v.L[i])
		}
		i++
	}
}

func (x *Exec) wfLeaf(t types.Type, a *Term) {
	if a.isLit() {
		return
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		x.fact(And(Ge(a, I(0)), Le(a, I(255))))
	case types.Uint16:
		x.fact(And(Ge(a, I(0)), Le(a, I(65535))))
	case types.Uint, types.Uint32, types.Uint64, types.Uintptr:
		x.fact(Ge(a, I(0)))
	case types.Int32:
		x.fact(And(Ge(a, I(-2147483648)), Le(a, I(2147483647))))
	case types.String:
		// strings live in their own id range
		x.fact(Ge(a, I(strBase)))
	}
}

// ---- obligations ----

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		p = x.curPos
	}
	if !p.IsValid() {
		return "?"
	}
	ps := x.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) oblige(kind, name string, tags []string, pos token.Pos, st *State, goal *Term) {
	if st.dead() {
		return
	}
	g := goal
	// the goal as a fact from here on
	defer func() { x.assume(st, g) }()
	if x.trial > 0 {
		return
	}
	if !x.safety && kind == "safety" {
		return
	}
	fn := ""
	if len(x.stack) > 0 {
		fn = x.stack[len(x.stack)-1].String()
	}
	o := &Obligation{Name: name, Kind: kind, Func: shortName(fn), Pos: x.pos(pos), Tags: tags, Facts: len(x.facts), PC: st.pc, Goal: goal}
	x.obls = append(x.obls, o)
}

// assume narrows the state to executions where t holds (used after checks).
func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	if t == False {
		st.pc = False
		return
	}
	x.fact(Imp(st.pc, t))
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/internal/parser/", "")
	s = strings.ReplaceAll(s, modPath+"/internal/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "dateparser")
	return s
}

// prove: quick check used for inference; facts up to now.
func (x *Exec) prove(pc, goal *Term, ms int) bool {
	if goal == True || pc == False {
		return true
	}
	as := x.relevant(len(x.facts), pc, Not(goal))
	r, _, _ := x.S.Check(as, ms, false, false)
	return r == "unsat"
}

// feasible reports whether pc may be satisfiable.
func (x *Exec) feasible(pc *Term, ms int) bool {
	if pc == False {
		return false
	}
	r, _, _ := x.S.Check(x.relevant(len(x.facts), pc, True), ms, false, false)
	return r != "unsat"
}

// relevant selects facts connected to the query.
func (x *Exec) relevant(n int, pc, neg *Term) []*Term {
	syms := map[string]bool{}
	var q []*Term
	add := func(t *Term) {
		for s := range symsOf(t) {
			if !syms[s] {
				syms[s] = true
			}
		}
	}
	for _, c := range conj(pc) {
		q = append(q, c)
		add(c)
	}
	for _, c := range conj(neg) {
		q = append(q, c)
		add(c)
	}
	used := make([]bool, n)
	for {
		ch := false
		for i := n - 1; i >= 0; i-- {
			if used[i] {
				continue
			}
			fs := symsOf(x.facts[i])
			hit := len(fs) == 0
			for s := range fs {
				if syms[s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for s := range fs {
					syms[s] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i := 0; i < n; i++ {
		if used[i] {
			out = append(out, x.facts[i])
		}
	}
	return append(out, q...)
}

var symMemo = map[*Term]map[string]bool{}

func symsOf(t *Term) map[string]bool {
	if m, ok := symMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OConst && !strings.HasPrefix(t.name, "ref!") {
			m[t.name] = true
		}
		if t.op == OApp && len(t.args) == 0 {
			m[t.name] = true
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	symMemo[t] = m
	return m
}

// ---- heap access ----

func objKey(t types.Type, path string) string  { return "F|" + typeKey(t) + "|" + path }
func elemKey(t types.Type, path string) string { return "E|" + typeKey(t) + "|" + path }

func (x *Exec) loadLeaf(st *State, a *Addr, sub string, l Leaf) *Term {
	if a.elem {
		k := elemKey(a.T, a.path+sub)
		arr := st.get(k, arrOf(arrOf(l.sort)))
		return Select(Select(arr, a.ref), a.idx)
	}
	k := objKey(a.T, a.path+sub)
	arr := st.get(k, arrOf(l.sort))
	return Select(arr, a.ref)
}

func (x *Exec) load(st *State, a *Addr, t types.Type) Val {
	if at, ok := t.Underlying().(*types.Array); ok {
		_ = at
		return Val{T: t, bad: "array value", A: a}
	}
	ls := layout(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = x.loadLeaf(st, a, l.path, l)
	}
	if !x.holdWF {
		x.wf(v)
		// a loaded reference was allocated before now
		for i, l := range ls {
			if (l.role == "ref" || l.role == "slice.ref") && x.lastRef != nil && (v.L[i].op == OSelect) {
				x.fact(Le(v.L[i], x.lastRef))
			}
		}
	}
	return v
}

func (x *Exec) store(st *State, a *Addr, v Val, pos token.Pos) {
	if v.bad != "" {
		x.fail("store of unrepresentable value: %s", v.bad)
	}
	if v.A != nil {
		t := x.encodeAddr(v)
		v = Val{T: v.T, L: []*Term{t}}
	}
	ls := layout(v.T)
	x.checkWrite(st, a, pos)
	for i, l := range ls {
		if a.elem {
			k := elemKey(a.T, a.path+l.path)
			arr := st.get(k, arrOf(arrOf(l.sort)))
			st.set(k, Store(arr, a.ref, Store(Select(arr, a.ref), a.idx, v.L[i])))
		} else {
			k := objKey(a.T, a.path+l.path)
			arr := st.get(k, arrOf(l.sort))
			st.set(k, Store(arr, a.ref, v.L[i]))
		}
	}
}

func (x *Exec) encodeAddr(v Val) *Term {
	if v.A == nil {
		return v.t1()
	}
	if !v.A.elem && v.A.path == "" {
		return v.A.ref
	}
	return x.interiorRef(v.A)
}

// interiorRef gives an opaque nonzero id to an interior address that escapes
// into a place where only its identity could matter.
func (x *Exec) interiorRef(a *Addr) *Term {
	args := []*Term{a.ref}
	if a.elem {
		args = append(args, a.idx)
	}
	t := App("addr:"+typeKey(a.T)+a.path, SInt, args...)
	x.fact(Not(Eq(t, I(0))))
	return t
}

// checkWrite: ownership. A write may only touch memory allocated by this
// activation or named in the contract's modifies clause.
func (x *Exec) checkWrite(st *State, a *Addr, pos token.Pos) {
	x.ownCheck(st, a.ref, func() *Term {
		if x.allowed == nil {
			return False
		}
		key := ""
		if a.elem {
			key = "E|" + typeKey(a.T)
		} else {
			key = "F|" + typeKey(a.T) + "|" + a.path
		}
		return x.allowed(key, a.ref)
	}, "write", pos)
}

func (x *Exec) ownCheck(st *State, ref *Term, allowed func() *Term, what string, pos token.Pos) {
	if ownedTerm(ref) {
		return
	}
	al := allowed()
	if al == True {
		return
	}
	g := Or(al, Ge(ref, I(1000000)), Eq(ref, I(0)))
	x.oblige("frame", what+" to memory the caller did not hand over", []string{"C10"}, pos, st, g)
}

func ownedTerm(t *Term) bool {
	if t.isAlloc() {
		return true
	}
	if t.isInt() && t.n.Sign() == 0 {
		return true
	}
	if t.op == OIte {
		return ownedTerm(t.args[1]) && ownedTerm(t.args[2])
	}
	return false
}

func (x *Exec) addrOf(st *State, p Val) *Addr {
	if p.A != nil {
		return p.A
	}
	pt, ok := p.T.Underlying().(*types.Pointer)
	if !ok {
		x.fail("address of non-pointer %v", p.T)
	}
	et := pt.Elem()
	return &Addr{T: et, ref: p.t1()}
}

// ---- loops ----

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}
type Loops struct {
	byHeader map[*ssa.BasicBlock]*Loop
	rpo      []*ssa.BasicBlock
}

func (x *Exec) loops(fn *ssa.Function) *Loops {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	L := &Loops{byHeader: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		L.rpo = append(L.rpo, post[i])
	}
	for _, b := range L.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				lp := L.byHeader[s]
				if lp == nil {
					lp = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					L.byHeader[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[n] {
						continue
					}
					lp.blocks[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range L.byHeader {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		L.byHeader[h].ord = i
	}
	x.loopInfo[fn] = L
	return L
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

type regionResult struct {
	back  []edge
	exits []edge
	rets  []retState
}
type retState struct {
	st   *State
	vals []Val
}

// execRegion runs the blocks of a region starting from entry states (already
// including phi evaluation for the entry block when hdr is nil).
func (x *Exec) execRegion(fn *ssa.Function, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []edge, phisDone bool) regionResult {
	L := x.loops(fn)
	var res regionResult
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range L.rpo {
		if region != nil && !region[b] {
			continue
		}
		if done[b] {
			continue
		}
		inc := pending[b]
		if len(inc) == 0 {
			continue
		}
		var outs []edge
		if lp := L.byHeader[b]; lp != nil && !(b == entry && region != nil) {
			r := x.execLoop(fn, lp, inc)
			for n := range lp.blocks {
				done[n] = true
			}
			outs = r.exits
			res.rets = append(res.rets, r.rets...)
		} else {
			done[b] = true
			var st *State
			if b == entry && phisDone {
				st = inc[0].st
			} else {
				st = x.enter(b, inc)
			}
			if st == nil || st.dead() {
				continue
			}
			var rs *retState
			outs, rs = x.execBlock(fn, b, st)
			if rs != nil {
				res.rets = append(res.rets, *rs)
			}
		}
		for _, e := range outs {
			if e.st == nil || e.st.dead() {
				continue
			}
			if region != nil && e.to == entry {
				res.back = append(res.back, e)
			} else if region != nil && !region[e.to] {
				res.exits = append(res.exits, e)
			} else {
				pending[e.to] = append(pending[e.to], e)
			}
		}
	}
	return res
}

// enter evaluates phis per edge and merges.
func (x *Exec) enter(b *ssa.BasicBlock, in []edge) *State {
	var sts []*State
	for _, e := range in {
		if e.st == nil || e.st.dead() {
			continue
		}
		sts = append(sts, x.phis(b, e))
	}
	return mergeStates(sts)
}

func (x *Exec) phis(b *ssa.BasicBlock, e edge) *State {
	st := e.st
	if e.from == nil {
		return st
	}
	pi := -1
	for i, p := range b.Preds {
		if p == e.from {
			pi = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var pvs []pv
	for _, ins := range b.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{ph, x.value(st, ph.Edges[pi])})
	}
	if len(pvs) == 0 {
		return st
	}
	st = st.clone()
	for _, p := range pvs {
		v := p.v
		v.T = p.p.Type()
		st.env[p.p] = v
	}
	return st
}

func (x *Exec) execBlock(fn *ssa.Function, b *ssa.BasicBlock, st *State) ([]edge, *retState) {
	st = st.clone()
	for _, ins := range b.Instrs {
		if st.dead() {
			return nil, nil
		}
		if p := ins.Pos(); p.IsValid() {
			x.curPos = p
		}
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}, nil
		case *ssa.If:
			c := x.value(st, i.Cond).t1()
			if b.Succs[0] == b.Succs[1] {
				return []edge{{b, b.Succs[0], st}}, nil
			}
			s1, s2 := st, st.clone()
			s1.pc, s2.pc = And(st.pc, c), And(st.pc, Not(c))
			return []edge{{b, b.Succs[0], s1}, {b, b.Succs[1], s2}}, nil
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.value(st, r))
			}
			return nil, &retState{st, vs}
		case *ssa.Panic:
			x.oblige("safety", "explicit panic is unreachable", []string{"C01"}, i.Pos(), st, False)
			return nil, nil
		default:
			x.instr(fn, st, ins)
		}
	}
	return nil, nil
}

func (x *Exec) execLoop(fn *ssa.Function, lp *Loop, in []edge) regionResult {
	var inits []edge
	for _, e := range in {
		if e.st != nil && !e.st.dead() {
			inits = append(inits, e)
		}
	}
	if len(inits) == 0 {
		return regionResult{}
	}
	st0 := x.enter(lp.header, inits)
	if st0 == nil || st0.dead() {
		return regionResult{}
	}
	// 1. concrete unrolling
	if r, ok := x.tryUnroll(fn, lp, st0); ok {
		return r
	}
	// 2. invariant cut
	var phis []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, ph)
		} else {
			break
		}
	}
	name := fmt.Sprintf("%s.loop%d", shortName(fn.String()), lp.ord)
	var final regionResult
	x.cutLoop(name, fn, st0, phis, lp, func(st *State) ([]*State, func()) {
		r := x.execRegion(fn, lp.blocks, lp.header, []edge{{nil, lp.header, st}}, true)
		var backs []*State
		for _, e := range r.back {
			backs = append(backs, x.phis(lp.header, e))
		}
		return backs, func() { final = regionResult{exits: r.exits, rets: r.rets} }
	})
	return final
}

func (x *Exec) unrollLimit(fn *ssa.Function) (int, bool) {
	if c := x.C.byName[shortName(fn.String())]; c != nil && c.Unroll > 0 {
		return c.Unroll, true
	}
	if c := x.rootC; c != nil && c.Unroll > 0 && (fn == x.root || c.UnrollAll) {
		return c.Unroll, true
	}
	return 0, false
}

// tryUnroll unrolls while the loop is decided concretely, or up to a contract
// bound with an unwinding obligation.
func (x *Exec) tryUnroll(fn *ssa.Function, lp *Loop, st0 *State) (regionResult, bool) {
	bound, forced := x.unrollLimit(fn)
	save := x.checkpoint()
	var res regionResult
	st := st0
	for n := 0; ; n++ {
		if n > x.maxUnroll || forced && n > bound {
			if forced {
				// unwinding assertion
				x.oblige("unwind", fmt.Sprintf("loop ends within %d iterations", bound), x.rootTags(), lp.header.Instrs[0].Pos(), st, False)
				return res, true
			}
			x.restore(save)
			return regionResult{}, false
		}
		r := x.execRegion(fn, lp.blocks, lp.header, []edge{{nil, lp.header, st}}, true)
		res.exits = append(res.exits, r.exits...)
		res.rets = append(res.rets, r.rets...)
		var backs []*State
		for _, e := range r.back {
			backs = append(backs, x.phis(lp.header, e))
		}
		nx := mergeStates(backs)
		if nx == nil || nx.dead() {
			return res, true
		}
		if !forced {
			// the loop must be decided by constants: leaving and staying may not
			// both be open at a test of the header itself
			open := false
			for _, e := range r.exits {
				if e.from == lp.header && !e.st.dead() {
					open = true
				}
			}
			if open || !x.concreteHeader(lp) {
				x.restore(save)
				return regionResult{}, false
			}
		} else if n > 2 && nx.pc != False && len(res.exits) > 0 && n%4 == 3 {
			if !x.feasible(nx.pc, 2000) {
				// proved unreachable with the facts at hand: record it as the unwinding obligation
				x.oblige("unwind", fmt.Sprintf("loop ends within %d iterations", n+1), x.rootTags(), lp.header.Instrs[0].Pos(), nx, False)
				return res, true
			}
		}
		st = nx
	}
}

// concreteHeader: the header block must end in a conditional that can leave
// the loop (otherwise a "for {}" would unroll blindly).
func (x *Exec) concreteHeader(lp *Loop) bool {
	for _, s := range lp.header.Succs {
		if !lp.blocks[s] {
			return true
		}
	}
	return false
}

type checkpointT struct {
	facts, obls int
	seq         int
	lastRef     *Term
	wf          int
}

func (x *Exec) checkpoint() checkpointT {
	return checkpointT{len(x.facts), len(x.obls), x.seq, x.lastRef, 0}
}
func (x *Exec) restore(c checkpointT) {
	x.rollback(c.facts)
	x.obls = x.obls[:c.obls]
	x.lastRef = c.lastRef
}

func (x *Exec) rootTags() []string {
	if x.rootC != nil {
		return x.rootC.allTags()
	}
	return nil
}
