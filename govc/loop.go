package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopVar struct {
	name string
	sort Sort
	role string
	t    types.Type
	cur  *Term
	init *Term
	next func(*State) *Term
	grp  string // slice group key: leaves of one slice share it
	src  string // source variable name
}

type modInfo struct {
	refs  []*Term
	inner bool
	whole bool
}

type cand struct {
	key  string
	t    *Term
	name string
}

var verbose = os.Getenv("GOVC_V") != ""

// cutLoop verifies a loop by invariant inference (Houdini) and leaves the
// post-loop result in whatever the body's commit function stores.
func (x *Exec) cutLoop(name string, fn *ssa.Function, st0 *State, phis []*ssa.Phi, lp *Loop, body func(*State) ([]*State, func())) {
	startSeq := x.seq
	mods := map[string]*modInfo{}
	// 1. find what the loop writes
	for iter := 0; iter < 5; iter++ {
		x.trial++
		save := x.checkpoint()
		st, _ := x.loopState(st0, phis, mods, startSeq)
		head := map[string]*Term{}
		for k, v := range st.heap {
			head[k] = v
		}
		backs, _ := body(st)
		bst := mergeStates(backs)
		x.restore(save)
		x.trial--
		if bst == nil {
			break
		}
		changed := false
		var ks []string
		for k := range bst.heap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			h, ok := head[k]
			if !ok {
				h = Const("H0:"+k, heapSorts[k], 0)
			}
			if bst.heap[k] == h {
				continue
			}
			m := mods[k]
			if m == nil {
				m = &modInfo{}
				mods[k] = m
				changed = true
			}
			if x.collectMods(bst.heap[k], h, m, startSeq, map[*Term]bool{}) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// 2. Houdini
	memoKey := name + "@" + x.stackKey()
	alive := x.invMemo[memoKey]
	firstRound := true
	for round := 0; round < 12; round++ {
		x.trial++
		save := x.checkpoint()
		st, vars := x.loopState(st0, phis, mods, startSeq)
		cands := x.genCands(fn, st0, st, vars, lp)
		if alive != nil {
			var f []cand
			for _, c := range cands {
				if alive[c.key] {
					f = append(f, c)
				}
			}
			cands = f
		}
		if firstRound {
			mi := initMap(vars)
			goals := make([]*Term, len(cands))
			for i, c := range cands {
				goals[i] = splitIte(subst(c.t, mi))
			}
			ok := x.proveMany(st0.pc, goals)
			var f []cand
			for i, c := range cands {
				if ok[i] {
					f = append(f, c)
				} else if verbose {
					fmt.Fprintf(os.Stderr, "  [%s] init drops %s\n", name, c.key)
				}
			}
			cands = f
			firstRound = false
		}
		for _, c := range cands {
			x.fact(Imp(st.pc, c.t))
		}
		backs, _ := body(st)
		bst := mergeStates(backs)
		dropped := 0
		na := map[string]bool{}
		if bst != nil && !bst.dead() {
			mn := nextMap(vars, bst)
			goals := make([]*Term, len(cands))
			for i, c := range cands {
				goals[i] = splitIte(subst(c.t, mn))
			}
			ok := x.proveMany(bst.pc, goals)
			for i, c := range cands {
				if ok[i] {
					na[c.key] = true
				} else {
					dropped++
					if verbose {
						fmt.Fprintf(os.Stderr, "  [%s] step drops %s\n", name, c.key)
						if d := os.Getenv("GOVC_CAND"); d != "" && strings.Contains(c.key, d) {
							as := x.relevant(len(x.facts), bst.pc, Not(goals[i]))
							as = append(append([]*Term{}, as...), foldAxioms(as)...)
							os.WriteFile("/tmp/cand.smt2", []byte(Script(as)+"(check-sat)\n(get-model)\n"), 0o644)
							fmt.Fprintf(os.Stderr, "GOAL %s\nPC %s\n", goals[i], bst.pc)
						}
					}
				}
			}
		} else {
			for _, c := range cands {
				na[c.key] = true
			}
		}
		alive = na
		x.restore(save)
		x.trial--
		if dropped == 0 {
			break
		}
	}
	x.invMemo[memoKey] = alive
	// 3. final pass
	st, vars := x.loopState(st0, phis, mods, startSeq)
	cands := x.genCands(fn, st0, st, vars, lp)
	var keep []cand
	for _, c := range cands {
		if alive[c.key] {
			keep = append(keep, c)
		}
	}
	if verbose && x.trial == 0 {
		for _, c := range keep {
			fmt.Fprintf(os.Stderr, "  [%s] invariant %s\n", name, c.key)
		}
	}
	mi := initMap(vars)
	var gi []*Term
	for _, c := range keep {
		gi = append(gi, splitIte(subst(c.t, mi)))
	}
	x.oblige("invariant", "loop invariants hold on entry of "+name, x.rootTags(), 0, st0, And(gi...))
	for _, c := range keep {
		x.fact(Imp(st.pc, c.t))
	}
	backs, commit := body(st)
	bst := mergeStates(backs)
	if bst != nil && !bst.dead() {
		mn := nextMap(vars, bst)
		var gn []*Term
		for _, c := range keep {
			gn = append(gn, splitIte(subst(c.t, mn)))
		}
		x.oblige("invariant", "loop invariants are maintained by "+name, x.rootTags(), 0, bst.clone(), And(gn...))
	}
	commit()
}

func (x *Exec) stackKey() string {
	var s []string
	for _, f := range x.stack {
		s = append(s, f.Name())
	}
	return strings.Join(s, ">")
}

func initMap(vars []loopVar) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, v := range vars {
		m[v.cur] = v.init
	}
	return m
}
func nextMap(vars []loopVar, b *State) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, v := range vars {
		m[v.cur] = v.next(b)
	}
	return m
}

// collectMods walks the array term t down to base h collecting written refs.
func (x *Exec) collectMods(t, h *Term, m *modInfo, startSeq int, seen map[*Term]bool) bool {
	if t == h || seen[t] {
		return false
	}
	seen[t] = true
	ch := false
	addRef := func(r *Term) {
		for _, l := range leavesOf(r) {
			if l.seq > startSeq {
				if l.isAlloc() {
					if !m.inner {
						m.inner = true
						ch = true
					}
				} else if !m.whole {
					if verbose {
						fmt.Fprintf(os.Stderr, "  whole havoc because of %s\n", l)
					}
					m.whole = true
					ch = true
				}
				continue
			}
			dup := false
			for _, o := range m.refs {
				if o == l {
					dup = true
				}
			}
			if !dup {
				m.refs = append(m.refs, l)
				ch = true
			}
		}
	}
	// A store over one of the head array's own stores is simplified into a
	// store on the array below it: reaching that array means the stores
	// peeled on the way were overwritten.
	for b := h; b.op == OStore; {
		b = b.args[0]
		if b == t {
			for b := h; b != t; b = b.args[0] {
				addRef(b.args[1])
			}
			return ch
		}
	}
	switch t.op {
	case OStore:
		addRef(t.args[1])
		if x.collectMods(t.args[0], h, m, startSeq, seen) {
			ch = true
		}
	case OIte:
		if x.collectMods(t.args[1], h, m, startSeq, seen) {
			ch = true
		}
		if x.collectMods(t.args[2], h, m, startSeq, seen) {
			ch = true
		}
	case OConst:
		if t.fr != nil {
			for _, e := range t.fr.exc {
				addRef(e)
			}
			if !m.inner {
				m.inner = true
				ch = true
			}
			if x.collectMods(t.fr.base, h, m, startSeq, seen) {
				ch = true
			}
		} else if !m.whole {
			if verbose {
				fmt.Fprintf(os.Stderr, "  whole havoc because of array %s (head %s)\n", t, h)
			}
			m.whole = true
			ch = true
		}
	default:
		if !m.whole {
			m.whole = true
			ch = true
		}
	}
	return ch
}

func leavesOf(t *Term) []*Term {
	if t.op == OIte {
		return append(leavesOf(t.args[1]), leavesOf(t.args[2])...)
	}
	return []*Term{t}
}

func (x *Exec) loopState(st0 *State, phis []*ssa.Phi, mods map[string]*modInfo, startSeq int) (*State, []loopVar) {
	st := st0.clone()
	var vars []loopVar
	for pi, ph := range phis {
		iv := st0.env[ph]
		if iv.bad != "" || iv.A != nil || iv.Tup != nil {
			x.fail("loop variable %s of unsupported shape", ph.Name())
		}
		ls := layout(ph.Type())
		nv := Val{T: ph.Type(), L: make([]*Term, len(ls))}
		nm := fmt.Sprintf("phi%d", pi)
		src := ph.Comment
		for i, l := range ls {
			c := x.fresh("L_"+src+l.path, l.sort)
			nv.L[i] = c
			i := i
			ph := ph
			vars = append(vars, loopVar{name: nm + l.path, sort: l.sort, role: l.role, t: l.t, cur: c, init: iv.L[i], grp: nm, src: src,
				next: func(b *State) *Term { return b.env[ph].L[i] }})
		}
		x.wf(nv)
		st.env[ph] = nv
	}
	var ks []string
	for k := range mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := mods[k]
		base := st0.get(k, heapSorts[k])
		srt := heapSorts[k]
		if m.whole {
			x.seq++
			c := Fresh("HL:"+k, srt, x.seq)
			st.set(k, c)
			k := k
			vars = append(vars, loopVar{name: "heap:" + k, sort: srt, cur: c, init: base, next: func(b *State) *Term { return b.get(k, srt) }})
			continue
		}
		arr := base
		if m.inner {
			x.seq++
			c := Fresh("HL:"+k, srt, x.seq)
			c.fr = &frameInfo{base: base, seq: startSeq + 1, exc: append([]*Term{}, m.refs...)}
			if x.lastRef != nil {
				r := Bound("r", SInt)
				cond := []*Term{Le(r, x.lastRef)}
				for _, e := range m.refs {
					cond = append(cond, Not(Eq(r, e)))
				}
				x.fact(Forall([]*Term{r}, Imp(And(cond...), Eq(mk(&Term{op: OSelect, sort: elemOf(srt), args: []*Term{c, r}}), Select(base, r))), mk(&Term{op: OSelect, sort: elemOf(srt), args: []*Term{c, r}})))
			} else {
				r := Bound("r", SInt)
				cond := []*Term{Lt(r, I(1000000))}
				for _, e := range m.refs {
					cond = append(cond, Not(Eq(r, e)))
				}
				x.fact(Forall([]*Term{r}, Imp(And(cond...), Eq(mk(&Term{op: OSelect, sort: elemOf(srt), args: []*Term{c, r}}), Select(base, r))), mk(&Term{op: OSelect, sort: elemOf(srt), args: []*Term{c, r}})))
			}
			arr = c
			k := k
			vars = append(vars, loopVar{name: "heapin:" + k, sort: srt, cur: c, init: base, next: func(b *State) *Term { return b.get(k, srt) }, role: "framed"})
		}
		for ri, r := range m.refs {
			// two written refs may alias: values are havocked in order, later wins
			es := elemOf(srt)
			c := x.fresh("HV:"+k, es)
			arr = Store(arr, r, c)
			r, k := r, k
			role, t, grp := heapRole(k)
			vars = append(vars, loopVar{name: fmt.Sprintf("cell%d:%s", ri, k), sort: es, cur: c, init: Select(base, r), role: role, t: t, grp: fmt.Sprintf("cell%d:%s", ri, grp),
				next: func(b *State) *Term { return Select(b.get(k, srt), r) }})
		}
		st.set(k, arr)
	}
	return st, vars
}

// heapRole guesses the role of the leaf stored under a heap key.
func heapRole(k string) (string, types.Type, string) {
	for _, r := range []string{".ref", ".off", ".len", ".cap"} {
		if strings.HasSuffix(k, r) {
			return "slice" + r, nil, strings.TrimSuffix(k, r)
		}
	}
	for _, r := range []string{".Y", ".M", ".D", ".S", ".N", ".loc"} {
		if strings.HasSuffix(k, r) {
			return "time" + r, nil, strings.TrimSuffix(k, r)
		}
	}
	return "", nil, k
}

// ---- candidate invariants ----

func (x *Exec) genCands(fn *ssa.Function, st0, st *State, vars []loopVar, lp *Loop) []cand {
	var out []cand
	seen := map[string]bool{}
	add := func(key string, t *Term) {
		if t == True || t == False || seen[key] || t.hasBound {
			return
		}
		seen[key] = true
		out = append(out, cand{key: key, t: t})
	}
	type bnd struct {
		name string
		t    *Term
	}
	// invariant lengths and integers in scope
	var lens []bnd
	lseen := map[*Term]bool{}
	addLen := func(n string, t *Term) {
		if !lseen[t] && len(lens) < 14 {
			lseen[t] = true
			lens = append(lens, bnd{n, t})
		}
	}
	for _, v := range vars {
		if v.role == "slice.len" {
			addLen("len("+v.name+")", v.cur)
		}
	}
	for _, u := range x.usedInLoop(fn, lp, st) {
		ls := layout(u.v.T)
		if len(ls) == len(u.v.L) {
			for i, l := range ls {
				if l.role == "slice.len" && !u.v.L[i].isInt() {
					addLen("len "+u.name+l.path, u.v.L[i])
				}
				if l.role == "" && l.t != nil {
					if b, ok := l.t.Underlying().(*types.Basic); ok && l.path == "" {
						if b.Info()&types.IsString != 0 {
							addLen("slen "+u.name, x.strLen(u.v.L[i]))
						} else if b.Info()&types.IsInteger != 0 {
							addLen("int "+u.name, u.v.L[i])
						}
					}
				}
			}
		}
	}
	for _, v := range vars {
		if v.sort == SInt && v.role == "" && v.t != nil {
			if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				addLen("slen("+v.name+")", x.strLen(v.cur))
			}
		}
	}
	for _, v := range vars {
		switch {
		case v.sort == SBool:
			add("eqinit "+v.name, Eq(v.cur, v.init))
		case v.sort == SReal:
			add("eqinit "+v.name, Eq(v.cur, v.init))
			add("ge0 "+v.name, Ge(v.cur, RI(0)))
		case v.sort == SInt && strings.HasPrefix(v.role, "slice."):
			switch v.role {
			case "slice.off":
				add("off0 "+v.name, Eq(v.cur, I(0)))
				add("eqinit "+v.name, Eq(v.cur, v.init))
			case "slice.ref":
				add("eqinit "+v.name, Eq(v.cur, v.init))
				lim := I(1000000)
				add("fresh "+v.name, Or(Eq(v.cur, I(0)), Ge(v.cur, lim)))
			case "slice.len":
				add("eqinit "+v.name, Eq(v.cur, v.init))
				add("geinit "+v.name, Ge(v.cur, v.init))
				add("leinit "+v.name, Le(v.cur, v.init))
				add("ge0 "+v.name, Ge(v.cur, I(0)))
				add("ge1 "+v.name, Ge(v.cur, I(1)))
				for _, l := range lens {
					if l.t != v.cur {
						add("leneq "+v.name+" "+l.name, Eq(v.cur, l.t))
						add("lenle "+v.name+" "+l.name, Le(v.cur, l.t))
						add("lenlt "+v.name+" "+l.name, Le(Add(v.cur, I(1)), l.t))
					}
				}
			case "slice.cap":
				add("eqinit "+v.name, Eq(v.cur, v.init))
			}
		case v.sort == SInt && strings.HasPrefix(v.role, "time."):
			add("eqinit "+v.name, Eq(v.cur, v.init))
		case v.sort == SInt:
			isNum := false
			isStr := false
			if v.t != nil {
				if b, ok := v.t.Underlying().(*types.Basic); ok {
					isNum = b.Info()&types.IsInteger != 0
					isStr = b.Info()&types.IsString != 0
				}
			} else {
				isNum = true
			}
			add("eqinit "+v.name, Eq(v.cur, v.init))
			if isStr {
				add("nonempty "+v.name, Not(Eq(v.cur, S(""))))
			}
			if isNum {
				add("geinit "+v.name, Ge(v.cur, v.init))
				add("leinit "+v.name, Le(v.cur, v.init))
				add("ge0 "+v.name, Ge(v.cur, I(0)))
				add("gem1 "+v.name, Ge(v.cur, I(-1)))
				for _, l := range lens {
					if l.t == v.cur {
						continue
					}
					add("le "+v.name+" "+l.name, Le(v.cur, l.t))
					add("lt "+v.name+" "+l.name, Lt(v.cur, l.t))
					add("ge "+v.name+" "+l.name, Ge(v.cur, l.t))
					add("eq "+v.name+" "+l.name, Eq(v.cur, l.t))
					add("eq1 "+v.name+" "+l.name, Eq(Add(v.cur, I(1)), l.t))
				}
				for _, w := range vars {
					if w.sort == SInt && w.role == "" && w.t != nil && w.name != v.name {
						if b, ok := w.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
							add("vle "+v.name+" "+w.name, Le(v.cur, w.cur))
							if v.name < w.name {
								add("veq "+v.name+" "+w.name, Eq(v.cur, w.cur))
							}
						}
					}
				}
			} else if v.t != nil && !isStr {
				add("freshref "+v.name, Or(Eq(v.cur, I(0)), Ge(v.cur, I(1000000))))
				add("nonnil "+v.name, Not(Eq(v.cur, I(0))))
			}
		}
	}
	for _, t := range x.templateCands(fn, st0, st, vars, lp) {
		add(t.key, t.t)
	}
	return out
}

type usedVal struct {
	name string
	v    Val
}

// usedInLoop lists loop-invariant values the loop body refers to.
func (x *Exec) usedInLoop(fn *ssa.Function, lp *Loop, st *State) []usedVal {
	var out []usedVal
	if lp == nil {
		return nil
	}
	seen := map[ssa.Value]bool{}
	var bs []*ssa.BasicBlock
	for b := range lp.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if iv, ok := v.(ssa.Instruction); ok && iv.Block() != nil && lp.blocks[iv.Block()] {
					// a load of an invariant heap cell is interesting too
					if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							if bv, ok := st.env[fa.X]; ok && bv.bad == "" {
								func() {
									defer func() { recover() }()
									a := x.fieldAddr(x.addrOf(st, bv), fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
									val := x.load(st, a, u.Type())
									out = append(out, usedVal{"*" + fa.X.Name() + "." + fieldName(fa), val})
								}()
							}
						}
					}
					continue
				}
				val, ok := st.env[v]
				if !ok || val.bad != "" || val.A != nil {
					if ok && val.A != nil {
						if pt, isP := v.Type().Underlying().(*types.Pointer); isP {
							if _, isS := pt.Elem().Underlying().(*types.Slice); isS {
								out = append(out, usedVal{"*" + v.Name(), x.load(st, val.A, pt.Elem())})
							}
						}
					}
					continue
				}
				if _, isC := v.(*ssa.Const); isC {
					continue
				}
				out = append(out, usedVal{v.Name(), val})
			}
		}
	}
	return out
}

func fieldName(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// proveMany returns which goals are implied by the facts and pc (and by the
// remaining goals not being needed).
func (x *Exec) proveMany(pc *Term, goals []*Term) []bool {
	ok := make([]bool, len(goals))
	active := map[int]bool{}
	for i, g := range goals {
		if g == True || pc == False {
			ok[i] = true
		} else if g == False {
			ok[i] = false
		} else {
			active[i] = true
		}
	}
	for len(active) > 0 {
		var idx []int
		for i := range active {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		var sels []*Term
		var cs []*Term
		names := map[string]int{}
		for _, i := range idx {
			s := Const(fmt.Sprintf("sel!%d", i), SBool, 0)
			names[s.name] = i
			sels = append(sels, s)
			cs = append(cs, mk(&Term{op: OOr, sort: SBool, args: []*Term{Not(s), Not(goals[i])}}))
		}
		neg := And(append(cs, mkOr(sels))...)
		as := x.relevant(len(x.facts), pc, neg)
		r, m, _ := x.S.Check(as, 3000, true, false)
		if r == "unsat" {
			for _, i := range idx {
				ok[i] = true
			}
			return ok
		}
		if r == "sat" {
			drop := parseTrueSels(m)
			n := 0
			for _, s := range drop {
				if i, has := names[s]; has && active[i] {
					delete(active, i)
					n++
				}
			}
			if n > 0 {
				continue
			}
		}
		// unknown: one by one
		for _, i := range idx {
			ok[i] = x.prove(pc, goals[i], 1500)
		}
		return ok
	}
	return ok
}

func mkOr(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return mk(&Term{op: OOr, sort: SBool, args: ts})
}

func parseTrueSels(m string) []string {
	var out []string
	for i := 0; ; {
		j := strings.Index(m[i:], "sel!")
		if j < 0 {
			return out
		}
		i += j
		e := i
		for e < len(m) && m[e] != '|' && m[e] != ' ' && m[e] != ')' {
			e++
		}
		name := m[i:e]
		rest := m[e:]
		if len(rest) > 60 {
			rest = rest[:60]
		}
		if k := strings.Index(rest, "Bool"); k >= 0 && k < 12 {
			v := strings.TrimSpace(rest[k+4:])
			if strings.HasPrefix(v, "true") {
				out = append(out, name)
			}
		}
		i = e
	}
}
