package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]

// pseudo environment keys that carry results through state merges
var retKeys = func() []*ssa.Parameter {
	out := make([]*ssa.Parameter, 12)
	for i := range out {
		out[i] = new(ssa.Parameter)
	}
	return out
}()

// ---- calls ----

func (x *Exec) call(st *State, cc *ssa.CallCommon, ins ssa.Instruction, typ types.Type) Val {
	pos := ins.Pos()
	if cc.IsInvoke() {
		recv := x.value(st, cc.Value)
		x.oblige("safety", "method call on nil interface", []string{"C01"}, pos, st, Not(Eq(recv.t1(), I(0))))
		return x.opaqueResult("invoke."+cc.Method.Name(), typ, []Val{recv})
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range cc.Args {
			args = append(args, x.value(st, a))
		}
		return x.builtin(st, b.Name(), args, cc, typ, pos)
	}
	var args []Val
	for _, a := range cc.Args {
		v := x.value(st, a)
		v.T = a.Type()
		args = append(args, v)
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, x.value(st, b))
			}
		}
		return x.callFn(st, f, binds, args, typ, pos)
	}
	fv := x.value(st, cc.Value)
	hint := fieldHint(cc.Value)
	return x.callVal(st, fv, hint, args, typ, pos)
}

// fieldHint names the struct field a function value was loaded from.
func fieldHint(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem()) + "." + fieldName(fa)
		}
	}
	return ""
}

// callVal calls a function value.
func (x *Exec) callVal(st *State, fv Val, hint string, args []Val, typ types.Type, pos token.Pos) Val {
	if fv.bad != "" {
		x.fail("call of %s", fv.bad)
	}
	t := fv.t1()
	if f := lookupFunc(t); f != nil {
		return x.callFuncVal(st, f, args, typ, pos)
	}
	if t.op == OIte && (iteHasFunc(t)) {
		s1, s2 := st.clone(), st.clone()
		s1.pc, s2.pc = And(st.pc, t.args[0]), And(st.pc, Not(t.args[0]))
		a, b := fv, fv
		a.L, b.L = []*Term{t.args[1]}, []*Term{t.args[2]}
		var live []*State
		var last Val
		for i, s := range []*State{s1, s2} {
			if s.dead() {
				continue
			}
			v := a
			if i == 1 {
				v = b
			}
			r := x.callVal(s, v, hint, args, typ, pos)
			if s.dead() {
				continue
			}
			r.T = typ
			s.env[retKeys[11]] = r
			live = append(live, s)
			last = r
		}
		m := mergeStates(live)
		if m == nil {
			st.pc = False
			return x.deadVal(typ)
		}
		if v, ok := m.env[retKeys[11]]; ok {
			last = v
		}
		delete(m.env, retKeys[11])
		*st = *m
		return last
	}
	x.oblige("safety", "call of nil function", []string{"C01"}, pos, st, Not(Eq(t, I(0))))
	if hint != "" {
		if c := x.C.byName["field "+hint]; c != nil {
			return x.modularCall(st, c, nil, args, typ, pos)
		}
	}
	x.note("caller-supplied function values (language detector, date order, iteration callbacks) return normally and touch only their own data")
	return x.opaqueResult("callback:"+typeKey(fv.T), typ, append([]Val{fv}, args...))
}

func iteHasFunc(t *Term) bool {
	if t.op == OIte {
		return iteHasFunc(t.args[1]) || iteHasFunc(t.args[2])
	}
	return lookupFunc(t) != nil
}

func (x *Exec) deadVal(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tp.At(i).Type()))
		}
		if v.Tup == nil {
			v.Tup = []Val{}
		}
		return v
	}
	return zeroVal(t)
}

func (x *Exec) callFuncVal(st *State, f *FuncVal, args []Val, typ types.Type, pos token.Pos) Val {
	if f.kind != "" {
		return x.callIter(st, f, args, typ, pos)
	}
	return x.callFn(st, f.fn, f.binds, args, typ, pos)
}

func funcKey(f *ssa.Function) string {
	s := f.String()
	if f.Origin() != nil {
		s = f.Origin().String()
	}
	return shortName(s)
}

func (x *Exec) callFn(st *State, f *ssa.Function, binds []Val, args []Val, typ types.Type, pos token.Pos) Val {
	key := funcKey(f)
	if m, ok := models[key]; ok {
		x.models[key] = true
		return m(x, st, f, args, typ, pos)
	}
	if c := x.C.byName[key]; c != nil && !c.Inline {
		return x.modularCall(st, c, f, args, typ, pos)
	}
	if len(f.Blocks) == 0 {
		x.note("external function " + key + " is assumed to return normally, to be a function of its arguments and to touch no shared data")
		return x.opaqueResult(key, typ, args)
	}
	for _, g := range x.stack {
		if g == f {
			x.fail("recursive call of %s needs a contract", key)
		}
	}
	if len(x.stack) > 24 {
		x.fail("inlining too deep at %s", key)
	}
	return x.inline(st, f, binds, args, typ, pos)
}

func (x *Exec) inline(st *State, f *ssa.Function, binds []Val, args []Val, typ types.Type, pos token.Pos) Val {
	x.inlined[funcKey(f)] = true
	callerEnv := st.env
	env := map[ssa.Value]Val{}
	for i, p := range f.Params {
		v := args[i]
		v.T = p.Type()
		env[p] = v
	}
	for i, fv := range f.FreeVars {
		v := binds[i]
		v.T = fv.Type()
		env[fv] = v
	}
	cs := &State{pc: st.pc, heap: st.heap, env: env}
	rets := x.runBody(f, cs, args)
	var live []*State
	nres := f.Signature.Results().Len()
	for _, r := range rets {
		if r.st.dead() {
			continue
		}
		s := &State{pc: r.st.pc, heap: r.st.heap, env: map[ssa.Value]Val{}}
		for i := 0; i < nres; i++ {
			v := r.vals[i]
			v.T = f.Signature.Results().At(i).Type()
			s.env[retKeys[i]] = v
		}
		live = append(live, s)
	}
	m := mergeStates(live)
	if m == nil {
		st.pc = False
		return x.deadVal(typ)
	}
	st.pc = m.pc
	st.heap = m.heap
	st.env = callerEnv
	var vs []Val
	for i := 0; i < nres; i++ {
		v, ok := m.env[retKeys[i]]
		if !ok {
			x.fail("result of %s lost in merge", f)
		}
		vs = append(vs, v)
	}
	if nres == 1 {
		v := vs[0]
		v.T = typ
		return v
	}
	if vs == nil {
		vs = []Val{}
	}
	return Val{T: typ, Tup: vs}
}

// runBody executes a function body on a state whose env holds the parameters.
func (x *Exec) runBody(f *ssa.Function, st *State, args []Val) []retState {
	x.stack = append(x.stack, f)
	x.frames = append(x.frames, &Frame{fn: f, args: args})
	savePos := x.curPos
	defer func() {
		x.stack = x.stack[:len(x.stack)-1]
		x.frames = x.frames[:len(x.frames)-1]
		x.curPos = savePos
	}()
	if x.budget++; x.budget > 400000 {
		x.fail("execution budget exceeded")
	}
	r := x.execRegion(f, nil, f.Blocks[0], []edge{{nil, f.Blocks[0], st}}, true)
	return r.rets
}

// ---- defers ----

func (x *Exec) deferCall(st *State, i *ssa.Defer) {
	fr := x.frames[len(x.frames)-1]
	d := deferred{call: &i.Call, instr: i, pc: st.pc}
	for _, a := range i.Call.Args {
		d.args = append(d.args, x.value(st, a))
	}
	if _, ok := i.Call.Value.(*ssa.Builtin); !ok && !i.Call.IsInvoke() && i.Call.StaticCallee() == nil {
		d.fv = x.value(st, i.Call.Value)
	}
	if mc, ok := i.Call.Value.(*ssa.MakeClosure); ok {
		d.fv = x.value(st, mc)
	}
	for k, o := range fr.deferSt {
		if o.instr == d.instr {
			fr.deferSt[k] = d
			return
		}
	}
	fr.deferSt = append(fr.deferSt, d)
}

func (x *Exec) runDefers(st *State) {
	fr := x.frames[len(x.frames)-1]
	for k := len(fr.deferSt) - 1; k >= 0; k-- {
		d := fr.deferSt[k]
		cond := condOf(st.pc, d.pc)
		if cond == False {
			continue
		}
		run := func(s *State) {
			if f := d.call.StaticCallee(); f != nil {
				var binds []Val
				if fv := lookupFuncVal(d.fv); fv != nil {
					binds = fv.binds
				}
				x.callFn(s, f, binds, d.args, f.Signature.Results(), d.instr.Pos())
			} else if d.fv.T != nil {
				x.callVal(s, d.fv, "", d.args, d.call.Signature().Results(), d.instr.Pos())
			} else {
				x.fail("deferred call %s", d.instr)
			}
		}
		if cond == True {
			run(st)
			continue
		}
		s1, s2 := st.clone(), st.clone()
		s1.pc = And(st.pc, d.pc)
		s2.pc = And(st.pc, Not(d.pc))
		run(s1)
		if m := mergeStates([]*State{s1, s2}); m != nil {
			*st = *m
		} else {
			st.pc = False
		}
	}
}

func lookupFuncVal(v Val) *FuncVal {
	if v.T == nil || len(v.L) != 1 {
		return nil
	}
	return lookupFunc(v.L[0])
}

// condOf: is d implied by pc syntactically?
func condOf(pc, d *Term) *Term {
	have := map[*Term]bool{}
	for _, c := range conj(pc) {
		have[c] = true
	}
	all := true
	for _, c := range conj(d) {
		if have[Not(c)] {
			return False
		}
		if !have[c] {
			all = false
		}
	}
	if all {
		return True
	}
	return nil
}

// ---- opaque results ----

// opaqueResult: a function of the arguments when all arguments are scalars,
// an unknown value otherwise.
func (x *Exec) opaqueResult(name string, typ types.Type, args []Val) Val {
	var ts []*Term
	ok := true
	for _, a := range args {
		if a.bad != "" || a.Tup != nil {
			ok = false
			continue
		}
		if a.A != nil {
			ok = false
			continue
		}
		for i, l := range layout(a.T) {
			if i >= len(a.L) {
				break
			}
			if l.role == "ref" || strings.HasPrefix(l.role, "slice.") || l.role == "arr" || isArr(a.L[i].sort) {
				ok = false
			}
			ts = append(ts, a.L[i])
		}
	}
	mkOne := func(sub string, t types.Type) Val {
		if !ok {
			return x.freshVal("res:"+name+sub, t)
		}
		ls := layout(t)
		v := Val{T: t, L: make([]*Term, len(ls))}
		for i, l := range ls {
			if l.role == "ref" || strings.HasPrefix(l.role, "slice.") {
				v.L[i] = x.fresh("res:"+name+sub+l.path, l.sort)
			} else {
				v.L[i] = App("fn:"+name+sub+l.path, l.sort, ts...)
			}
		}
		x.wf(v)
		return v
	}
	if tp, isT := typ.(*types.Tuple); isT {
		v := Val{T: typ, Tup: []Val{}}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, mkOne("#"+string(rune('0'+i)), tp.At(i).Type()))
		}
		return v
	}
	return mkOne("", typ)
}

// ---- modular calls ----

func (x *Exec) modularCall(st *State, c *Contract, f *ssa.Function, args []Val, typ types.Type, pos token.Pos) Val {
	x.modular[c.Name] = true
	if c.Trusted {
		x.note("contract of " + c.Name + " is trusted: " + c.Why)
	}
	env := &SpecEnv{x: x, c: c, names: map[string]Val{}, st: st, pc: st.pc}
	c.bindParams(env, f, args)
	for _, cl := range c.Requires {
		g := x.evalBool(env, cl)
		tags := cl.Tags
		if len(tags) == 0 {
			tags = c.allTags()
		}
		x.oblige("requires", "precondition of "+c.Name+": "+cl.Src, tags, pos, st, g)
	}
	if st.dead() {
		return x.deadVal(typ)
	}
	old := st.clone()
	env.old = old
	// frame
	for _, m := range c.Modifies {
		x.havocLoc(st, env, m, pos)
	}
	// allocation watermark: anything the callee allocates lies between old and new last
	before := x.lastRef
	resT := typ
	res := x.modResult(c, resT)
	x.newRef()
	env.st = st
	env.setResult(res)
	for _, cl := range c.Ensures {
		env.pos = true
		t := x.evalBool(env, cl)
		x.fact(Imp(st.pc, t))
	}
	_ = before
	if c.NoReturn {
		st.pc = False
	}
	return res
}

func (x *Exec) modResult(c *Contract, t types.Type) Val {
	one := func(i int, t types.Type) Val {
		v := x.freshVal("r:"+c.Name, t)
		fr := false
		for _, n := range c.Fresh {
			if n == i {
				fr = true
			}
		}
		ls := layout(t)
		for j, l := range ls {
			if l.role != "ref" && l.role != "slice.ref" {
				continue
			}
			switch t.Underlying().(type) {
			case *types.Signature, *types.Interface:
				continue
			}
			if fr {
				// freshly allocated (or nil)
				r := x.newRef()
				if c.MaybeNil[i] {
					b := x.fresh("isnil", SBool)
					nv := Ite(b, I(0), r)
					if l.role == "slice.ref" {
						x.fact(Imp(b, And(Eq(v.L[j+1], I(0)), Eq(v.L[j+2], I(0)), Eq(v.L[j+3], I(0)))))
					}
					v.L[j] = nv
				} else {
					v.L[j] = r
				}
				if l.role == "slice.ref" {
					x.fact(And(Ge(v.L[j+1], I(0)), Ge(v.L[j+2], I(0)), Ge(v.L[j+3], v.L[j+2])))
				}
			}
		}
		return v
	}
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t, Tup: []Val{}}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, one(i, tp.At(i).Type()))
		}
		return v
	}
	return one(0, t)
}

// havocLoc forgets one modified location (see Loc in contract.go).
func (x *Exec) havocLoc(st *State, env *SpecEnv, m *Clause, pos token.Pos) {
	for _, l := range x.locsOf(env, m) {
		what := l.key
		x.ownCheck(st, l.ref, func() *Term {
			if x.allowed == nil {
				return False
			}
			return x.allowed(l.allowKey, l.ref)
		}, "call writes "+what+":", pos)
		arr := st.get(l.key, l.sort)
		es := elemOf(l.sort)
		nv := x.fresh("mod:"+l.key, es)
		if !isArr(es) {
			x.modWF(l.leaf, nv)
		}
		st.set(l.key, Store(arr, l.ref, nv))
	}
}

func (x *Exec) modWF(l Leaf, v *Term) {
	if l.role == "slice.len" || l.role == "slice.off" || l.role == "slice.cap" {
		x.fact(Ge(v, I(0)))
		return
	}
	if l.sort == SInt && l.t != nil && l.role == "" {
		x.wfLeaf(l.t, v)
	}
}

// ---- builtins ----

func (x *Exec) builtin(st *State, name string, args []Val, cc *ssa.CallCommon, typ types.Type, pos token.Pos) Val {
	switch name {
	case "len", "cap":
		a := args[0]
		at := cc.Args[0].Type()
		switch u := at.Underlying().(type) {
		case *types.Basic:
			return mkVal(typ, x.strLen(a.t1()))
		case *types.Slice:
			if name == "cap" {
				return mkVal(typ, a.cap())
			}
			return mkVal(typ, a.len())
		case *types.Map:
			return mkVal(typ, x.mapLen(st, at, a.t1()))
		case *types.Array:
			return mkVal(typ, I(u.Len()))
		case *types.Pointer:
			return mkVal(typ, I(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		return x.doAppend(st, args, cc, typ, pos)
	case "copy":
		return x.doCopy(st, args, cc, typ, pos)
	case "delete":
		x.mapDelete(st, cc.Args[0].Type(), args[0].t1(), args[1].t1(), pos)
		return Val{T: typ, Tup: []Val{}}
	case "min", "max":
		r := args[0].t1()
		for _, a := range args[1:] {
			if name == "min" {
				r = Ite(Le(r, a.t1()), r, a.t1())
			} else {
				r = Ite(Ge(r, a.t1()), r, a.t1())
			}
		}
		return mkVal(typ, r)
	case "print", "println":
		return Val{T: typ, Tup: []Val{}}
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			dom, ln, _, _, _ := mapKeys(cc.Args[0].Type())
			m := args[0].t1()
			x.ownCheck(st, m, func() *Term {
				if x.allowed == nil {
					return False
				}
				return x.allowed(strings.TrimSuffix(dom, "|dom"), m)
			}, "map clear", pos)
			st.set(dom, Store(st.get(dom, arrOf(arrOf(SBool))), m, ConstArr(arrOf(SBool), False)))
			st.set(ln, Store(st.get(ln, arrOf(SInt)), m, I(0)))
			return Val{T: typ, Tup: []Val{}}
		}
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0], pos, "method on nil")
		return args[0]
	}
	x.fail("builtin %s", name)
	return Val{}
}

func (x *Exec) doAppend(st *State, args []Val, cc *ssa.CallCommon, typ types.Type, pos token.Pos) Val {
	s := args[0]
	et := elemType(typ)
	if isStringType(cc.Args[1].Type()) {
		x.fail("append of string")
	}
	t := args[1]
	x.ownCheck(st, s.ref(), func() *Term {
		if x.allowed == nil {
			return False
		}
		// writing past the length is only visible through shared capacity
		return Or(x.allowed("E|"+typeKey(et), s.ref()), Eq(s.cap(), s.len()))
	}, "append", pos)
	if t.len().isInt() && t.len().n.Sign() == 0 {
		return Val{T: typ, L: s.L}
	}
	r := x.newRef()
	newLen := Add(s.len(), t.len())
	cp := x.fresh("cap", SInt)
	x.fact(Ge(cp, newLen))
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		h := st.get(k, arrOf(arrOf(l.sort)))
		src := Select(h, s.ref())
		if s.len().isInt() && s.len().n.Sign() == 0 {
			src = ConstArr(arrOf(l.sort), zeroLeaf(l))
		}
		row := src
		if t.len().isInt() && t.len().n.BitLen() < 8 {
			n := int(t.len().int64())
			for i := 0; i < n; i++ {
				row = Store(row, Add(s.off(), s.len(), I(int64(i))), Select(Select(h, t.ref()), Add(t.off(), I(int64(i)))))
			}
		} else {
			row = x.fresh("row:"+k, arrOf(l.sort))
			b := Bound("k", SInt)
			sel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, b}})
			x.fact(Forall([]*Term{b}, Imp(And(Ge(b, s.off()), Lt(b, Add(s.off(), s.len()))), Eq(sel, Select(src, b))), sel))
			end := Add(s.off(), s.len())
			x.fact(Forall([]*Term{b}, Imp(And(Ge(b, end), Lt(b, Add(end, t.len()))), Eq(sel, Select(Select(h, t.ref()), Add(t.off(), Sub(b, end))))), sel))
			// the same fact read from the source side
			b2 := Bound("k", SInt)
			srcSel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{Select(h, t.ref()), Add(t.off(), b2)}})
			if t.off().isInt() && t.off().n.Sign() == 0 && !t.ref().isAlloc() {
				srcSel = mk(&Term{op: OSelect, sort: l.sort, args: []*Term{Select(h, t.ref()), b2}})
				x.fact(Forall([]*Term{b2}, Imp(And(Ge(b2, I(0)), Lt(b2, t.len())), Eq(srcSel, mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, Add(end, b2)}}))), srcSel))
			}
		}
		st.set(k, Store(st.get(k, arrOf(arrOf(l.sort))), r, row))
	}
	if t.len().isInt() {
		return mkVal(typ, r, s.off(), newLen, cp)
	}
	// appending an empty slice to nil keeps nil
	nr := Ite(And(Eq(newLen, I(0)), Eq(s.ref(), I(0))), I(0), r)
	if s.len().isInt() && s.len().n.Sign() != 0 {
		nr = r
	}
	if nr != r {
		cp = Ite(Eq(nr, I(0)), I(0), cp)
	}
	return mkVal(typ, nr, s.off(), newLen, cp)
}

func (x *Exec) doCopy(st *State, args []Val, cc *ssa.CallCommon, typ types.Type, pos token.Pos) Val {
	d, s := args[0], args[1]
	et := elemType(cc.Args[0].Type())
	n := Ite(Le(d.len(), s.len()), d.len(), s.len())
	x.ownCheck(st, d.ref(), func() *Term {
		if x.allowed == nil {
			return False
		}
		return x.allowed("E|"+typeKey(et), d.ref())
	}, "copy", pos)
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		h := st.get(k, arrOf(arrOf(l.sort)))
		row := x.fresh("row:"+k, arrOf(l.sort))
		b := Bound("k", SInt)
		sel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, b}})
		in := And(Ge(b, d.off()), Lt(b, Add(d.off(), n)))
		x.fact(Forall([]*Term{b}, Eq(sel, Ite(in, Select(Select(h, s.ref()), Add(s.off(), Sub(b, d.off()))), Select(Select(h, d.ref()), b))), sel))
		st.set(k, Store(h, d.ref(), row))
	}
	return mkVal(typ, n)
}

// sliceLit builds a fresh slice with the given elements.
func (x *Exec) sliceLit(st *State, t types.Type, elems []Val) Val {
	et := elemType(t)
	r := x.newRef()
	for li, l := range layout(et) {
		k := elemKey(et, l.path)
		row := ConstArr(arrOf(l.sort), zeroLeaf(l))
		for i, e := range elems {
			row = Store(row, I(int64(i)), e.L[li])
		}
		st.set(k, Store(st.get(k, arrOf(arrOf(l.sort))), r, row))
	}
	n := I(int64(len(elems)))
	return mkVal(t, r, I(0), n, n)
}

// freshSlice: a fresh slice of unknown content and the given length.
func (x *Exec) freshSlice(st *State, t types.Type, n *Term) Val {
	r := x.newRef()
	x.havocRow(st, elemType(t), r)
	return mkVal(t, r, I(0), n, n)
}

// elem reads s[i] without a bounds obligation.
func (x *Exec) elem(st *State, s Val, i *Term) Val {
	et := elemType(s.T)
	return x.load(st, &Addr{elem: true, T: et, ref: s.ref(), idx: Add(s.off(), i)}, et)
}

// concreteElems lists the elements of a slice of known length.
func (x *Exec) concreteElems(st *State, s Val) ([]Val, bool) {
	if !s.len().isInt() || s.len().n.BitLen() > 12 {
		return nil, false
	}
	n := int(s.len().int64())
	out := make([]Val, n)
	for i := range out {
		out[i] = x.elem(st, s, I(int64(i)))
	}
	return out, true
}

// ---- range-over-func ----

// callIter runs a library iterator: args[0] is the yield function.
func (x *Exec) callIter(st *State, f *FuncVal, args []Val, typ types.Type, pos token.Pos) Val {
	yield := args[0]
	done := Val{T: typ, Tup: []Val{}}
	switch f.kind {
	case "slice1": // iter.Seq over the elements of data[0]
		sl := f.data[0]
		if es, ok := x.concreteElems(st, sl); ok && len(es) <= x.maxUnroll {
			// s accumulates the states in which iteration continues
			var ended []*State
			cur := st.clone()
			for _, e := range es {
				if cur.dead() {
					break
				}
				r := x.callVal(cur, yield, "", []Val{e}, boolT, pos)
				stop := cur.clone()
				c := r.t1()
				stop.pc = And(cur.pc, Not(c))
				cur.pc = And(cur.pc, c)
				if !stop.dead() {
					ended = append(ended, stop)
				}
			}
			m := mergeStates(append(ended, cur))
			if m == nil {
				st.pc = False
			} else {
				m.env = st.env
				*st = *m
			}
			return done
		}
		// unbounded: cut
		st0 := st.clone()
		st0.set("IT|pos", st0.get("IT|pos", arrOf(SInt)))
		it := x.newRef()
		st0.set("IT|pos", Store(st0.get("IT|pos", arrOf(SInt)), it, I(0)))
		var result *State
		name := "iter@" + shortName(x.stack[len(x.stack)-1].String())
		x.fact(Ge(sl.len(), I(0)))
		x.cutLoop(name, nil, st0, nil, nil, func(s *State) ([]*State, func()) {
			P := s.get("IT|pos", arrOf(SInt))
			i := Select(P, it)
			x.fact(Imp(s.pc, Ge(i, I(0))))
			more := Lt(i, sl.len())
			fin := s.clone()
			fin.pc = And(s.pc, Not(more))
			b := s.clone()
			b.pc = And(s.pc, more)
			e := x.elem(b, sl, i)
			b.set("IT|pos", Store(b.get("IT|pos", arrOf(SInt)), it, Add(i, I(1))))
			r := x.callVal(b, yield, "", []Val{e}, boolT, pos)
			stop := b.clone()
			stop.pc = And(b.pc, Not(r.t1()))
			b.pc = And(b.pc, r.t1())
			return []*State{b}, func() { result = mergeStates([]*State{fin, stop}) }
		})
		if result == nil {
			st.pc = False
			return done
		}
		env := st.env
		*st = *result
		st.env = env
		return done
	}
	x.fail("iterator %s", f.kind)
	return done
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
