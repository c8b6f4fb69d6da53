package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func RI(n int64) *Term { return R(big.NewRat(n, 1)) }

func (x *Exec) value(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return mkVal(c.Type(), regFunc(&FuncVal{fn: c}))
	case *ssa.Global:
		return Val{T: c.Type(), A: &Addr{T: elemType(c.Type()), ref: I(globalRef(c))}}
	case *ssa.Builtin:
		return Val{T: c.Type(), bad: "builtin"}
	}
	r, ok := st.env[v]
	if !ok {
		x.fail("undefined value %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkVal(t, B(constant.BoolVal(c.Value)))
	case constant.String:
		return mkVal(t, S(constant.StringVal(c.Value)))
	case constant.Int, constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			r, _ := new(big.Rat).SetString(c.Value.ExactString())
			return mkVal(t, R(r))
		}
		n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if !ok {
			x.fail("const %s", c)
		}
		return mkVal(t, IB(n))
	}
	x.fail("const kind %s", c)
	return Val{}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) fieldAddr(a *Addr, st types.Type, i int) *Addr {
	f := st.Underlying().(*types.Struct).Field(i)
	n := *a
	n.path = a.path + "." + f.Name()
	return &n
}

func (x *Exec) nilCheck(st *State, p Val, pos token.Pos, what string) {
	if p.A != nil {
		return
	}
	t := p.t1()
	if t.isAlloc() {
		return
	}
	x.oblige("safety", "nil dereference: "+what, []string{"C01"}, pos, st, Not(Eq(t, I(0))))
}

func (x *Exec) instr(fn *ssa.Function, st *State, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := elemType(i.Type())
		r := x.newRef()
		x.zeroObj(st, et, r)
		st.env[i] = Val{T: i.Type(), L: []*Term{r}}
		if _, ok := et.Underlying().(*types.Array); ok {
			st.env[i] = Val{T: i.Type(), A: &Addr{T: et, ref: r}}
		}
	case *ssa.FieldAddr:
		p := x.value(st, i.X)
		x.nilCheck(st, p, i.Pos(), "field "+fieldName(i))
		a := x.addrOf(st, p)
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		st.env[i] = Val{T: i.Type(), A: x.fieldAddr(a, stt, i.Field)}
	case *ssa.Field:
		v := x.value(st, i.X)
		lo, hi := fieldRange(i.X.Type(), i.Field)
		if v.bad != "" {
			st.env[i] = Val{T: i.Type(), bad: v.bad}
			return
		}
		st.env[i] = Val{T: i.Type(), L: v.L[lo:hi]}
	case *ssa.IndexAddr:
		b := x.value(st, i.X)
		idx := x.value(st, i.Index).t1()
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			x.bounds(st, idx, b.len(), i.Pos())
			st.env[i] = Val{T: i.Type(), A: &Addr{elem: true, T: u.Elem(), ref: b.ref(), idx: Add(b.off(), idx)}}
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			x.bounds(st, idx, I(arr.Len()), i.Pos())
			a := x.addrOf(st, b)
			if a.elem || a.path != "" {
				x.fail("array inside an aggregate")
			}
			st.env[i] = Val{T: i.Type(), A: &Addr{elem: true, T: arr.Elem(), ref: a.ref, idx: idx}}
		default:
			x.fail("indexaddr of %s", u)
		}
	case *ssa.Index:
		b := x.value(st, i.X)
		idx := x.value(st, i.Index).t1()
		switch u := i.X.Type().Underlying().(type) {
		case *types.Basic: // string
			x.bounds(st, idx, x.strLen(b.t1()), i.Pos())
			st.env[i] = mkVal(i.Type(), x.strByte(b.t1(), idx))
		case *types.Array:
			x.bounds(st, idx, I(u.Len()), i.Pos())
			if b.A == nil {
				x.fail("array value index")
			}
			st.env[i] = x.load(st, &Addr{elem: true, T: u.Elem(), ref: b.A.ref, idx: idx}, i.Type())
		default:
			x.fail("index of %s", u)
		}
	case *ssa.UnOp:
		st.env[i] = x.unop(st, i)
	case *ssa.BinOp:
		l, r := x.value(st, i.X), x.value(st, i.Y)
		st.env[i] = x.binop(st, i.Op, l, r, i.Type(), i.Pos())
	case *ssa.Store:
		p := x.value(st, i.Addr)
		x.nilCheck(st, p, i.Pos(), "store")
		v := x.value(st, i.Val)
		a := x.addrOf(st, p)
		if at, ok := a.T.Underlying().(*types.Array); ok && !a.elem && a.path == "" && v.A != nil {
			// whole-array copy
			x.copyArray(st, at, a.ref, v.A.ref)
			return
		}
		v.T = elemType(i.Addr.Type())
		x.store(st, a, v, i.Pos())
	case *ssa.Extract:
		v := x.value(st, i.Tuple)
		if v.bad != "" {
			x.fail("extract of %s", v.bad)
		}
		st.env[i] = v.Tup[i.Index]
	case *ssa.ChangeType:
		v := x.value(st, i.X)
		v.T = i.Type()
		st.env[i] = v
	case *ssa.ChangeInterface:
		v := x.value(st, i.X)
		v.T = i.Type()
		st.env[i] = v
	case *ssa.Convert:
		st.env[i] = x.convert(st, i)
	case *ssa.MultiConvert:
		x.fail("multiconvert")
	case *ssa.MakeInterface:
		st.env[i] = x.makeInterface(st, x.value(st, i.X), i.X.Type(), i.Type())
	case *ssa.TypeAssert:
		x.typeAssert(st, i)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.value(st, v))
		}
		st.env[i] = mkVal(i.Type(), regFunc(&FuncVal{fn: i.Fn.(*ssa.Function), binds: b}))
	case *ssa.MakeSlice:
		n := x.value(st, i.Len).t1()
		c := x.value(st, i.Cap).t1()
		x.oblige("safety", "make: length in range", []string{"C01"}, i.Pos(), st, And(Ge(n, I(0)), Le(n, c)))
		r := x.newRef()
		x.zeroRow(st, elemType(i.Type()), r)
		st.env[i] = mkVal(i.Type(), r, I(0), n, c)
	case *ssa.MakeMap:
		st.env[i] = x.makeMap(st, i.Type())
	case *ssa.MapUpdate:
		m := x.value(st, i.Map)
		k, v := x.value(st, i.Key), x.value(st, i.Value)
		x.oblige("safety", "assignment to entry in nil map", []string{"C01"}, i.Pos(), st, Not(Eq(m.t1(), I(0))))
		v.T = elemType(i.Map.Type())
		x.mapSet(st, i.Map.Type(), m.t1(), k.t1(), v, i.Pos())
	case *ssa.Lookup:
		if isStringType(i.X.Type()) {
			s, idx := x.value(st, i.X).t1(), x.value(st, i.Index).t1()
			x.bounds(st, idx, x.strLen(s), i.Pos())
			st.env[i] = mkVal(i.Type(), x.strByte(s, idx))
			return
		}
		m, k := x.value(st, i.X), x.value(st, i.Index)
		v, ok := x.mapGet(st, i.X.Type(), m.t1(), k.t1())
		if i.CommaOk {
			st.env[i] = Val{T: i.Type(), Tup: []Val{v, mkVal(types.Typ[types.Bool], ok)}}
		} else {
			st.env[i] = v
		}
	case *ssa.Slice:
		st.env[i] = x.slice(st, i)
	case *ssa.Range:
		st.env[i] = x.mkRange(st, i)
	case *ssa.Next:
		st.env[i] = x.next(st, i)
	case *ssa.Call:
		st.env[i] = x.call(st, &i.Call, i, i.Type())
	case *ssa.Defer:
		x.deferCall(st, i)
	case *ssa.RunDefers:
		x.runDefers(st)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		x.fail("concurrency instruction %s", ins)
	default:
		x.fail("instruction %T %s", ins, ins)
	}
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.oblige("safety", "index in range", []string{"C01"}, pos, st, And(Ge(i, I(0)), Lt(i, n)))
}

func (x *Exec) zeroObj(st *State, t types.Type, r *Term) {
	if at, ok := t.Underlying().(*types.Array); ok {
		x.zeroRow(st, at.Elem(), r)
		return
	}
	for _, l := range layout(t) {
		k := objKey(t, l.path)
		st.set(k, Store(st.get(k, arrOf(l.sort)), r, zeroLeaf(l)))
	}
}

func (x *Exec) zeroRow(st *State, et types.Type, r *Term) {
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		st.set(k, Store(st.get(k, arrOf(arrOf(l.sort))), r, ConstArr(arrOf(l.sort), zeroLeaf(l))))
	}
}

func (x *Exec) copyArray(st *State, at *types.Array, dst, src *Term) {
	for _, l := range layout(at.Elem()) {
		k := elemKey(at.Elem(), l.path)
		h := st.get(k, arrOf(arrOf(l.sort)))
		st.set(k, Store(h, dst, Select(h, src)))
	}
}

func (x *Exec) unop(st *State, i *ssa.UnOp) Val {
	v := x.value(st, i.X)
	switch i.Op {
	case token.MUL:
		x.nilCheck(st, v, i.Pos(), "load")
		if g, ok := i.X.(*ssa.Global); ok {
			if gv, ok := x.globalVal(g); ok {
				return gv
			}
		}
		return x.load(st, x.addrOf(st, v), i.Type())
	case token.SUB:
		t := Neg(v.t1())
		x.ovf(st, t, i.Type(), i.Pos())
		return mkVal(i.Type(), t)
	case token.NOT:
		return mkVal(i.Type(), Not(v.t1()))
	case token.XOR:
		return mkVal(i.Type(), Sub(Neg(v.t1()), I(1)))
	}
	x.fail("unop %s", i)
	return Val{}
}

// ovf: optional machine-arithmetic obligation.
func (x *Exec) ovf(st *State, t *Term, ty types.Type, pos token.Pos) {
	if !x.overflow || t.isInt() {
		return
	}
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return
	}
	var lo, hi *big.Int
	one := big.NewInt(1)
	switch b.Kind() {
	case types.Int, types.Int64:
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, 63), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, 63))
	case types.Int32:
		hi, lo = big.NewInt(2147483647), big.NewInt(-2147483648)
	default:
		return
	}
	x.oblige("overflow", "no machine overflow", x.rootTags(), pos, st, And(Le(IB(lo), t), Le(t, IB(hi))))
}

func (x *Exec) binop(st *State, op token.Token, l, r Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.eqVal(l, r)
		if op == token.NEQ {
			e = Not(e)
		}
		return mkVal(t, e)
	}
	a, b := l.t1(), r.t1()
	if isStringType(l.T) {
		switch op {
		case token.ADD:
			return mkVal(t, x.strCat(a, b))
		case token.LSS:
			return mkVal(t, x.strLess(a, b))
		case token.GTR:
			return mkVal(t, x.strLess(b, a))
		case token.LEQ:
			return mkVal(t, Not(x.strLess(b, a)))
		case token.GEQ:
			return mkVal(t, Not(x.strLess(a, b)))
		}
	}
	switch op {
	case token.LSS:
		return mkVal(t, Lt(a, b))
	case token.LEQ:
		return mkVal(t, Le(a, b))
	case token.GTR:
		return mkVal(t, Gt(a, b))
	case token.GEQ:
		return mkVal(t, Ge(a, b))
	}
	if isFloatType(t) {
		switch op {
		case token.ADD:
			return mkVal(t, Add(a, b))
		case token.SUB:
			return mkVal(t, Sub(a, b))
		case token.MUL:
			return mkVal(t, Mul(a, b))
		case token.QUO:
			return mkVal(t, RDiv(a, b))
		}
	}
	if b0, ok := t.Underlying().(*types.Basic); ok && b0.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return mkVal(t, And(a, b))
		case token.OR, token.LOR:
			return mkVal(t, Or(a, b))
		}
	}
	var res *Term
	switch op {
	case token.ADD:
		res = Add(a, b)
	case token.SUB:
		res = Sub(a, b)
	case token.MUL:
		res = Mul(a, b)
	case token.QUO, token.REM:
		x.oblige("safety", "division by zero", []string{"C01"}, pos, st, Not(Eq(b, I(0))))
		if op == token.QUO {
			res = GoDiv(a, b)
		} else {
			res = GoRem(a, b)
		}
	case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isInt() && b.isInt() {
			v := constant.BinaryOp(constant.MakeFromLiteral(a.n.String(), token.INT, 0), op, constant.MakeFromLiteral(b.n.String(), token.INT, 0))
			if op == token.SHL || op == token.SHR {
				v = constant.Shift(constant.MakeFromLiteral(a.n.String(), token.INT, 0), op, uint(b.int64()))
			}
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return mkVal(t, IB(n))
		}
		res = App("bit"+op.String(), SInt, a, b)
	default:
		x.fail("binop %s", op)
	}
	// unsigned wrap-around of small types is modelled exactly
	if bt, ok := t.Underlying().(*types.Basic); ok {
		switch bt.Kind() {
		case types.Uint8:
			if !res.isInt() || res.n.Sign() < 0 || res.n.Cmp(big.NewInt(255)) > 0 {
				res = Mod(res, I(256))
			}
		case types.Uint32:
			res = Mod(res, I(1<<32))
		}
	}
	x.ovf(st, res, t, pos)
	return mkVal(t, res)
}

func (x *Exec) eqVal(l, r Val) *Term {
	if l.A != nil || r.A != nil {
		if l.A != nil && r.A == nil && r.L[0].isInt() && r.L[0].n.Sign() == 0 {
			return False
		}
		if r.A != nil && l.A == nil && l.L[0].isInt() && l.L[0].n.Sign() == 0 {
			return False
		}
		return Eq(x.encodeAddr(l), x.encodeAddr(r))
	}
	if l.bad != "" || r.bad != "" {
		x.fail("comparison of %s%s", l.bad, r.bad)
	}
	// slices compare only with nil
	if _, ok := l.T.Underlying().(*types.Slice); ok {
		return Eq(l.ref(), r.ref())
	}
	var cs []*Term
	for i := range l.L {
		cs = append(cs, Eq(l.L[i], r.L[i]))
	}
	return And(cs...)
}

func (x *Exec) convert(st *State, i *ssa.Convert) Val {
	v := x.value(st, i.X)
	from, to := i.X.Type(), i.Type()
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			t := v.t1()
			switch tb.Kind() {
			case types.Uint8:
				if fb.Kind() != types.Uint8 {
					t = Mod(t, I(256))
				}
			case types.Uint32:
				t = Mod(t, I(1<<32))
			case types.Int32:
				// exact when in range; wraps otherwise
				if fb.Kind() != types.Int32 && fb.Kind() != types.Uint8 && fb.Kind() != types.UntypedRune {
					if !t.isInt() {
						t = Sub(Mod(Add(t, I(1<<31)), I(1<<32)), I(1<<31))
					}
				}
			}
			return mkVal(to, t)
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			return mkVal(to, ToReal(v.t1()))
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			r := v.t1()
			t := Ite(Ge(r, RI(0)), Floor(r), Neg(Floor(Neg(r))))
			x.ovf(st, t, to, i.Pos())
			return mkVal(to, t)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return mkVal(to, v.t1())
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return mkVal(to, v.t1())
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			t := App("runestr", SInt, v.t1())
			x.strFacts(t)
			return mkVal(to, t)
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if isRuneType(sl.Elem()) {
				return mkVal(to, x.runesToString(st, v))
			}
			t := x.fresh("bytestr", SInt)
			x.strFacts(t)
			return mkVal(to, t)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if isRuneType(sl.Elem()) {
				return x.stringToRunes(st, v.t1(), to)
			}
			r := x.newRef()
			x.havocRow(st, sl.Elem(), r)
			n := x.strLen(v.t1())
			return mkVal(to, r, I(0), n, n)
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		v.T = to
		return v
	}
	x.fail("convert %s -> %s", from, to)
	return Val{}
}

func isRuneType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

func (x *Exec) havocRow(st *State, et types.Type, r *Term) {
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		row := x.fresh("row:"+k, arrOf(l.sort))
		st.set(k, Store(st.get(k, arrOf(arrOf(l.sort))), r, row))
	}
}

func (x *Exec) makeInterface(st *State, v Val, from, to types.Type) Val {
	// identity is kept for comparable one-leaf values; otherwise opaque non-nil
	var t *Term
	if v.A == nil && v.bad == "" && len(v.L) == 1 && v.L[0].sort == SInt {
		t = App("iface:"+typeKey(from), SInt, v.L[0])
	} else {
		t = x.fresh("iface", SInt)
	}
	x.fact(Not(Eq(t, I(0))))
	r := mkVal(to, t)
	ifaceVals[t] = v
	return r
}

// dynamic values of interfaces built by this execution
var ifaceVals = map[*Term]Val{}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) {
	v := x.value(st, i.X)
	res := x.freshVal("assert", i.AssertedType)
	if i.CommaOk {
		st.env[i] = Val{T: i.Type(), Tup: []Val{res, mkVal(types.Typ[types.Bool], x.fresh("assertok", SBool))}}
		return
	}
	_ = v
	x.oblige("safety", "type assertion", []string{"C01"}, i.Pos(), st, x.fresh("assertok", SBool))
	st.env[i] = res
}

func (x *Exec) slice(st *State, i *ssa.Slice) Val {
	v := x.value(st, i.X)
	var lo, hi, mx *Term
	if i.Low != nil {
		lo = x.value(st, i.Low).t1()
	} else {
		lo = I(0)
	}
	if i.High != nil {
		hi = x.value(st, i.High).t1()
	}
	if i.Max != nil {
		mx = x.value(st, i.Max).t1()
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		s := v.t1()
		n := x.strLen(s)
		if hi == nil {
			hi = n
		}
		x.oblige("safety", "string slice in range", []string{"C01"}, i.Pos(), st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, n)))
		return mkVal(i.Type(), x.strSub(s, lo, hi))
	case *types.Slice:
		if hi == nil {
			hi = v.len()
		}
		cp := v.cap()
		if mx != nil {
			cp = mx
		}
		x.oblige("safety", "slice in range", []string{"C01"}, i.Pos(), st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, cp), Le(cp, v.cap())))
		return mkVal(i.Type(), v.ref(), Add(v.off(), lo), Sub(hi, lo), Sub(cp, lo))
	case *types.Pointer:
		n := I(u.Elem().Underlying().(*types.Array).Len())
		if hi == nil {
			hi = n
		}
		x.oblige("safety", "slice in range", []string{"C01"}, i.Pos(), st, And(Ge(lo, I(0)), Le(lo, hi), Le(hi, n)))
		a := x.addrOf(st, v)
		return mkVal(i.Type(), a.ref, lo, Sub(hi, lo), Sub(n, lo))
	}
	x.fail("slice of %s", i.X.Type())
	return Val{}
}

// ---- maps ----

func mapKeys(t types.Type) (dom, ln string, vals []Leaf, valKey func(Leaf) string, ks Sort) {
	m := t.Underlying().(*types.Map)
	k := "M|" + typeKey(m.Key()) + ">" + typeKey(m.Elem())
	return k + "|dom", k + "|len", layout(m.Elem()), func(l Leaf) string { return k + "|val" + l.path }, SInt
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	r := x.newRef()
	dom, ln, _, _, _ := mapKeys(t)
	st.set(dom, Store(st.get(dom, arrOf(arrOf(SBool))), r, ConstArr(arrOf(SBool), False)))
	st.set(ln, Store(st.get(ln, arrOf(SInt)), r, I(0)))
	return mkVal(t, r)
}

func (x *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	dom, _, _, _, _ := mapKeys(t)
	return Select(st.get(dom, arrOf(arrOf(SBool))), m)
}

func (x *Exec) mapLen(st *State, t types.Type, m *Term) *Term {
	_, ln, _, _, _ := mapKeys(t)
	n := Select(st.get(ln, arrOf(SInt)), m)
	n = Ite(Eq(m, I(0)), I(0), n)
	x.fact(Ge(n, I(0)))
	return n
}

func (x *Exec) mapGet(st *State, t types.Type, m, k *Term) (Val, *Term) {
	dom, _, vals, vk, _ := mapKeys(t)
	if mt := staticMapOf(m); mt != nil {
		return x.staticMapGet(st, t, mt, m, k)
	}
	d := Select(Select(st.get(dom, arrOf(arrOf(SBool))), m), k)
	ok := And(Not(Eq(m, I(0))), d)
	et := elemType(t)
	v := Val{T: et, L: make([]*Term, len(vals))}
	raw := Val{T: et, L: make([]*Term, len(vals))}
	for i, l := range vals {
		raw.L[i] = Select(Select(st.get(vk(l), arrOf(arrOf(l.sort))), m), k)
		v.L[i] = Ite(ok, raw.L[i], zeroLeaf(l))
	}
	if ok != False {
		x.wf(raw)
		// a map with an entry is not empty
		x.fact(Imp(ok, Ge(x.mapLen(st, t, m), I(1))))
	}
	return v, ok
}

func (x *Exec) mapSet(st *State, t types.Type, m, k *Term, v Val, pos token.Pos) {
	dom, ln, vals, vk, _ := mapKeys(t)
	x.ownCheck(st, m, func() *Term {
		if x.allowed == nil {
			return False
		}
		return x.allowed(strings.TrimSuffix(dom, "|dom"), m)
	}, "map write", pos)
	if v.bad != "" {
		x.fail("map value %s", v.bad)
	}
	if v.A != nil {
		v = mkVal(v.T, x.encodeAddr(v))
	}
	D := st.get(dom, arrOf(arrOf(SBool)))
	row := Select(D, m)
	had := Select(row, k)
	L := st.get(ln, arrOf(SInt))
	n := Select(L, m)
	x.fact(Ge(n, I(0)))
	st.set(ln, Store(L, m, Ite(had, n, Add(n, I(1)))))
	st.set(dom, Store(D, m, Store(row, k, True)))
	for i, l := range vals {
		h := st.get(vk(l), arrOf(arrOf(l.sort)))
		st.set(vk(l), Store(h, m, Store(Select(h, m), k, v.L[i])))
	}
}

func (x *Exec) mapDelete(st *State, t types.Type, m, k *Term, pos token.Pos) {
	dom, ln, _, _, _ := mapKeys(t)
	x.ownCheck(st, m, func() *Term {
		if x.allowed == nil {
			return False
		}
		return x.allowed(strings.TrimSuffix(dom, "|dom"), m)
	}, "map delete", pos)
	D := st.get(dom, arrOf(arrOf(SBool)))
	row := Select(D, m)
	had := Select(row, k)
	L := st.get(ln, arrOf(SInt))
	n := Select(L, m)
	st.set(ln, Store(L, m, Ite(had, Sub(n, I(1)), n)))
	st.set(dom, Store(D, m, Store(row, k, False)))
	x.fact(Imp(had, Ge(n, I(1))))
}

// ---- range over map / string ----

// iterators: IT|pos (string position / number of keys visited), IT|src
func (x *Exec) mkRange(st *State, i *ssa.Range) Val {
	v := x.value(st, i.X)
	r := x.newRef()
	st.set("IT|pos", Store(st.get("IT|pos", arrOf(SInt)), r, I(0)))
	if _, ok := i.X.Type().Underlying().(*types.Map); ok {
		st.set("IT|vis", Store(st.get("IT|vis", arrOf(arrOf(SBool))), r, ConstArr(arrOf(SBool), False)))
		iterMaps[r] = iterMap{t: i.X.Type(), m: v.t1()}
	} else {
		iterMaps[r] = iterMap{t: i.X.Type(), m: v.t1()}
	}
	return mkVal(i.Type(), r)
}

type iterMap struct {
	t types.Type
	m *Term
}

var iterMaps = map[*Term]iterMap{}

func (x *Exec) next(st *State, i *ssa.Next) Val {
	it := x.value(st, i.Iter).t1()
	im, ok := iterMaps[it]
	if !ok {
		x.fail("unknown iterator %s", it)
	}
	P := st.get("IT|pos", arrOf(SInt))
	pos := Select(P, it)
	tup := i.Type().(*types.Tuple)
	boolT := types.Typ[types.Bool]
	if i.IsString {
		n := x.strLen(im.m)
		okT := Lt(pos, n)
		r, w := x.runeAt(im.m, pos)
		x.fact(Imp(And(Ge(pos, I(0)), Lt(pos, n)), And(Ge(w, I(1)), Le(w, I(4)), Le(Add(pos, w), n), Ge(r, I(0)), Le(r, I(0x10FFFF)))))
		st.set("IT|pos", Store(P, it, Ite(okT, Add(pos, w), pos)))
		return Val{T: i.Type(), Tup: []Val{mkVal(boolT, okT), mkVal(types.Typ[types.Int], pos), mkVal(types.Typ[types.Rune], r)}}
	}
	mt := im.t.Underlying().(*types.Map)
	V := st.get("IT|vis", arrOf(arrOf(SBool)))
	vis := Select(V, it)
	var okT, k *Term
	if sm := staticMapOf(im.m); sm != nil && len(sm.keys) <= 24 {
		if !pos.isInt() {
			x.fail("static map iteration with symbolic position")
		}
		n := int(pos.int64())
		okT = B(n < len(sm.keys))
		if okT == True {
			k = x.fresh("mapkey", SInt)
			var alts []*Term
			for _, kk := range sm.keys {
				alts = append(alts, And(Eq(k, kk), Not(Select(vis, kk))))
			}
			x.fact(Imp(st.pc, Or(alts...)))
			if len(sm.keys) == 1 {
				k = sm.keys[0]
			}
		} else {
			k = I(0)
		}
	} else {
		okT = x.fresh("maprange_ok", SBool)
		k = x.fresh("mapkey", SInt)
		x.wfLeaf(mt.Key(), k)
		dom := x.mapDom(st, im.t, im.m)
		x.fact(Imp(And(st.pc, okT), And(Not(Eq(im.m, I(0))), Select(dom, k), Not(Select(vis, k)))))
		b := Bound("k", SInt)
		domB := Select(dom, b)
		x.fact(Imp(And(st.pc, Not(okT)), Or(Eq(im.m, I(0)), Forall([]*Term{b}, Imp(domB, Select(vis, b)), mk(&Term{op: OSelect, sort: SBool, args: []*Term{dom, b}})))))
		n := x.mapLen(st, im.t, im.m)
		// the number of visited keys is pos
		x.fact(Imp(st.pc, And(Ge(pos, I(0)), Imp(okT, Lt(pos, n)), Imp(Not(okT), Eq(pos, n)))))
	}
	st.set("IT|vis", Store(V, it, Ite(okT, Store(vis, k, True), vis)))
	st.set("IT|pos", Store(P, it, Ite(okT, Add(pos, I(1)), pos)))
	out := []Val{mkVal(boolT, okT)}
	kt := tup.At(1).Type()
	if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
		out = append(out, Val{T: kt, L: []*Term{I(0)}})
	} else {
		out = append(out, mkVal(mt.Key(), k))
	}
	vt := tup.At(2).Type()
	if b, ok := vt.(*types.Basic); ok && b.Kind() == types.Invalid {
		out = append(out, Val{T: vt, L: []*Term{I(0)}})
	} else {
		v, _ := x.mapGet(st, im.t, im.m, k)
		// inside the loop the key is present: drop the default
		out = append(out, v)
	}
	return Val{T: i.Type(), Tup: out}
}

var _ = fmt.Sprint
