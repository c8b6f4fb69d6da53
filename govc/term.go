package main

// Hash-consed first-order terms with aggressive local simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SReal Sort = "Real"
)

func arrOf(s Sort) Sort  { return Sort("(Array Int " + string(s) + ")") }
func elemOf(s Sort) Sort { x := string(s); return Sort(x[len("(Array Int ") : len(x)-1]) }
func isArr(s Sort) bool  { return strings.HasPrefix(string(s), "(Array") }

type Op int

const (
	OConst Op = iota // symbolic constant
	OInt             // integer literal
	OStr             // string literal (sort Int)
	OReal            // rational literal
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLe // Int or Real
	OLt
	OAdd
	OMul
	ODiv // SMT div (euclidean)
	OMod
	ORDiv
	OToReal
	OToInt // floor
	OSelect
	OStore
	OConstArr
	OApp    // uninterpreted function
	OForall // args[0] = body, vars in bvs, pats
	OBound
)

type Term struct {
	op   Op
	sort Sort
	args []*Term
	n    *big.Int
	r    *big.Rat
	name string // const / function name / string literal
	bvs  []*Term
	pats []*Term
	id   int
	seq  int // allocation time bound: every reference in this term was allocated at or before seq
	// fresh arrays framed on a base
	fr *frameInfo
	hasBound bool
}

type frameInfo struct {
	base *Term
	seq  int     // refs with seq < this are unchanged unless in except
	exc  []*Term // refs possibly changed
}

type TermTab struct {
	tab  map[string]*Term
	next int
}

var tt = &TermTab{tab: map[string]*Term{}}

func (t *Term) key() string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.op)))
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	b.WriteByte('|')
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	if t.r != nil {
		b.WriteString(t.r.String())
	}
	b.WriteString(t.name)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.bvs {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.pats {
		b.WriteByte('!')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := t.key()
	if x, ok := tt.tab[k]; ok {
		return x
	}
	tt.next++
	t.id = tt.next
	if t.op != OConst {
		for _, a := range t.args {
			if a.seq > t.seq {
				t.seq = a.seq
			}
		}
	}
	t.hasBound = t.op == OBound
	for _, a := range t.args {
		if a.hasBound {
			t.hasBound = true
		}
	}
	if t.op == OForall {
		// recompute: bound vars of this quantifier are closed
		free := map[*Term]bool{}
		collectBound(t.args[0], free, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(free, b)
		}
		t.hasBound = len(free) > 0
	}
	tt.tab[k] = t
	return t
}

func collectBound(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.hasBound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OBound {
		out[t] = true
		return
	}
	if t.op == OForall {
		in := map[*Term]bool{}
		collectBound(t.args[0], in, map[*Term]bool{})
		for _, b := range t.bvs {
			delete(in, b)
		}
		for b := range in {
			out[b] = true
		}
		return
	}
	for _, a := range t.args {
		collectBound(a, out, seen)
	}
}

var True = mk(&Term{op: OTrue, sort: SBool})
var False = mk(&Term{op: OFalse, sort: SBool})

func I(n int64) *Term        { return IB(big.NewInt(n)) }
func IB(n *big.Int) *Term    { return mk(&Term{op: OInt, sort: SInt, n: n}) }
func S(s string) *Term       { return mk(&Term{op: OStr, sort: SInt, name: s}) }
func R(r *big.Rat) *Term     { return mk(&Term{op: OReal, sort: SReal, r: r}) }
func B(b bool) *Term {
	if b {
		return True
	}
	return False
}

var constCounter int

func Fresh(name string, s Sort, seq int) *Term {
	constCounter++
	return mk(&Term{op: OConst, sort: s, name: sanitize(name) + "!" + strconv.Itoa(constCounter), seq: seq})
}
func Const(name string, s Sort, seq int) *Term {
	return mk(&Term{op: OConst, sort: s, name: name, seq: seq})
}
func Bound(name string, s Sort) *Term {
	constCounter++
	return mk(&Term{op: OBound, sort: s, name: sanitize(name) + "?" + strconv.Itoa(constCounter)})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < 128 && (r == '_' || r == '.' || r == '-' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isInt() bool  { return t.op == OInt }
func (t *Term) isLit() bool  { return t.op == OInt || t.op == OStr || t.op == OReal || t.op == OTrue || t.op == OFalse }
func (t *Term) int64() int64 { return t.n.Int64() }

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe:
		return Lt(a.args[1], a.args[0])
	case OLt:
		return Le(a.args[1], a.args[0])
	}
	return mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == nil {
			panic("nil term in And")
		}
		for _, c := range conj(t) {
			if c == False {
				return False
			}
			if c == True || seen[c] {
				continue
			}
			if seen[Not(c)] {
				return False
			}
			seen[c] = true
			out = append(out, c)
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk(&Term{op: OAnd, sort: SBool, args: out})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var cs []*Term
		if t.op == OOr {
			cs = t.args
		} else {
			cs = []*Term{t}
		}
		for _, c := range cs {
			if c == True {
				return True
			}
			if c == False || seen[c] {
				continue
			}
			if seen[Not(c)] {
				return True
			}
			seen[c] = true
			out = append(out, c)
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	// factor common conjuncts: (p&a)|(p&b) = p&(a|b)
	common := conj(out[0])
	for _, t := range out[1:] {
		in := map[*Term]bool{}
		for _, c := range conj(t) {
			in[c] = true
		}
		var nc []*Term
		for _, c := range common {
			if in[c] {
				nc = append(nc, c)
			}
		}
		common = nc
	}
	if len(common) > 0 {
		cm := map[*Term]bool{}
		for _, c := range common {
			cm[c] = true
		}
		var rest []*Term
		for _, t := range out {
			var rs []*Term
			for _, c := range conj(t) {
				if !cm[c] {
					rs = append(rs, c)
				}
			}
			rest = append(rest, And(rs...))
		}
		return And(append(append([]*Term{}, common...), Or(rest...))...)
	}
	// absorb: a | (!a & b) = a | b
	for i, t := range out {
		if t.op == OAnd {
			continue
		}
		for j, u := range out {
			if i == j || u.op != OAnd {
				continue
			}
			var rs []*Term
			ch := false
			for _, c := range u.args {
				if c == Not(t) {
					ch = true
					continue
				}
				rs = append(rs, c)
			}
			if ch {
				n := append([]*Term{}, out...)
				n[j] = And(rs...)
				return Or(n...)
			}
		}
	}
	return mk(&Term{op: OOr, sort: SBool, args: out})
}

func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if b.op == OIte && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a == b {
		return a
	}
	return mk(&Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// distinct reports whether two Int terms are known to differ.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if (a.op == OInt || a.op == OStr) && (b.op == OInt || b.op == OStr) {
		if a.op == b.op {
			return true
		}
		return true // string ids never collide with small ints
	}
	// references: an allocated reference differs from anything that existed before it
	if a.isAlloc() && b.sort == SInt && refLike(b) && b.seq < a.seq {
		return true
	}
	if b.isAlloc() && a.sort == SInt && refLike(a) && a.seq < b.seq {
		return true
	}
	if a.isAlloc() && b.isAlloc() {
		return true
	}
	// linear: x + k vs x + k'
	ba, ka := splitOff(a)
	bb, kb := splitOff(b)
	if ba == bb && ka.Cmp(kb) != 0 {
		return true
	}
	return false
}

func (t *Term) isAlloc() bool { return t.op == OConst && strings.HasPrefix(t.name, "ref!") }

// refLike: terms whose seq bound is meaningful for references.
func refLike(t *Term) bool {
	switch t.op {
	case OInt:
		return t.n.IsInt64() && t.n.Int64() <= 0
	case OConst, OSelect:
		return true
	case OIte:
		return refLike(t.args[1]) && refLike(t.args[2])
	}
	return false
}

func splitOff(t *Term) (*Term, *big.Int) {
	if t.op == OInt {
		return nil, t.n
	}
	if t.op == OAdd {
		var k = new(big.Int)
		var rest []*Term
		for _, a := range t.args {
			if a.op == OInt {
				k.Add(k, a.n)
			} else {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 {
			return rest[0], k
		}
		return mk(&Term{op: OAdd, sort: SInt, args: rest}), k
	}
	return t, new(big.Int)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if a.sort == SInt && distinct(a, b) {
		return False
	}
	if a.op == OReal && b.op == OReal {
		return B(a.r.Cmp(b.r) == 0)
	}
	if a.sort == SInt || a.sort == SReal {
		if b.op == OIte && a.isLit() {
			a, b = b, a
		}
		if a.op == OIte && b.isLit() && iteLeavesLit(a, 0) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return Ite(a.args[0], Eq(a.args[1], b.args[1]), Eq(a.args[2], b.args[2]))
		}
	}
	if a.sort == SInt {
		// move constants: x + k = c
		if b.op == OInt && a.op == OAdd {
			x, k := splitOff(a)
			if k.Sign() != 0 {
				return Eq(x, IB(new(big.Int).Sub(b.n, k)))
			}
		}
		if a.op == OInt && b.op == OAdd {
			return Eq(b, a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func iteLeavesLit(t *Term, d int) bool {
	if d > 40 {
		return false
	}
	if t.op == OIte {
		return iteLeavesLit(t.args[1], d+1) && iteLeavesLit(t.args[2], d+1)
	}
	return t.isLit() || t.isAlloc()
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.op == OInt && b.op == OInt {
		return B(a.n.Cmp(b.n) <= 0)
	}
	if a.op == OReal && b.op == OReal {
		return B(a.r.Cmp(b.r) <= 0)
	}
	if a.sort == SInt {
		ba, ka := splitOff(a)
		bb, kb := splitOff(b)
		if ba == bb {
			return B(ka.Cmp(kb) <= 0)
		}
		if a.op == OIte && b.isLit() && iteLeavesLit(a, 0) {
			return Ite(a.args[0], Le(a.args[1], b), Le(a.args[2], b))
		}
		if b.op == OIte && a.isLit() && iteLeavesLit(b, 0) {
			return Ite(b.args[0], Le(a, b.args[1]), Le(a, b.args[2]))
		}
		if b.op == OInt && ka.Sign() != 0 && ba != nil {
			return Le(ba, IB(new(big.Int).Sub(b.n, ka)))
		}
		if a.op == OInt && kb.Sign() != 0 && bb != nil {
			return Le(IB(new(big.Int).Sub(a.n, kb)), bb)
		}
		if ba != nil && bb != nil && ka.Sign() != 0 {
			return Le(ba, Add(bb, IB(new(big.Int).Sub(kb, ka))))
		}
		if lo, _, ok := bounds(b); ok && lo != nil && a.op == OInt && a.n.Cmp(lo) <= 0 {
			return True
		}
		if _, hi, ok := bounds(a); ok && hi != nil && b.op == OInt && hi.Cmp(b.n) <= 0 {
			return True
		}
	}
	return mk(&Term{op: OLe, sort: SBool, args: []*Term{a, b}})
}

// bounds: cheap static bounds of functions known to be nonnegative etc.
func bounds(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.op {
	case OInt:
		return t.n, t.n, true
	case OApp:
		switch t.name {
		case "slen", "rlen":
			return big.NewInt(0), nil, true
		}
	case OMod:
		if t.args[1].op == OInt && t.args[1].n.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.args[1].n, big.NewInt(1)), true
		}
	case OIte:
		l1, h1, o1 := bounds(t.args[1])
		l2, h2, o2 := bounds(t.args[2])
		if o1 && o2 {
			var lo, hi *big.Int
			if l1 != nil && l2 != nil {
				lo = l1
				if l2.Cmp(l1) < 0 {
					lo = l2
				}
			}
			if h1 != nil && h2 != nil {
				hi = h1
				if h2.Cmp(h1) > 0 {
					hi = h2
				}
			}
			return lo, hi, true
		}
	}
	return nil, nil, false
}

func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.sort == SInt {
		return Le(Add(a, I(1)), b)
	}
	if a.op == OReal && b.op == OReal {
		return B(a.r.Cmp(b.r) < 0)
	}
	return mk(&Term{op: OLt, sort: SBool, args: []*Term{a, b}})
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Add(ts ...*Term) *Term {
	if len(ts) == 0 {
		return I(0)
	}
	srt := ts[0].sort
	if srt == SReal {
		k := new(big.Rat)
		var out []*Term
		for _, t := range ts {
			if t.op == OReal {
				k.Add(k, t.r)
			} else {
				out = append(out, t)
			}
		}
		if k.Sign() != 0 || len(out) == 0 {
			out = append(out, R(k))
		}
		if len(out) == 1 {
			return out[0]
		}
		return mk(&Term{op: OAdd, sort: SReal, args: out})
	}
	// linear normal form
	k := new(big.Int)
	coef := map[*Term]*big.Int{}
	var order []*Term
	var add func(t *Term, c *big.Int)
	add = func(t *Term, c *big.Int) {
		switch {
		case t.op == OInt:
			k.Add(k, new(big.Int).Mul(c, t.n))
		case t.op == OAdd:
			for _, a := range t.args {
				add(a, c)
			}
		case t.op == OMul && t.args[0].op == OInt:
			add(t.args[1], new(big.Int).Mul(c, t.args[0].n))
		default:
			if coef[t] == nil {
				coef[t] = new(big.Int)
				order = append(order, t)
			}
			coef[t].Add(coef[t], c)
		}
	}
	one := big.NewInt(1)
	for _, t := range ts {
		if t.sort != SInt {
			panic("Add sort mix: " + t.String())
		}
		add(t, one)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	for _, t := range order {
		c := coef[t]
		if c.Sign() == 0 {
			continue
		}
		if c.IsInt64() && c.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk(&Term{op: OMul, sort: SInt, args: []*Term{IB(c), t}}))
		}
	}
	if len(out) == 0 {
		return IB(k)
	}
	// push literal additions into small literal ites
	if len(out) == 1 && out[0].op == OIte && iteLeavesLit(out[0], 0) && !hasAlloc(out[0]) {
		t := out[0]
		return Ite(t.args[0], Add(t.args[1], IB(k)), Add(t.args[2], IB(k)))
	}
	if k.Sign() != 0 {
		out = append(out, IB(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: OAdd, sort: SInt, args: out})
}

func hasAlloc(t *Term) bool {
	if t.op == OIte {
		return hasAlloc(t.args[1]) || hasAlloc(t.args[2])
	}
	return !t.isInt()
}

func Neg(a *Term) *Term {
	if a.sort == SReal {
		return Mul(R(big.NewRat(-1, 1)), a)
	}
	return Mul(I(-1), a)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		if a.op == OReal && b.op == OReal {
			return R(new(big.Rat).Mul(a.r, b.r))
		}
		if b.op == OReal {
			a, b = b, a
		}
		if a.op == OReal && a.r.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		if a.op == OReal && a.r.Sign() == 0 {
			return a
		}
		return mk(&Term{op: OMul, sort: SReal, args: []*Term{a, b}})
	}
	if a.op == OInt && b.op == OInt {
		return IB(new(big.Int).Mul(a.n, b.n))
	}
	if b.op == OInt {
		a, b = b, a
	}
	if a.op == OInt {
		if a.n.Sign() == 0 {
			return I(0)
		}
		if a.n.IsInt64() && a.n.Int64() == 1 {
			return b
		}
		if b.op == OAdd {
			var out []*Term
			for _, x := range b.args {
				out = append(out, Mul(a, x))
			}
			return Add(out...)
		}
		if b.op == OMul && b.args[0].op == OInt {
			return Mul(IB(new(big.Int).Mul(a.n, b.args[0].n)), b.args[1])
		}
		if b.op == OIte && iteLeavesLit(b, 0) && !hasAlloc(b) {
			return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// Div and Mod are SMT-LIB (Euclidean) for literal divisors.
func Div(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.n.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return IB(q)
	}
	if b.op == OInt && b.n.IsInt64() && b.n.Int64() == 1 {
		return a
	}
	if a.op == OIte && b.op == OInt && iteLeavesLit(a, 0) && !hasAlloc(a) {
		return Ite(a.args[0], Div(a.args[1], b), Div(a.args[2], b))
	}
	return mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.n.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return IB(m)
	}
	if b.op == OInt && b.n.IsInt64() && b.n.Int64() == 1 {
		return I(0)
	}
	if a.op == OMod && a.args[1] == b {
		return a
	}
	if a.op == OIte && b.op == OInt && iteLeavesLit(a, 0) && !hasAlloc(a) {
		return Ite(a.args[0], Mod(a.args[1], b), Mod(a.args[2], b))
	}
	return mk(&Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// Go truncated division.
func GoDiv(a, b *Term) *Term {
	if b.op == OInt && b.n.Sign() > 0 {
		if lo, _, ok := bounds(a); ok && lo != nil && lo.Sign() >= 0 {
			return Div(a, b)
		}
		return Ite(Ge(a, I(0)), Div(a, b), Neg(Div(Neg(a), b)))
	}
	if b.op == OInt && b.n.Sign() < 0 {
		return Neg(GoDiv(a, Neg(b)))
	}
	ab := func(x *Term) *Term { return Ite(Ge(x, I(0)), x, Neg(x)) }
	q := Div(ab(a), ab(b))
	return Ite(Eq(Ge(a, I(0)), Ge(b, I(0))), q, Neg(q))
}
func GoRem(a, b *Term) *Term {
	if b.op == OInt && b.n.Sign() != 0 {
		bb := IB(new(big.Int).Abs(b.n))
		if lo, _, ok := bounds(a); ok && lo != nil && lo.Sign() >= 0 {
			return Mod(a, bb)
		}
		return Ite(Ge(a, I(0)), Mod(a, bb), Neg(Mod(Neg(a), bb)))
	}
	return Sub(a, Mul(b, GoDiv(a, b)))
}

func RDiv(a, b *Term) *Term {
	if a.op == OReal && b.op == OReal && b.r.Sign() != 0 {
		return R(new(big.Rat).Quo(a.r, b.r))
	}
	return mk(&Term{op: ORDiv, sort: SReal, args: []*Term{a, b}})
}
func ToReal(a *Term) *Term {
	if a.op == OInt {
		return R(new(big.Rat).SetInt(a.n))
	}
	return mk(&Term{op: OToReal, sort: SReal, args: []*Term{a}})
}
func Floor(a *Term) *Term {
	if a.op == OReal {
		q := new(big.Int).Div(a.r.Num(), a.r.Denom())
		return IB(q)
	}
	if a.op == OToReal {
		return a.args[0]
	}
	return mk(&Term{op: OToInt, sort: SInt, args: []*Term{a}})
}

func Select(a, i *Term) *Term {
	if r := staticSelect(a, i); r != nil {
		return r
	}
	switch a.op {
	case OStore:
		if a.args[1] == i {
			return a.args[2]
		}
		if distinct(a.args[1], i) {
			return Select(a.args[0], i)
		}
	case OConstArr:
		return a.args[0]
	case OIte:
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if x == y || a.size() < 40 || (x.op != OSelect && y.op != OSelect) {
			return Ite(a.args[0], x, y)
		}
		return Ite(a.args[0], x, y)
	case OConst:
		if a.fr != nil && refLike(i) && i.seq < a.fr.seq {
			ok := true
			for _, e := range a.fr.exc {
				if !distinct(e, i) {
					ok = false
				}
			}
			if ok {
				return Select(a.fr.base, i)
			}
		}
	}
	return mk(&Term{op: OSelect, sort: elemOf(a.sort), args: []*Term{a, i}})
}

func (t *Term) size() int { return 1 }

func Store(a, i, v *Term) *Term {
	if v.sort != elemOf(a.sort) {
		panic(fmt.Sprintf("store sort: %s into %s", v.sort, a.sort))
	}
	if a.op == OStore && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func ConstArr(s Sort, v *Term) *Term { return mk(&Term{op: OConstArr, sort: s, args: []*Term{v}}) }

func Forall(bvs []*Term, body *Term, pats ...*Term) *Term {
	if body == True || body == False {
		return body
	}
	if !body.hasBound {
		return body
	}
	return mk(&Term{op: OForall, sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats})
}

// subst replaces constants/bound variables.
func subst(t *Term, m map[*Term]*Term) *Term {
	return substMemo(t, m, map[*Term]*Term{})
}
func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args, m, memo)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	switch t.op {
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OLe:
		return Le(a[0], a[1])
	case OLt:
		return Lt(a[0], a[1])
	case OAdd:
		return Add(a...)
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1])
	case OMod:
		return Mod(a[0], a[1])
	case ORDiv:
		return RDiv(a[0], a[1])
	case OToReal:
		return ToReal(a[0])
	case OToInt:
		return Floor(a[0])
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.sort, a[0])
	case OApp:
		return App(t.name, t.sort, a...)
	case OForall:
		var ps []*Term
		for _, p := range t.pats {
			ps = append(ps, substMemo(p, m, memo))
		}
		return Forall(t.bvs, a[0], ps...)
	}
	panic("rebuild")
}

// uninterpreted functions with Go evaluators on constants
type evalFn func(args []*Term) *Term

var evaluators = map[string]evalFn{}

func App(name string, s Sort, args ...*Term) *Term {
	if ev, ok := evaluators[name]; ok {
		if r := ev(args); r != nil {
			return r
		}
	}
	return mk(&Term{op: OApp, sort: s, name: name, args: args})
}

func (t *Term) String() string {
	var b strings.Builder
	pp(&b, t, 0)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
func pp(b *strings.Builder, t *Term, d int) {
	if b.Len() > 4000 {
		return
	}
	switch t.op {
	case OConst, OBound:
		b.WriteString(t.name)
	case OInt:
		b.WriteString(t.n.String())
	case OStr:
		b.WriteString(strconv.Quote(t.name))
	case OReal:
		b.WriteString(t.r.String())
	case OTrue:
		b.WriteString("true")
	case OFalse:
		b.WriteString("false")
	default:
		b.WriteString("(" + opName(t))
		if t.op == OForall {
			for _, v := range t.bvs {
				b.WriteString(" " + v.name)
			}
			b.WriteString(":")
		}
		for _, a := range t.args {
			b.WriteByte(' ')
			pp(b, a, d+1)
		}
		b.WriteByte(')')
	}
}

func opName(t *Term) string {
	switch t.op {
	case ONot:
		return "not"
	case OAnd:
		return "and"
	case OOr:
		return "or"
	case OIte:
		return "ite"
	case OEq:
		return "="
	case OLe:
		return "<="
	case OLt:
		return "<"
	case OAdd:
		return "+"
	case OMul:
		return "*"
	case ODiv:
		return "div"
	case OMod:
		return "mod"
	case ORDiv:
		return "/"
	case OToReal:
		return "to_real"
	case OToInt:
		return "to_int"
	case OSelect:
		return "select"
	case OStore:
		return "store"
	case OConstArr:
		return "const"
	case OApp:
		return t.name
	case OForall:
		return "forall"
	}
	return "?"
}

// splitIte distributes a goal over the conditions inside fold arguments.
func splitIte(g *Term) *Term {
	if g.isLit() {
		return g
	}
	for n := 0; n < 3; n++ {
		c := foldCond(g, false, map[*Term]int{})
		if c == nil {
			return g
		}
		t := subst(g, map[*Term]*Term{c: True})
		f := subst(g, map[*Term]*Term{c: False})
		return And(Imp(c, splitIte(t)), Imp(Not(c), splitIte(f)))
	}
	return g
}

func foldCond(t *Term, in bool, seen map[*Term]int) *Term {
	k := 1
	if in {
		k = 2
	}
	if seen[t] >= k {
		return nil
	}
	seen[t] = k
	if in && t.op == OIte && !t.args[0].hasBound {
		return t.args[0]
	}
	if t.op == OApp && t.name == "foldrc" {
		in = true
	}
	for _, a := range t.args {
		if c := foldCond(a, in, seen); c != nil {
			return c
		}
	}
	return nil
}
