package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val

var models map[string]modelFn

func tup(typ types.Type, vs ...Val) Val {
	tp := typ.(*types.Tuple)
	for i := range vs {
		vs[i].T = tp.At(i).Type()
	}
	return Val{T: typ, Tup: vs}
}

// ---- strings ----

func init() {
	evaluators["strlen"] = func(a []*Term) *Term {
		if a[0].op == OStr {
			return I(int64(len(a[0].name)))
		}
		return nil
	}
	strFns["strlen"] = strFn{"strlen", SInt, func(s string) *Term { return I(int64(len(s))) }}
	str1 := func(name string, f func(string) string) {
		evaluators[name] = func(a []*Term) *Term {
			if a[0].op == OStr {
				return S(f(a[0].name))
			}
			return nil
		}
		strFns[name] = strFn{name, SInt, func(s string) *Term { return S(f(s)) }}
	}
	str1("lower", strings.ToLower)
	str1("upper", strings.ToUpper)
	str1("trimspace", strings.TrimSpace)
	evaluators["strbyte"] = func(a []*Term) *Term {
		if a[0].op == OStr && a[1].isInt() && a[1].n.IsInt64() {
			if i := a[1].int64(); i >= 0 && i < int64(len(a[0].name)) {
				return I(int64(a[0].name[i]))
			}
		}
		return nil
	}
	evaluators["strsub"] = func(a []*Term) *Term {
		if a[0].op == OStr && a[1].isInt() && a[2].isInt() {
			i, j := a[1].int64(), a[2].int64()
			if 0 <= i && i <= j && j <= int64(len(a[0].name)) {
				return S(a[0].name[i:j])
			}
		}
		return nil
	}
	evaluators["strcat"] = func(a []*Term) *Term {
		if a[0].op == OStr && a[0].name == "" {
			return a[1]
		}
		if a[1].op == OStr && a[1].name == "" {
			return a[0]
		}
		if a[0].op == OStr && a[1].op == OStr {
			return S(a[0].name + a[1].name)
		}
		// right association with literal folding: (x+"a")+"b" = x+"ab"
		if a[0].op == OApp && a[0].name == "strcat" && a[0].args[1].op == OStr && a[1].op == OStr {
			return App("strcat", SInt, a[0].args[0], S(a[0].args[1].name+a[1].name))
		}
		// (x+sub(s,i,j))+sub(s,j,k) = x+sub(s,i,k); sub+sub likewise
		if r := joinSubs(a[0], a[1]); r != nil {
			return r
		}
		if a[0].op == OApp && a[0].name == "strcat" {
			if r := joinSubs(a[0].args[1], a[1]); r != nil {
				return App("strcat", SInt, a[0].args[0], r)
			}
		}
		return nil
	}
	evaluators["runestr"] = func(a []*Term) *Term {
		if a[0].isInt() && a[0].n.IsInt64() {
			return S(string(rune(a[0].int64())))
		}
		return nil
	}
	evaluators["strless"] = func(a []*Term) *Term {
		if a[0].op == OStr && a[1].op == OStr {
			return B(a[0].name < a[1].name)
		}
		if a[0] == a[1] {
			return False
		}
		return nil
	}
	str2b := func(name string, f func(a, b string) bool) {
		evaluators[name] = func(a []*Term) *Term {
			if a[0].op == OStr && a[1].op == OStr {
				return B(f(a[0].name, a[1].name))
			}
			return nil
		}
	}
	str2b("contains", strings.Contains)
	str2b("hasprefix", strings.HasPrefix)
	str2b("hassuffix", strings.HasSuffix)
	runeFn := func(name string, f func(r rune) bool) {
		evaluators[name] = func(a []*Term) *Term {
			if a[0].isInt() && a[0].n.IsInt64() {
				return B(f(rune(a[0].int64())))
			}
			return nil
		}
	}
	runeFn("isdigit", unicode.IsDigit)
	runeFn("isnumber", unicode.IsNumber)
	runeFn("isspace", unicode.IsSpace)
	runeFn("isletter", unicode.IsLetter)
	evaluators["atoi"] = func(a []*Term) *Term {
		if a[0].op == OStr {
			n, _ := strconv.Atoi(a[0].name)
			return I(int64(n))
		}
		return nil
	}
	evaluators["atoiok"] = func(a []*Term) *Term {
		if a[0].op == OStr {
			_, err := strconv.Atoi(a[0].name)
			return B(err == nil)
		}
		return nil
	}
}

func joinSubs(a, b *Term) *Term {
	if a.op == OApp && b.op == OApp && a.name == "strsub" && b.name == "strsub" && a.args[0] == b.args[0] && a.args[2] == b.args[1] {
		return App("strsub", SInt, a.args[0], a.args[1], b.args[2])
	}
	return nil
}

func (x *Exec) strLen(s *Term) *Term {
	if s.op == OApp && s.name == "strcat" {
		return Add(x.strLen(s.args[0]), x.strLen(s.args[1]))
	}
	if s.op == OApp && s.name == "strsub" {
		return Sub(s.args[2], s.args[1])
	}
	if s.op == OIte {
		return Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	t := App("strlen", SInt, s)
	if !t.isInt() && !t.hasBound {
		x.fact(Ge(t, I(0)))
		x.fact(Iff(Eq(t, I(0)), Eq(s, S(""))))
	}
	return t
}

// strFacts: basic facts about a string-valued term.
func (x *Exec) strFacts(s *Term) {
	if s.op == OStr || s.hasBound || x.wfDone[s] {
		return
	}
	x.fact(Ge(s, I(strBase)))
	t := App("strlen", SInt, s)
	if !t.isInt() {
		x.fact(Ge(t, I(0)))
		x.fact(Iff(Eq(t, I(0)), Eq(s, S(""))))
	}
	if s.op == OApp {
		switch s.name {
		case "strcat":
			x.fact(Eq(mk(&Term{op: OApp, sort: SInt, name: "strlen", args: []*Term{s}}), Add(x.strLen(s.args[0]), x.strLen(s.args[1]))))
		case "runestr":
			x.fact(And(Ge(t, I(1)), Le(t, I(4))))
		}
	}
}

func (x *Exec) strByte(s, i *Term) *Term {
	t := App("strbyte", SInt, s, i)
	x.wfByte(t)
	return t
}
func (x *Exec) wfByte(t *Term) {
	if !t.isInt() && !t.hasBound {
		x.fact(And(Ge(t, I(0)), Le(t, I(255))))
	}
}

func (x *Exec) strSub(s, lo, hi *Term) *Term {
	if lo.isInt() && lo.n.Sign() == 0 && hi == x.strLen(s) {
		return s
	}
	if lo == hi {
		return S("")
	}
	// sub of sub
	if s.op == OApp && s.name == "strsub" {
		return x.strSub(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	t := App("strsub", SInt, s, lo, hi)
	if t.op == OApp && !t.hasBound {
		in := And(Ge(lo, I(0)), Le(lo, hi), Le(hi, x.strLen(s)))
		raw := mk(&Term{op: OApp, sort: SInt, name: "strlen", args: []*Term{t}})
		x.fact(Ge(t, I(strBase)))
		x.fact(Imp(in, And(Eq(raw, Sub(hi, lo)), Iff(Eq(lo, hi), Eq(t, S(""))))))
		x.fact(Imp(And(Eq(lo, I(0)), Eq(hi, x.strLen(s))), Eq(t, s)))
	}
	return t
}

func (x *Exec) strCat(a, b *Term) *Term {
	if a.op == OIte && (a.args[1].op == OStr || a.args[2].op == OStr) && b.op == OStr {
		return Ite(a.args[0], x.strCat(a.args[1], b), x.strCat(a.args[2], b))
	}
	t := App("strcat", SInt, a, b)
	x.strFacts(t)
	return t
}

func (x *Exec) strLess(a, b *Term) *Term {
	t := App("strless", SBool, a, b)
	if t.op == OApp && !t.hasBound {
		u := App("strless", SBool, b, a)
		x.fact(Or(t, u, Eq(a, b)))
		x.fact(Not(And(t, u)))
		x.fact(Imp(Eq(a, b), And(Not(t), Not(u))))
	}
	return t
}

func (x *Exec) strMap(name string, s *Term) *Term {
	if s.op == OIte && (s.args[1].op == OStr || s.args[2].op == OStr) {
		return Ite(s.args[0], x.strMap(name, s.args[1]), x.strMap(name, s.args[2]))
	}
	t := App(name, SInt, s)
	x.strFacts(t)
	if t.op == OApp {
		x.fact(Eq(mk(&Term{op: OApp, sort: SInt, name: name, args: []*Term{t}}), t)) // idempotent
		x.fact(Imp(Eq(s, S("")), Eq(t, S(""))))
	}
	return t
}

// runeAt: the rune starting at byte pos and its width.
func (x *Exec) runeAt(s, pos *Term) (*Term, *Term) {
	if s.op == OStr && pos.isInt() {
		p := int(pos.int64())
		if p >= 0 && p < len(s.name) {
			r, w := utf8.DecodeRuneInString(s.name[p:])
			return I(int64(r)), I(int64(w))
		}
	}
	r := App("runeat", SInt, s, pos)
	w := App("runewidth", SInt, s, pos)
	if !r.hasBound {
		b := x.strByte(s, pos)
		x.fact(Imp(Lt(b, I(128)), And(Eq(r, b), Eq(w, I(1)))))
		x.fact(Imp(Ge(b, I(128)), Ge(r, I(128))))
		in := And(Ge(pos, I(0)), Lt(pos, x.strLen(s)))
		x.fact(Imp(in, And(Ge(w, I(1)), Le(w, I(4)), Le(Add(pos, w), x.strLen(s)), Ge(r, I(0)), Le(r, I(0x10FFFF)))))
		// in a valid UTF-8 text the bytes of a rune are its encoding
		x.fact(Imp(And(in, App("utf8ok", SBool, s)), Eq(App("runestr", SInt, r), x.strSub(s, pos, Add(pos, w)))))
	}
	return r, w
}

func runeSliceT() types.Type { return types.NewSlice(types.Typ[types.Rune]) }

// stringToRunes: []rune(s). The k-th rune and the length are functions of s.
func (x *Exec) stringToRunes(st *State, s *Term, t types.Type) Val {
	if s.op == OStr {
		var es []Val
		for _, r := range s.name {
			es = append(es, mkVal(elemType(t), I(int64(r))))
		}
		return x.sliceLit(st, t, es)
	}
	r := x.newRef()
	n := App("runecount", SInt, s)
	x.runeCountFacts(s, n)
	k := elemKey(elemType(t), "")
	row := App("runesof", arrOf(SInt), s)
	b := Bound("k", SInt)
	sel := mk(&Term{op: OSelect, sort: SInt, args: []*Term{row, b}})
	x.fact(Forall([]*Term{b}, validRune(sel), sel))
	st.set(k, Store(st.get(k, arrOf(arrOf(SInt))), r, row))
	return mkVal(t, r, I(0), n, n)
}

func (x *Exec) runeCountFacts(s, n *Term) {
	if n.op == OApp && !n.hasBound {
		x.fact(And(Ge(n, I(0)), Le(n, x.strLen(s)), Imp(Not(Eq(s, S(""))), Ge(n, I(1)))))
	}
}

func validRune(c *Term) *Term {
	return And(Ge(c, I(0)), Le(c, I(0x10FFFF)), Or(Lt(c, I(0xD800)), Gt(c, I(0xDFFF))))
}

// runesToString: string([]rune) is a function of the row, offset and length;
// its runes are the elements (valid code points are kept as they are).
func (x *Exec) runesToString(st *State, v Val) *Term {
	et := elemType(v.T)
	row := Select(st.get(elemKey(et, ""), arrOf(arrOf(SInt))), v.ref())
	var cat *Term
	if v.len().isInt() {
		n := int(v.len().int64())
		if n == 0 {
			return S("")
		}
		if n <= 64 {
			acc := S("")
			lit := true
			for i := 0; i < n; i++ {
				r := Select(row, Add(v.off(), I(int64(i))))
				if !r.isInt() {
					lit = false
				}
				c := App("runestr", SInt, r)
				x.strFacts(c)
				acc = x.strCat(acc, c)
			}
			if lit {
				return acc
			}
			cat = acc
		}
	}
	t := App("runesstr", SInt, row, v.off(), v.len())
	x.strFacts(t)
	if cat != nil {
		x.fact(Eq(t, cat))
	}
	x.fact(Iff(Eq(t, S("")), Eq(v.len(), I(0))))
	x.fact(Eq(App("runecount", SInt, t), v.len()))
	x.fact(App("utf8ok", SBool, t))
	b := Bound("k", SInt)
	sel := mk(&Term{op: OSelect, sort: SInt, args: []*Term{App("runesof", arrOf(SInt), t), b}})
	c := Select(row, Add(v.off(), b))
	x.fact(Forall([]*Term{b}, Imp(And(Ge(b, I(0)), Lt(b, v.len()), validRune(c)), Eq(sel, c)), sel))
	// the text is determined by its runes
	s0 := row
	if s0.op == OApp && s0.name == "runesof" {
		x.fact(Imp(And(App("utf8ok", SBool, s0.args[0]), Eq(v.off(), I(0)), Eq(v.len(), App("runecount", SInt, s0.args[0]))), Eq(t, s0.args[0])))
	}
	return t
}

// foldrc(row, off, n): total number of runes of the texts row[off..off+n)
func init() {
	evaluators["foldrc"] = func(a []*Term) *Term {
		row, off, n := a[0], a[1], a[2]
		if n.isInt() && n.n.Sign() <= 0 {
			return I(0)
		}
		last := Sub(Add(off, n), I(1))
		if row.op == OStore && row.args[1] == last {
			return Add(App("foldrc", SInt, row.args[0], off, Sub(n, I(1))), App("runecount", SInt, row.args[2]))
		}
		if n.isInt() && n.int64() <= 6 {
			return Add(App("foldrc", SInt, row, off, Sub(n, I(1))), App("runecount", SInt, Select(row, last)))
		}
		return nil
	}
	evaluators["runecount"] = func(a []*Term) *Term {
		if a[0].op == OStr {
			return I(int64(utf8.RuneCountInString(a[0].name)))
		}
		return nil
	}
	evaluators["utf8ok"] = func(a []*Term) *Term {
		if a[0].op == OStr {
			return B(utf8.ValidString(a[0].name))
		}
		return nil
	}
}

// foldAxioms: frame and unfolding facts for the folds in a query.
func foldAxioms(as []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	rows := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.name == "foldrc" {
			row, off, n := t.args[0], t.args[1], t.args[2]
			if row.op == OStore && !row.hasBound && !off.hasBound {
				k := row.key() + off.key()
				if !rows[k] {
					rows[k] = true
					j := Bound("j", SInt)
					l := App("foldrc", SInt, row, off, j)
					r := App("foldrc", SInt, row.args[0], off, j)
					ax := Forall([]*Term{j}, Imp(Le(Add(off, j), row.args[1]), Eq(l, r)), l)
					out = append(out, ax)
					walk(r)
				}
			}
			if !t.hasBound {
				out = append(out, Ge(t, I(0)))
				if row.op != OStore {
					last := Sub(Add(off, n), I(1))
					out = append(out, Imp(Ge(n, I(1)), Eq(t, Add(mk(&Term{op: OApp, sort: SInt, name: "foldrc", args: []*Term{row, off, Sub(n, I(1))}}), App("runecount", SInt, Select(row, last))))))
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range as {
		walk(a)
	}
	return out
}

// ---- calendar ----

func leapT(y *Term) *Term {
	if y.isInt() {
		n := y.int64()
		return B(n%4 == 0 && (n%100 != 0 || n%400 == 0))
	}
	return And(Eq(Mod(y, I(4)), I(0)), Or(Not(Eq(Mod(y, I(100)), I(0))), Eq(Mod(y, I(400)), I(0))))
}

func dimT(y, m *Term) *Term {
	return Ite(Eq(m, I(2)), Ite(leapT(y), I(29), I(28)),
		Ite(Or(Eq(m, I(4)), Eq(m, I(6)), Eq(m, I(9)), Eq(m, I(11))), I(30), I(31)))
}

func timeWF(y, m, d, s, n *Term) *Term {
	return And(Ge(m, I(1)), Le(m, I(12)), Ge(d, I(1)), Le(d, dimT(y, m)), Ge(s, I(0)), Lt(s, I(86400)), Ge(n, I(0)), Lt(n, I(1000000000)))
}

func dayNumConst(y, m, d int64) int64 {
	cum := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
	p := y - 1
	fd := func(a, b int64) int64 {
		q := a / b
		if a%b != 0 && (a < 0) != (b < 0) {
			q--
		}
		return q
	}
	n := 365*p + fd(p, 4) - fd(p, 100) + fd(p, 400) + cum[m-1] + d
	if m > 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		n++
	}
	return n
}

func init() {
	evaluators["daynum"] = func(a []*Term) *Term {
		if a[0].isInt() && a[1].isInt() && a[2].isInt() {
			if m := a[1].int64(); m >= 1 && m <= 12 {
				return I(dayNumConst(a[0].int64(), m, a[2].int64()))
			}
		}
		return nil
	}
}

// dayNum: proleptic Gregorian day number (1 = 0001-01-01).
func (x *Exec) dayNum(y, m, d *Term) *Term {
	t := App("daynum", SInt, y, m, I(1))
	if t.op == OApp && !t.hasBound {
		p := Sub(y, I(1))
		cum := I(334)
		for i, c := range []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304} {
			_ = i
			_ = c
		}
		cs := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304}
		for i := len(cs) - 1; i >= 0; i-- {
			cum = Ite(Eq(m, I(int64(i+1))), I(cs[i]), cum)
		}
		def := Add(Mul(I(365), p), Div(p, I(4)), Neg(Div(p, I(100))), Div(p, I(400)), cum, Ite(And(Gt(m, I(2)), leapT(y)), I(1), I(0)), I(1))
		x.fact(Eq(t, def))
	}
	return Add(t, d, I(-1))
}

const utcLoc = -1
const localLoc = -2

func timeOf(v Val) (y, m, d, s, n, loc *Term) {
	return v.L[0], v.L[1], v.L[2], v.L[3], v.L[4], v.L[5]
}

func (x *Exec) isZeroTime(v Val) *Term {
	y, m, d, s, n, loc := timeOf(v)
	z := And(Eq(y, I(1)), Eq(m, I(1)), Eq(d, I(1)), Eq(s, I(0)), Eq(n, I(0)))
	utc := Eq(loc, I(0))
	if utc == True {
		return z
	}
	u := App("iszeroin", SBool, y, m, d, s, n, loc)
	if !u.hasBound {
		x.fact(Imp(u, And(Le(y, I(1)), Ge(y, I(0)))))
	}
	return Or(And(utc, z), And(Not(utc), u))
}

// zoff: the offset of a location at a wall-clock instant.
func (x *Exec) zoff(v Val) *Term {
	y, m, d, s, n, loc := timeOf(v)
	_ = n
	if loc.isInt() && loc.n.Sign() == 0 {
		return I(0)
	}
	t := App("zoff", SInt, loc, y, m, d, s)
	if !t.hasBound {
		x.fact(Imp(Eq(loc, I(0)), Eq(t, I(0))))
		x.fact(Imp(App("fixedzone", SBool, loc), Eq(t, App("zonesecs", SInt, loc))))
	}
	return t
}

func (x *Exec) zname(v Val) *Term {
	y, m, d, s, _, loc := timeOf(v)
	t := App("zname", SInt, loc, y, m, d, s)
	if !t.hasBound {
		x.fact(Imp(Eq(loc, I(0)), Eq(t, S("UTC"))))
		x.fact(Imp(App("fixedzone", SBool, loc), Eq(t, App("zonename", SInt, loc))))
		x.strFacts(t)
	}
	return t
}

func (x *Exec) instant(v Val) *Term {
	y, m, d, s, _, _ := timeOf(v)
	return Sub(Add(Mul(I(86400), x.dayNum(y, m, d)), s), x.zoff(v))
}

// hms recombines hour, minute and second of one clock reading.
func hms(h, m, s *Term) *Term {
	if h.op == ODiv && h.args[1].isInt() && h.args[1].int64() == 3600 {
		S := h.args[0]
		if m == Mod(Div(S, I(60)), I(60)) && s == Mod(S, I(60)) {
			return S
		}
	}
	// merged the same way on both sides of a branch
	if h.op == OIte && m.op == OIte && s.op == OIte && h.args[0] == m.args[0] && h.args[0] == s.args[0] {
		return Ite(h.args[0], hms(h.args[1], m.args[1], s.args[1]), hms(h.args[2], m.args[2], s.args[2]))
	}
	return Add(Mul(I(3600), h), Mul(I(60), m), s)
}

// mkDate is time.Date on a wall clock: normalisation of every component.
func (x *Exec) mkDate(y, m, d, secs, ns, loc *Term, t types.Type) Val {
	// nanoseconds and seconds
	N := ns
	carryS := I(0)
	if !within(ns, 0, 999999999) && !x.knownRange(ns, 0, 999999999) {
		N = Mod(ns, I(1000000000))
		carryS = Div(ns, I(1000000000))
	}
	s1 := Add(secs, carryS)
	S1 := s1
	carryD := I(0)
	if !within(s1, 0, 86399) && !x.knownRange(s1, 0, 86399) {
		S1 = Mod(s1, I(86400))
		carryD = Div(s1, I(86400))
	}
	// month
	Y, M := y, m
	if !within(m, 1, 12) && !x.knownRange(m, 1, 12) {
		m0 := Sub(m, I(1))
		Y = Add(y, Div(m0, I(12)))
		M = Add(Mod(m0, I(12)), I(1))
	}
	D := Add(d, carryD)
	if Y.isInt() && M.isInt() && D.isInt() {
		yy, mm, dd := civil(dayNumConst(Y.int64(), M.int64(), 1) + D.int64() - 1)
		return mkVal(t, I(yy), I(mm), I(dd), S1, N, loc)
	}
	if within(D, 1, 28) {
		return mkVal(t, Y, M, D, S1, N, loc)
	}
	dim := dimT(Y, M)
	in := And(Ge(D, I(1)), Le(D, dim))
	// outside the month
	py := Ite(Eq(M, I(1)), Sub(Y, I(1)), Y)
	pm := Ite(Eq(M, I(1)), I(12), Sub(M, I(1)))
	ny := Ite(Eq(M, I(12)), Add(Y, I(1)), Y)
	nm := Ite(Eq(M, I(12)), I(1), Add(M, I(1)))
	if D.isInt() && D.n.Sign() == 0 {
		return mkVal(t, py, pm, dimT(py, pm), S1, N, loc)
	}
	fy, fm, fd := x.fresh("dateY", SInt), x.fresh("dateM", SInt), x.fresh("dateD", SInt)
	if !Y.hasBound && !M.hasBound && !D.hasBound {
		ok := And(Ge(fm, I(1)), Le(fm, I(12)), Ge(fd, I(1)), Le(fd, dimT(fy, fm)))
		x.fact(ok)
		pd := Add(D, dimT(py, pm))
		nd := Sub(D, dim)
		x.fact(Imp(And(Lt(D, I(1)), Ge(pd, I(1))), And(Eq(fy, py), Eq(fm, pm), Eq(fd, pd))))
		x.fact(Imp(And(Gt(D, dim), Le(nd, dimT(ny, nm))), And(Eq(fy, ny), Eq(fm, nm), Eq(fd, nd))))
		x.fact(Imp(in, And(Eq(fy, Y), Eq(fm, M), Eq(fd, D))))
		x.fact(Eq(x.dayNum(fy, fm, fd), x.dayNum(Y, M, D)))
	}
	return mkVal(t, Ite(in, Y, fy), Ite(in, M, fm), Ite(in, D, fd), S1, N, loc)
}

func civil(n int64) (int64, int64, int64) {
	y := n/366 + 1
	if n < 0 {
		y = n/365 - 1
	}
	for dayNumConst(y+1, 1, 1) <= n {
		y++
	}
	for dayNumConst(y, 1, 1) > n {
		y--
	}
	m := int64(1)
	for m < 12 && dayNumConst(y, m+1, 1) <= n {
		m++
	}
	return y, m, n - dayNumConst(y, m, 1) + 1
}

func within(t *Term, lo, hi int64) bool {
	l, h, ok := bounds(t)
	return ok && l != nil && h != nil && l.Cmp(big.NewInt(lo)) >= 0 && h.Cmp(big.NewInt(hi)) <= 0
}

// knownRange: lo <= t <= hi follows from the facts already recorded (looked
// up, not proved).
func (x *Exec) knownRange(t *Term, lo, hi int64) bool {
	if t.op == OIte {
		return (within(t.args[1], lo, hi) || x.knownRange(t.args[1], lo, hi)) && (within(t.args[2], lo, hi) || x.knownRange(t.args[2], lo, hi))
	}
	// a loaded time component: its well-formedness was recorded as facts
	_, a := x.factSet[Ge(t, I(lo))]
	if !a {
		a = Ge(t, I(lo)) == True
	}
	if !a {
		return false
	}
	if _, b := x.factSet[Le(t, I(hi))]; b {
		return true
	}
	_, b := x.factSet[Lt(t, I(hi+1))]
	return b
}

func (x *Exec) timeLess(a, b Val) *Term {
	ay, am, ad, as, an, al := timeOf(a)
	by, bm, bd, bs, bn, bl := timeOf(b)
	lex := Or(Lt(ay, by), And(Eq(ay, by), Or(Lt(am, bm), And(Eq(am, bm), Or(Lt(ad, bd), And(Eq(ad, bd), Or(Lt(as, bs), And(Eq(as, bs), Lt(an, bn)))))))))
	if al == bl {
		x.note("a time.Location keeps one UTC offset over the span of one call (no daylight-saving jump between the reference time and the result)")
		return lex
	}
	ia, ib := x.instant(a), x.instant(b)
	gen := Or(Lt(ia, ib), And(Eq(ia, ib), Lt(an, bn)))
	return Ite(Eq(al, bl), lex, gen)
}

func (x *Exec) inLoc(v Val, loc *Term) Val {
	y, m, d, s, n, l0 := timeOf(v)
	if l0 == loc {
		return v
	}
	off0 := x.zoff(v)
	// offset of the new location at this instant
	off1 := App("zoffat", SInt, loc, y, m, d, s, l0)
	if loc.isInt() && loc.n.Sign() == 0 {
		off1 = I(0)
	} else if !off1.hasBound {
		x.fact(Imp(Eq(loc, I(0)), Eq(off1, I(0))))
		x.fact(Imp(Eq(loc, l0), Eq(off1, off0)))
		x.fact(Imp(App("fixedzone", SBool, loc), Eq(off1, App("zonesecs", SInt, loc))))
	}
	r := x.mkDate(y, m, d, Add(s, off1, Neg(off0)), n, loc, v.T)
	if !off1.hasBound {
		x.fact(Eq(x.zoff(r), off1))
	}
	return r
}

func normLoc(l *Term) *Term { return Ite(Eq(l, I(utcLoc)), I(0), l) }

// ---- model table ----

func bval(t *Term) Val { return mkVal(boolT, t) }

func (x *Exec) newErr(st *State) Val {
	t := types.Universe.Lookup("error").Type()
	e := x.fresh("err", SInt)
	x.fact(Lt(e, I(0)))
	x.fact(Gt(e, I(-1000000)))
	return mkVal(t, e)
}

func init() {
	M := map[string]modelFn{}
	models = M
	s1 := func(name, fn string) {
		M[name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			return mkVal(typ, x.strMap(fn, a[0].t1()))
		}
	}
	s1("strings.ToLower", "lower")
	s1("strings.ToUpper", "upper")
	s1("strings.TrimSpace", "trimspace")
	strFnOpaque := func(name string, shrink bool) {
		M[name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			var ts []*Term
			for _, v := range a {
				ts = append(ts, v.t1())
			}
			t := App("fn:"+name, SInt, ts...)
			x.strFacts(t)
			if shrink {
				x.fact(Le(x.strLen(t), x.strLen(ts[0])))
			}
			return mkVal(typ, t)
		}
	}
	strFnOpaque("strings.TrimSuffix", true)
	strFnOpaque("strings.TrimPrefix", true)
	strFnOpaque("strings.Trim", true)
	strFnOpaque("strings.TrimLeft", true)
	strFnOpaque("strings.TrimRight", true)
	strFnOpaque("strings.Repeat", false)
	M["strings.TrimFunc"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := x.fresh("trimfunc", SInt)
		x.strFacts(t)
		x.fact(Le(x.strLen(t), x.strLen(a[0].t1())))
		// what is cut off lies at the ends
		return mkVal(typ, t)
	}
	repl := func(x *Exec, st *State, a []Val, typ types.Type) Val {
		s, o, n := a[0].t1(), a[1].t1(), a[2].t1()
		if s.op == OStr && o.op == OStr && n.op == OStr {
			return mkVal(typ, S(strings.ReplaceAll(s.name, o.name, n.name)))
		}
		t := App("replaceall", SInt, s, o, n)
		x.strFacts(t)
		x.fact(Imp(Not(App("contains", SBool, s, o)), Eq(t, s)))
		return mkVal(typ, t)
	}
	M["strings.ReplaceAll"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return repl(x, st, a, typ)
	}
	M["strings.Replace"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		if a[3].t1().isInt() && a[3].t1().n.Sign() < 0 {
			return repl(x, st, a, typ)
		}
		return x.opaqueResult("strings.Replace", typ, a)
	}
	b2 := func(name, fn string) {
		M[name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			s, p := a[0].t1(), a[1].t1()
			t := App(fn, SBool, s, p)
			if t.op == OApp && !t.hasBound {
				x.fact(Imp(t, Ge(x.strLen(s), x.strLen(p))))
				x.fact(Imp(Eq(p, S("")), t))
				x.fact(Imp(Eq(s, p), t))
			}
			return mkVal(typ, t)
		}
	}
	b2("strings.Contains", "contains")
	b2("strings.HasPrefix", "hasprefix")
	b2("strings.HasSuffix", "hassuffix")
	M["strings.EqualFold"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		// exact for ASCII operands; the property only compares ASCII names
		x.note("strings.EqualFold is equality of the lower-cased strings (exact up to special case-folding of non-ASCII letters)")
		return bval(Eq(x.strMap("lower", a[0].t1()), x.strMap("lower", a[1].t1())))
	}
	M["strings.Count"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := App("count", SInt, a[0].t1(), a[1].t1())
		x.fact(Ge(t, I(0)))
		x.fact(Iff(App("contains", SBool, a[0].t1(), a[1].t1()), Ge(t, I(1))))
		return mkVal(typ, t)
	}
	idx := func(name, fn string) {
		M[name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			s, p := a[0].t1(), a[1].t1()
			t := App(fn, SInt, s, p)
			x.fact(Ge(t, I(-1)))
			x.fact(Imp(Ge(t, I(0)), Le(Add(t, x.strLen(p)), x.strLen(s))))
			x.fact(Iff(Ge(t, I(0)), App("contains", SBool, s, p)))
			return mkVal(typ, t)
		}
	}
	idx("strings.Index", "index")
	idx("strings.LastIndex", "lastindex")
	M["strings.Split"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s, p := a[0].t1(), a[1].t1()
		if s.op == OStr && p.op == OStr {
			var es []Val
			for _, e := range strings.Split(s.name, p.name) {
				es = append(es, mkVal(strT, S(e)))
			}
			return x.sliceLit(st, typ, es)
		}
		n := Add(App("count", SInt, s, p), I(1))
		x.fact(Ge(App("count", SInt, s, p), I(0)))
		v := x.freshSlice(st, typ, n)
		if p.op != OStr || p.name == "" {
			// an empty separator explodes the string
			v.L[2] = x.fresh("splitlen", SInt)
			v.L[3] = v.L[2]
			x.fact(Ge(v.L[2], I(0)))
			x.fact(Imp(Not(Eq(p, S(""))), Eq(v.L[2], n)))
		}
		x.splitFacts(st, v, s, p)
		return v
	}
	M["strings.SplitSeq"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		sl := M["strings.Split"](x, st, f, a, types.NewSlice(strT), pos)
		return mkVal(typ, regFunc(&FuncVal{kind: "slice1", data: []Val{sl}}))
	}
	M["strings.FieldsSeq"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		sl := M["strings.Fields"](x, st, f, a, types.NewSlice(strT), pos)
		return mkVal(typ, regFunc(&FuncVal{kind: "slice1", data: []Val{sl}}))
	}
	M["slices.Values"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, regFunc(&FuncVal{kind: "slice1", data: []Val{a[0]}}))
	}
	M["strings.Fields"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		n := App("fieldcount", SInt, a[0].t1())
		x.fact(And(Ge(n, I(0)), Le(n, x.strLen(a[0].t1()))))
		v := x.freshSlice(st, typ, n)
		row := App("fieldsof", arrOf(SInt), a[0].t1())
		k := elemKey(strT, "")
		st.set(k, Store(st.get(k, arrOf(arrOf(SInt))), v.ref(), row))
		b := Bound("k", SInt)
		sel := mk(&Term{op: OSelect, sort: SInt, args: []*Term{row, b}})
		x.fact(Forall([]*Term{b}, Imp(And(Ge(b, I(0)), Lt(b, n)), And(Gt(sel, I(strBase)), Ge(App("strlen", SInt, sel), I(1)))), sel))
		return v
	}
	M["strings.Join"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		if es, ok := x.concreteElems(st, a[0]); ok && len(es) <= 40 {
			acc := S("")
			for i, e := range es {
				if i > 0 {
					acc = x.strCat(acc, a[1].t1())
				}
				acc = x.strCat(acc, e.t1())
			}
			return mkVal(typ, acc)
		}
		et := elemType(a[0].T)
		row := Select(st.get(elemKey(et, ""), arrOf(arrOf(SInt))), a[0].ref())
		t := App("joinrow", SInt, row, a[0].off(), a[0].len(), a[1].t1())
		x.strFacts(t)
		x.fact(Imp(Eq(a[0].len(), I(0)), Eq(t, S(""))))
		return mkVal(typ, t)
	}
	// strconv
	M["strconv.Atoi"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].t1()
		n := App("atoi", SInt, s)
		ok := App("atoiok", SBool, s)
		if n.op == OApp {
			// up to 18 characters an int cannot overflow; digits only means success
			x.fact(Imp(Not(ok), Or(Eq(n, I(0)), Gt(x.strLen(s), I(18)))))
			x.fact(Imp(Eq(s, S("")), Not(ok)))
			x.fact(Imp(And(App("alldigits", SBool, s), Ge(x.strLen(s), I(1)), Le(x.strLen(s), I(18))), And(ok, Ge(n, I(0)))))
			for l := int64(1); l <= 4; l++ {
				p := int64(1)
				for i := int64(0); i < l; i++ {
					p *= 10
				}
				x.fact(Imp(Le(x.strLen(s), I(l)), And(Lt(n, I(p)), Gt(n, I(-p)))))
			}
		}
		e := x.newErr(st)
		return tup(typ, mkVal(intT, n), mkVal(e.T, Ite(ok, I(0), e.t1())))
	}
	M["strconv.ParseInt"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].t1()
		if a[1].t1() != I(10) {
			return x.opaqueResult("strconv.ParseInt", typ, a)
		}
		n := App("parseint", SInt, s)
		ok := App("parseintok", SBool, s)
		x.parseIntFacts(s, n, ok)
		e := x.newErr(st)
		return tup(typ, mkVal(types.Typ[types.Int64], n), mkVal(e.T, Ite(ok, I(0), e.t1())))
	}
	M["strconv.ParseFloat"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].t1()
		n := App("parsefloat", SReal, s)
		ok := App("parsefloatok", SBool, s)
		x.note("floating-point values are treated as exact reals")
		e := x.newErr(st)
		return tup(typ, mkVal(types.Typ[types.Float64], n), mkVal(e.T, Ite(ok, I(0), e.t1())))
	}
	strFnOpaque("strconv.Itoa", false)
	M["fmt.Errorf"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		v := x.newErr(st)
		v.T = typ
		return v
	}
	M["errors.New"] = M["fmt.Errorf"]
	M["fmt.Sprintf"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, x.sprintf(st, a[0].t1(), a[1]))
	}
	// math
	M["math.Floor"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, ToReal(Floor(a[0].t1())))
	}
	M["math.Ceil"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, Neg(ToReal(Floor(Neg(a[0].t1())))))
	}
	M["math.Abs"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := a[0].t1()
		return mkVal(typ, Ite(Ge(t, RI(0)), t, Neg(t)))
	}
	half := R(big.NewRat(1, 2))
	M["math.Round"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := a[0].t1()
		return mkVal(typ, Ite(Ge(t, RI(0)), ToReal(Floor(Add(t, half))), Neg(ToReal(Floor(Add(Neg(t), half))))))
	}
	M["math.Trunc"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := a[0].t1()
		return mkVal(typ, Ite(Ge(t, RI(0)), ToReal(Floor(t)), Neg(ToReal(Floor(Neg(t))))))
	}
	// unicode
	u1 := func(name, fn string) {
		M[name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			r := a[0].t1()
			t := App(fn, SBool, r)
			if t.op == OApp && !t.hasBound && fn == "isdigit" {
				x.fact(Imp(Lt(r, I(128)), Eq(t, And(Ge(r, I('0')), Le(r, I('9'))))))
			}
			return mkVal(typ, t)
		}
	}
	u1("unicode.IsDigit", "isdigit")
	u1("unicode.IsNumber", "isnumber")
	u1("unicode.IsSpace", "isspace")
	u1("unicode.IsLetter", "isletter")
	M["unicode.Is"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := x.inTable(a[0].t1(), a[1].t1())
		return mkVal(typ, t)
	}
	M["unicode/utf8.RuneCountInString"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		n := App("runecount", SInt, a[0].t1())
		x.runeCountFacts(a[0].t1(), n)
		return mkVal(typ, n)
	}
	M["unicode/utf8.DecodeRuneInString"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].t1()
		r, w := x.runeAt(s, I(0))
		e := Eq(s, S(""))
		return tup(typ, mkVal(nil, Ite(e, I(0xFFFD), r)), mkVal(nil, Ite(e, I(0), w)))
	}
	M["unicode/utf8.DecodeLastRuneInString"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].t1()
		r := App("lastrune", SInt, s)
		w := App("lastrunewidth", SInt, s)
		x.fact(And(Ge(w, I(0)), Le(w, I(4)), Le(w, x.strLen(s)), Ge(r, I(0)), Le(r, I(0x10FFFF))))
		return tup(typ, mkVal(nil, r), mkVal(nil, w))
	}
	// slices
	M["slices.Clone"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0]
		s.T = typ
		return x.cloneSlice(st, s)
	}
	M["slices.Contains"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		if es, ok := x.concreteElems(st, a[0]); ok && len(es) <= 60 {
			var ds []*Term
			for _, e := range es {
				ds = append(ds, x.eqVal(e, a[1]))
			}
			return bval(Or(ds...))
		}
		et := elemType(a[0].T)
		row := Select(st.get(elemKey(et, layout(et)[0].path), arrOf(arrOf(layout(et)[0].sort))), a[0].ref())
		t := x.fresh("contains", SBool)
		w := x.fresh("containsAt", SInt)
		v := a[1].t1()
		s := a[0]
		x.fact(Imp(t, And(Ge(w, I(0)), Lt(w, s.len()), Eq(Select(row, Add(s.off(), w)), v))))
		b := Bound("k", SInt)
		if s.off().isInt() && s.off().n.Sign() == 0 {
			sel := mk(&Term{op: OSelect, sort: row2(row), args: []*Term{row, b}})
			x.fact(Imp(Not(t), Forall([]*Term{b}, Imp(And(Ge(b, I(0)), Lt(b, s.len())), Not(Eq(sel, v))), sel)))
		} else {
			sel := mk(&Term{op: OSelect, sort: row2(row), args: []*Term{row, b}})
			x.fact(Imp(Not(t), Forall([]*Term{b}, Imp(And(Ge(b, s.off()), Lt(b, Add(s.off(), s.len()))), Not(Eq(sel, v))), sel)))
		}
		return bval(t)
	}
	M["slices.DeleteFunc"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0]
		et := elemType(s.T)
		x.ownCheck(st, s.ref(), func() *Term {
			if x.allowed == nil {
				return False
			}
			return x.allowed("E|"+typeKey(et), s.ref())
		}, "slices.DeleteFunc", pos)
		x.note("slices.DeleteFunc keeps a subsequence; which elements stay is not modelled beyond the length")
		n := x.fresh("deleted.len", SInt)
		x.fact(And(Ge(n, I(0)), Le(n, s.len())))
		x.havocRow(st, et, s.ref())
		return mkVal(typ, s.ref(), s.off(), n, s.cap())
	}
	M["slices.Delete"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s, i, j := a[0], a[1].t1(), a[2].t1()
		x.oblige("safety", "slices.Delete range", []string{"C01"}, pos, st, And(Ge(i, I(0)), Le(i, j), Le(j, s.len())))
		et := elemType(s.T)
		x.ownCheck(st, s.ref(), func() *Term {
			if x.allowed == nil {
				return False
			}
			return x.allowed("E|"+typeKey(et), s.ref())
		}, "slices.Delete", pos)
		for _, l := range layout(et) {
			k := elemKey(et, l.path)
			h := st.get(k, arrOf(arrOf(l.sort)))
			row := x.fresh("row:"+k, arrOf(l.sort))
			b := Bound("k", SInt)
			sel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, b}})
			old := Select(h, s.ref())
			x.fact(Forall([]*Term{b}, Imp(And(Ge(b, s.off()), Lt(b, Add(s.off(), i))), Eq(sel, Select(old, b))), sel))
			x.fact(Forall([]*Term{b}, Imp(And(Ge(b, Add(s.off(), i)), Lt(b, Sub(Add(s.off(), s.len()), Sub(j, i)))), Eq(sel, Select(old, Add(b, Sub(j, i))))), sel))
			st.set(k, Store(h, s.ref(), row))
		}
		return mkVal(typ, s.ref(), s.off(), Sub(s.len(), Sub(j, i)), s.cap())
	}
	// sorting
	M["sort.Strings"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		x.sortSlice(st, a[0], nil, "sort.Strings", pos)
		return Val{T: typ, Tup: []Val{}}
	}
	srt := func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		v, ok := ifaceVals[a[0].t1()]
		if !ok {
			x.fail("sort of unknown slice")
		}
		less := a[1]
		x.sortSlice(st, v, &less, f.Name(), pos)
		return Val{T: typ, Tup: []Val{}}
	}
	M["sort.Slice"] = srt
	M["sort.SliceStable"] = srt
	// sync
	lock := func(lockIt bool) modelFn {
		return func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			x.mutex(st, a[0], lockIt, pos)
			return Val{T: typ, Tup: []Val{}}
		}
	}
	M["(*sync.Mutex).Lock"] = lock(true)
	M["(*sync.Mutex).Unlock"] = lock(false)
	timeModels(M)
	regexModels(M)
	calendarModels(M)
	M["golang.org/x/text/transform.String"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		tr := a[0].t1()
		// a Transformer keeps state between calls: it must not be shared
		own := False
		if dv, ok := ifaceVals[tr]; ok && dv.A == nil && len(dv.L) == 1 && dv.L[0].isAlloc() {
			own = True
		}
		if strings.HasPrefix(tr.name, "newtransformer") {
			own = True
		}
		if st := tr.op; st == OApp && strings.HasPrefix(tr.name, "iface:") && len(tr.args) == 1 && strings.HasPrefix(tr.args[0].name, "newtransformer") {
			own = True
		}
		x.oblige("lock", "a stateful text transformer is not shared between calls", []string{"C18"}, pos, st, Or(own, x.statelessTransformer(tr)))
		out := App("transform", SInt, tr, a[1].t1())
		if own == True {
			out = App("transform", SInt, I(0), a[1].t1())
		}
		x.strFacts(out)
		n := x.fresh("transform.n", SInt)
		x.fact(Ge(n, I(0)))
		e := x.fresh("transform.err", SInt)
		return tup(typ, mkVal(strT, out), mkVal(intT, n), mkVal(nil, e))
	}
	M["golang.org/x/text/transform.Chain"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := x.fresh("newtransformer", SInt)
		x.fact(Not(Eq(t, I(0))))
		return mkVal(typ, t)
	}
	M["encoding/json.Marshal"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return x.freshVal("json", typ)
	}
}

func row2(r *Term) Sort { return elemOf(r.sort) }

func (x *Exec) parseIntFacts(s, n, ok *Term) {
	if n.op != OApp {
		return
	}
	x.fact(Imp(Not(ok), Or(Eq(n, I(0)), Gt(x.strLen(s), I(18)))))
	x.fact(Imp(Eq(s, S("")), And(Not(ok), Eq(n, I(0)))))
	x.fact(Imp(And(App("alldigits", SBool, s), Ge(x.strLen(s), I(1)), Le(x.strLen(s), I(18))), And(ok, Ge(n, I(0)))))
	for _, l := range []int64{3, 10} {
		p := int64(1)
		for i := int64(0); i < l; i++ {
			p *= 10
		}
		x.fact(Imp(And(App("alldigits", SBool, s), Le(x.strLen(s), I(l))), Lt(n, I(p))))
	}
}

func (x *Exec) splitFacts(st *State, v Val, s, p *Term) {
	// every part is no longer than the text
	k := elemKey(strT, "")
	row := Select(st.get(k, arrOf(arrOf(SInt))), v.ref())
	b := Bound("k", SInt)
	sel := mk(&Term{op: OSelect, sort: SInt, args: []*Term{row, b}})
	x.fact(Forall([]*Term{b}, And(Ge(sel, I(strBase)), Eq(sel, App("splitpart", SInt, s, p, b))), sel))
}

func (x *Exec) sprintf(st *State, f *Term, args Val) *Term {
	if f.op == OStr {
		if es, ok := x.concreteElems(st, args); ok {
			parts := []*Term{}
			lit := ""
			ai := 0
			good := true
			s := f.name
			for i := 0; i < len(s) && good; i++ {
				if s[i] != '%' {
					lit += string(s[i])
					continue
				}
				i++
				if i >= len(s) {
					good = false
					break
				}
				switch s[i] {
				case '%':
					lit += "%"
				case 's', 'v':
					if ai >= len(es) {
						good = false
						break
					}
					v, ok := ifaceVals[es[ai].t1()]
					ai++
					if !ok || !isStringType(v.T) {
						good = false
						break
					}
					if lit != "" {
						parts = append(parts, S(lit))
						lit = ""
					}
					parts = append(parts, v.t1())
				default:
					good = false
				}
			}
			if good {
				if lit != "" {
					parts = append(parts, S(lit))
				}
				acc := S("")
				for _, p := range parts {
					acc = x.strCat(acc, p)
				}
				return acc
			}
		}
	}
	t := x.fresh("sprintf", SInt)
	x.strFacts(t)
	return t
}

func (x *Exec) cloneSlice(st *State, s Val) Val {
	et := elemType(s.T)
	r := x.newRef()
	cp := x.fresh("cap", SInt)
	x.fact(Ge(cp, s.len()))
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		h := st.get(k, arrOf(arrOf(l.sort)))
		st.set(k, Store(h, r, Select(h, s.ref())))
	}
	isNil := Eq(s.ref(), I(0))
	if ownedTerm(s.ref()) && s.ref().isAlloc() {
		isNil = False
	}
	x.wf(s)
	return mkVal(s.T, Ite(isNil, I(0), r), s.off(), s.len(), Ite(isNil, I(0), cp))
}

// sortSlice: the slice is permuted; with a less function every comparison is
// checked for safety on two arbitrary elements.
func (x *Exec) sortSlice(st *State, s Val, less *Val, what string, pos token.Pos) {
	et := elemType(s.T)
	x.ownCheck(st, s.ref(), func() *Term {
		if x.allowed == nil {
			return False
		}
		return x.allowed("E|"+typeKey(et), s.ref())
	}, what, pos)
	x.seq++
	// permuted content
	fwd := x.fresh("perm", arrOf(SInt))
	inv := x.fresh("perminv", arrOf(SInt))
	b := Bound("k", SInt)
	fs := mk(&Term{op: OSelect, sort: SInt, args: []*Term{fwd, b}})
	is := mk(&Term{op: OSelect, sort: SInt, args: []*Term{inv, b}})
	in := func(t *Term) *Term { return And(Ge(t, I(0)), Lt(t, s.len())) }
	x.fact(Forall([]*Term{b}, Imp(in(b), And(in(fs), Eq(mk(&Term{op: OSelect, sort: SInt, args: []*Term{inv, fs}}), b))), fs))
	x.fact(Forall([]*Term{b}, Imp(in(b), And(in(is), Eq(mk(&Term{op: OSelect, sort: SInt, args: []*Term{fwd, is}}), b))), is))
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		h := st.get(k, arrOf(arrOf(l.sort)))
		old := Select(h, s.ref())
		row := x.fresh("sorted:"+k, arrOf(l.sort))
		sel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, b}})
		rel := Sub(b, s.off())
		x.fact(Forall([]*Term{b}, Imp(And(Ge(rel, I(0)), Lt(rel, s.len())), Eq(sel, Select(old, Add(s.off(), Select(fwd, rel))))), sel))
		// every old element is somewhere in the new slice
		oldSel := mk(&Term{op: OSelect, sort: l.sort, args: []*Term{old, b}})
		x.fact(Forall([]*Term{b}, Imp(And(Ge(rel, I(0)), Lt(rel, s.len())), Eq(oldSel, Select(row, Add(s.off(), Select(inv, rel))))), oldSel))
		st.set(k, Store(h, s.ref(), row))
	}
	if less == nil {
		return
	}
	// safety and meaning of the comparison on two arbitrary positions of the sorted slice
	i, j := x.fresh("cmpi", SInt), x.fresh("cmpj", SInt)
	s2 := st.clone()
	g := And(Ge(i, I(0)), Lt(i, s.len()), Ge(j, I(0)), Lt(j, s.len()))
	s2.pc = And(st.pc, g)
	mark := x.mark()
	_ = mark
	r := x.callVal(s2, *less, "", []Val{mkVal(intT, i), mkVal(intT, j)}, boolT, pos)
	if s2.dead() {
		return
	}
	// sorted: for i < j not less(j, i). The comparison must be expressible as a
	// term over i and j to be generalised.
	lt := r.t1()
	_ = lt
	sorted := x.sortedFact(st, s, *less, pos)
	if sorted != nil {
		x.fact(Imp(st.pc, sorted))
	}
}

// sortedFact builds: forall a < b in range: not less(b, a), when the
// comparison evaluates to a term without fresh symbols.
func (x *Exec) sortedFact(st *State, s Val, less Val, pos token.Pos) *Term {
	a, b := Bound("a", SInt), Bound("b", SInt)
	var res *Term
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(ExecError); !ok {
					panic(r)
				}
				res = nil
			}
		}()
		x.trial++
		defer func() { x.trial-- }()
		ob := len(x.obls)
		s2 := st.clone()
		v := x.callVal(s2, less, "", []Val{mkVal(intT, b), mkVal(intT, a)}, boolT, pos)
		x.obls = x.obls[:ob]
		res = v.t1()
	}()
	if res == nil || !res.hasBound {
		return nil
	}
	et := elemType(s.T)
	k := elemKey(et, layout(et)[0].path)
	row := Select(st.get(k, arrOf(arrOf(layout(et)[0].sort))), s.ref())
	pa := mk(&Term{op: OSelect, sort: row2(row), args: []*Term{row, Add(s.off(), a)}})
	pb := mk(&Term{op: OSelect, sort: row2(row), args: []*Term{row, Add(s.off(), b)}})
	return Forall([]*Term{a, b}, Imp(And(Ge(a, I(0)), Lt(a, b), Lt(b, s.len())), Not(res)), pa, pb)
}

// ---- locks ----

func (x *Exec) mutex(st *State, m Val, lock bool, pos token.Pos) {
	a := x.addrOf(st, m)
	k := objKey(a.T, a.path+".lock")
	arr := st.get(k, arrOf(SInt))
	cur := Select(arr, a.ref)
	if lock {
		x.oblige("lock", "the lock is not already held by this call", []string{"C18"}, pos, st, Eq(cur, I(0)))
		// other goroutines may have changed the guarded fields meanwhile
		for _, g := range x.C.guards {
			if g.typ == typeKey(a.T) {
				for _, l := range g.leaves(x) {
					gk := objKey(a.T, l.path)
					h := st.get(gk, arrOf(l.sort))
					nv := x.fresh("guard:"+gk, l.sort)
					x.modWF(l, nv)
					st.set(gk, Store(h, a.ref, nv))
				}
				x.guardWF(st, g, a)
			}
		}
		st.set(k, Store(st.get(k, arrOf(SInt)), a.ref, I(1)))
	} else {
		x.oblige("lock", "only a held lock is released", []string{"C18"}, pos, st, Eq(cur, I(1)))
		st.set(k, Store(arr, a.ref, I(0)))
	}
}

func (x *Exec) inTable(tab, r *Term) *Term {
	if tab.isInt() {
		if tb := rangeTables[tab.int64()]; tb != nil {
			if r.isInt() && r.n.IsInt64() {
				return B(unicode.Is(tb, rune(r.int64())))
			}
			if len(tb.R16)+len(tb.R32) <= 12 && strideOne(tb) {
				var ds []*Term
				for _, q := range tb.R16 {
					ds = append(ds, And(Ge(r, I(int64(q.Lo))), Le(r, I(int64(q.Hi)))))
				}
				for _, q := range tb.R32 {
					ds = append(ds, And(Ge(r, I(int64(q.Lo))), Le(r, I(int64(q.Hi)))))
				}
				return Or(ds...)
			}
		}
	}
	return App("intable", SBool, tab, r)
}

var rangeTables = map[int64]*unicode.RangeTable{}

func strideOne(t *unicode.RangeTable) bool {
	for _, q := range t.R16 {
		if q.Stride != 1 && q.Lo != q.Hi {
			return false
		}
	}
	for _, q := range t.R32 {
		if q.Stride != 1 && q.Lo != q.Hi {
			return false
		}
	}
	return true
}

func (x *Exec) statelessTransformer(t *Term) *Term {
	// runes.Transformer values (Map, Remove) wrap a stateless transformer
	if dv, ok := ifaceVals[t]; ok {
		if n, ok := types.Unalias(dv.T).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "golang.org/x/text/runes" {
			x.note("golang.org/x/text/runes transformers (Map, Remove) keep no state between calls")
			return True
		}
	}
	return False
}

var _ = fmt.Sprint
