package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Src  string
	Expr ast.Expr
	Tags []string
	Name string
}

type Contract struct {
	Name      string
	Params    []string
	Unroll    int
	UnrollAll bool
	Inline    bool
	Trusted   bool
	NoVerify  bool
	Why       string
	NoReturn  bool
	Overflow  bool
	Fresh     []int
	MaybeNil  map[int]bool
	Requires  []*Clause
	Ensures   []*Clause
	Modifies  []*Clause
	Templates []*LoopTemplate
	Cuts      bool
	ExtraTags []string
	Timeout   int
	File      string
	SafetyOff bool
	fn        *ssa.Function
}

type LoopTemplate struct {
	Src   string
	Expr  ast.Expr
	Holes []hole
}
type hole struct{ name, kind string }

type Guard struct {
	typ    string
	fields []string
	inv    []*Clause
}

type Contracts struct {
	byName  map[string]*Contract
	guards  []*Guard
	defines map[string]*define
	order   []string
}
type define struct {
	params []string
	body   ast.Expr
}

func (c *Contract) allTags() []string {
	m := map[string]bool{}
	for _, l := range [][]*Clause{c.Ensures, c.Requires} {
		for _, cl := range l {
			for _, t := range cl.Tags {
				m[t] = true
			}
		}
	}
	for _, t := range c.ExtraTags {
		m[t] = true
	}
	var out []string
	for t := range m {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func hasTag(ts []string, t string) bool {
	for _, a := range ts {
		if a == t {
			return true
		}
	}
	return false
}

var rxHead = regexp.MustCompile(`^func\s+(.+?)\s*\(([^()]*)\)\s*$`)
var rxTag = regexp.MustCompile(`^(\w+)\s*\[([^\]]*)\]\s*(.*)$`)
var rxHole = regexp.MustCompile(`\$([a-z]+)([0-9]*)`)

func LoadContracts(dir string) (*Contracts, error) {
	C := &Contracts{byName: map[string]*Contract{}, defines: map[string]*define{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := C.parse(string(b), filepath.Base(f)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	return C, nil
}

func parseSpec(s string) (ast.Expr, error) {
	s = rxHole.ReplaceAllString(s, "HOLE_${1}_${2}")
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return e, nil
}

func (C *Contracts) parse(src, file string) error {
	var lines []string
	for _, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		if len(lines) > 0 && (strings.HasPrefix(l, "\t\t") || strings.HasPrefix(l, "      ")) {
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, l)
	}
	var cur *Contract
	var curG *Guard
	for _, l := range lines {
		ind := l[0] == ' ' || l[0] == '\t'
		l = strings.TrimSpace(l)
		if !ind {
			cur, curG = nil, nil
			if strings.HasPrefix(l, "func ") || strings.HasPrefix(l, "field ") {
				h := l
				isField := strings.HasPrefix(l, "field ")
				if isField {
					h = "func " + l[6:]
				}
				i := strings.LastIndex(h, "(")
				j := strings.LastIndex(h, ")")
				if i < 0 || j < i {
					return fmt.Errorf("bad header %q", l)
				}
				name := strings.TrimSpace(h[5:i])
				if isField {
					name = "field " + name
				}
				cur = &Contract{Name: name, MaybeNil: map[int]bool{}, File: file}
				for _, p := range strings.Split(h[i+1:j], ",") {
					if p = strings.TrimSpace(p); p != "" {
						cur.Params = append(cur.Params, p)
					}
				}
				if C.byName[name] != nil {
					return fmt.Errorf("duplicate contract %s", name)
				}
				C.byName[name] = cur
				C.order = append(C.order, name)
				continue
			}
			if strings.HasPrefix(l, "guard ") {
				f := strings.Fields(l)
				curG = &Guard{typ: f[1], fields: f[2:]}
				C.guards = append(C.guards, curG)
				continue
			}
			if strings.HasPrefix(l, "define ") {
				d := l[7:]
				eq := strings.Index(d, " = ")
				i := strings.Index(d, "(")
				j := strings.Index(d, ")")
				df := &define{}
				for _, p := range strings.Split(d[i+1:j], ",") {
					if p = strings.TrimSpace(p); p != "" {
						df.params = append(df.params, p)
					}
				}
				e, err := parseSpec(d[eq+3:])
				if err != nil {
					return err
				}
				df.body = e
				C.defines[strings.TrimSpace(d[:i])] = df
				continue
			}
			return fmt.Errorf("bad line %q", l)
		}
		var tags []string
		kw, rest := l, ""
		if m := rxTag.FindStringSubmatch(l); m != nil && (m[1] == "ensures" || m[1] == "requires" || m[1] == "tags") {
			kw, rest = m[1], m[3]
			for _, t := range strings.Split(m[2], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
		} else if i := strings.IndexAny(l, " \t"); i >= 0 {
			kw, rest = l[:i], strings.TrimSpace(l[i+1:])
		}
		if curG != nil {
			if kw == "invariant" {
				e, err := parseSpec(rest)
				if err != nil {
					return err
				}
				curG.inv = append(curG.inv, &Clause{Src: rest, Expr: e})
				continue
			}
			return fmt.Errorf("bad guard line %q", l)
		}
		if cur == nil {
			return fmt.Errorf("clause outside a contract: %q", l)
		}
		switch kw {
		case "ensures", "requires":
			e, err := parseSpec(rest)
			if err != nil {
				return err
			}
			cl := &Clause{Src: rest, Expr: e, Tags: tags}
			if kw == "ensures" {
				cur.Ensures = append(cur.Ensures, cl)
			} else {
				cur.Requires = append(cur.Requires, cl)
			}
		case "modifies":
			for _, p := range splitTop(rest) {
				q := p
				if strings.HasSuffix(q, "[*]") {
					q = "rows(" + strings.TrimSuffix(q, "[*]") + ")"
				} else if strings.HasSuffix(q, ".*") {
					q = "allof(" + strings.TrimSuffix(q, ".*") + ")"
				}
				e, err := parseSpec(q)
				if err != nil {
					return err
				}
				cur.Modifies = append(cur.Modifies, &Clause{Src: p, Expr: e})
			}
		case "nonnil":
			for _, p := range strings.Fields(rest) {
				e, _ := parseSpec(p + " != nil")
				cur.Requires = append(cur.Requires, &Clause{Src: p + " != nil", Expr: e, Tags: []string{"C01"}})
			}
		case "unroll":
			n, err := strconv.Atoi(rest)
			if err != nil {
				return err
			}
			cur.Unroll = n
		case "unrollall":
			cur.UnrollAll = true
		case "inline":
			cur.Inline = true
		case "overflow":
			cur.Overflow = true
		case "noreturn":
			cur.NoReturn = true
		case "trusted":
			cur.Trusted, cur.Why = true, rest
		case "tags":
			cur.ExtraTags = append(cur.ExtraTags, tags...)
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "fresh", "freshornil":
			ns := strings.Fields(rest)
			if len(ns) == 0 {
				ns = []string{"0"}
			}
			for _, f := range ns {
				n, err := strconv.Atoi(f)
				if err != nil {
					return err
				}
				cur.Fresh = append(cur.Fresh, n)
				if kw == "freshornil" {
					cur.MaybeNil[n] = true
				}
			}
		case "invariant":
			e, err := parseSpec(rest)
			if err != nil {
				return err
			}
			t := &LoopTemplate{Src: rest, Expr: e}
			seen := map[string]bool{}
			for _, m := range rxHole.FindAllStringSubmatch(rest, -1) {
				n := "HOLE_" + m[1] + "_" + m[2]
				if !seen[n] {
					seen[n] = true
					t.Holes = append(t.Holes, hole{n, m[1]})
				}
			}
			cur.Templates = append(cur.Templates, t)
		default:
			return fmt.Errorf("unknown clause %q", l)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, strings.TrimSpace(s[st:]))
	}
	return out
}

func (c *Contract) bindParams(env *SpecEnv, f *ssa.Function, args []Val) {
	for i, a := range args {
		if f != nil && i < len(f.Params) {
			a.T = f.Params[i].Type()
			if n := f.Params[i].Name(); n != "" && n != "_" {
				if _, ok := env.names[n]; !ok && len(c.Params) == 0 {
					env.names[n] = a
				}
			}
		}
		if i < len(c.Params) {
			env.names[c.Params[i]] = a
		}
	}
	if f != nil {
		env.pkg = f.Pkg
		if f.Pkg == nil && f.Parent() != nil {
			env.pkg = f.Parent().Pkg
		}
	}
}

// ---- evaluation ----

type SpecEnv struct {
	x     *Exec
	c     *Contract
	names map[string]Val
	st    *State
	old   *State
	pc    *Term
	pos   bool
	pkg   *ssa.Package
	res   *Val
}

func (e *SpecEnv) setResult(v Val) { e.res = &v }

func (e *SpecEnv) with(n string, v Val) *SpecEnv {
	c := *e
	c.names = make(map[string]Val, len(e.names)+1)
	for k, w := range e.names {
		c.names[k] = w
	}
	c.names[n] = v
	return &c
}

func (x *Exec) evalBool(env *SpecEnv, cl *Clause) *Term {
	v := env.eval(cl.Expr)
	t := v.t1()
	if t.sort != SBool {
		x.fail("clause is not boolean: %s", cl.Src)
	}
	return t
}

func (e *SpecEnv) fail(f string, a ...any) {
	n := ""
	if e.c != nil {
		n = e.c.Name
	}
	e.x.fail("spec of %s: %s", n, fmt.Sprintf(f, a...))
}

func (e *SpecEnv) term(n ast.Expr) *Term {
	v := e.eval(n)
	if v.A != nil {
		return e.x.encodeAddr(v)
	}
	if v.bad != "" {
		e.fail("%s", v.bad)
	}
	if isSlice(v.T) || isTime(v.T) {
		e.fail("scalar expected: %v", v.T)
	}
	return v.t1()
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (e *SpecEnv) pkgNamed(name string) *types.Package {
	for _, p := range e.x.prog.AllPackages() {
		if p.Pkg.Name() == name && (isRepoPkg(p.Pkg.Path()) || p.Pkg.Path() == name || strings.HasSuffix(p.Pkg.Path(), "/"+name)) {
			if isRepoPkg(p.Pkg.Path()) || p.Pkg.Path() == name {
				return p.Pkg
			}
		}
	}
	return nil
}

func (e *SpecEnv) object(p *types.Package, name string) (Val, bool) {
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		v := constant.ToInt(o.Val())
		switch {
		case o.Val().Kind() == constant.String:
			return mkVal(strT, S(constant.StringVal(o.Val()))), true
		case o.Val().Kind() == constant.Bool:
			return mkVal(boolT, B(constant.BoolVal(o.Val()))), true
		case v.Kind() == constant.Int:
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return mkVal(o.Type(), IB(n)), true
		}
	case *types.Var:
		sp := e.x.prog.Package(p)
		if sp == nil {
			return Val{}, false
		}
		if g, ok := sp.Members[name].(*ssa.Global); ok {
			if v, ok := e.x.globalVal(g); ok {
				return v, true
			}
			return e.x.load(e.st, &Addr{T: elemType(g.Type()), ref: I(globalRef(g))}, elemType(g.Type())), true
		}
	}
	return Val{}, false
}

func (e *SpecEnv) eval(n ast.Expr) Val {
	x := e.x
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(strings.ReplaceAll(n.Value, "_", ""), 0)
			if !ok {
				e.fail("int %s", n.Value)
			}
			return mkVal(intT, IB(b))
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				e.fail("string %s", n.Value)
			}
			return mkVal(strT, S(s))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
			if err != nil {
				e.fail("char %s", n.Value)
			}
			return mkVal(intT, I(int64(r)))
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(n.Value)
			return mkVal(types.Typ[types.Float64], R(r))
		}
	case *ast.Ident:
		if v, ok := e.names[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return mkVal(boolT, True)
		case "false":
			return mkVal(boolT, False)
		case "nil":
			return Val{T: types.Typ[types.UntypedNil], L: []*Term{I(0)}}
		}
		if strings.HasPrefix(n.Name, "result") && e.res != nil {
			if n.Name == "result" {
				if e.res.Tup != nil {
					return e.res.Tup[0]
				}
				return *e.res
			}
			if k, err := strconv.Atoi(n.Name[6:]); err == nil {
				if e.res.Tup == nil && k == 0 {
					return *e.res
				}
				if k < len(e.res.Tup) {
					return e.res.Tup[k]
				}
			}
		}
		if e.pkg != nil {
			if v, ok := e.object(e.pkg.Pkg, n.Name); ok {
				return v
			}
		}
		if d, ok := x.C.defines[n.Name]; ok && len(d.params) == 0 {
			return e.eval(d.body)
		}
		e.fail("unknown name %s", n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := e.names[id.Name]; !bound && !strings.HasPrefix(id.Name, "result") {
				if p := e.pkgNamed(id.Name); p != nil {
					if v, ok := e.object(p, n.Sel.Name); ok {
						return v
					}
					e.fail("unknown %s.%s", id.Name, n.Sel.Name)
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.IndexExpr:
		b := e.eval(n.X)
		switch b.T.Underlying().(type) {
		case *types.Slice:
			return x.elem(e.st, b, e.term(n.Index))
		case *types.Map:
			v, _ := x.mapGet(e.st, b.T, b.t1(), e.term(n.Index))
			return v
		case *types.Basic:
			return mkVal(intT, x.strByte(b.t1(), e.term(n.Index)))
		}
		e.fail("index of %v", b.T)
	case *ast.SliceExpr:
		b := e.eval(n.X)
		lo := I(0)
		if n.Low != nil {
			lo = e.term(n.Low)
		}
		if isSlice(b.T) {
			hi := b.len()
			if n.High != nil {
				hi = e.term(n.High)
			}
			return mkVal(b.T, b.ref(), Add(b.off(), lo), Sub(hi, lo), Sub(b.cap(), lo))
		}
		hi := x.strLen(b.t1())
		if n.High != nil {
			hi = e.term(n.High)
		}
		return mkVal(strT, x.strSub(b.t1(), lo, hi))
	case *ast.StarExpr:
		b := e.eval(n.X)
		a := x.addrOf(e.st, b)
		return x.load(e.st, a, elemType(b.T))
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return mkVal(boolT, Not(e.term(n.X)))
		case token.SUB:
			v := e.eval(n.X)
			return mkVal(v.T, Neg(v.t1()))
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			return mkVal(boolT, And(e.term(n.X), e.term(n.Y)))
		case token.LOR:
			return mkVal(boolT, Or(e.term(n.X), e.term(n.Y)))
		}
		l, r := e.eval(n.X), e.eval(n.Y)
		switch n.Op {
		case token.EQL, token.NEQ:
			t := e.equal(l, r)
			if n.Op == token.NEQ {
				t = Not(t)
			}
			return mkVal(boolT, t)
		}
		a, b := l.t1(), r.t1()
		if a.sort == SReal && b.sort == SInt {
			b = ToReal(b)
		} else if b.sort == SReal && a.sort == SInt {
			a = ToReal(a)
		}
		ty := l.T
		switch n.Op {
		case token.LSS:
			return mkVal(boolT, Lt(a, b))
		case token.LEQ:
			return mkVal(boolT, Le(a, b))
		case token.GTR:
			return mkVal(boolT, Gt(a, b))
		case token.GEQ:
			return mkVal(boolT, Ge(a, b))
		case token.ADD:
			if isStringType(ty) {
				return mkVal(strT, x.strCat(a, b))
			}
			return mkVal(ty, Add(a, b))
		case token.SUB:
			return mkVal(ty, Sub(a, b))
		case token.MUL:
			return mkVal(ty, Mul(a, b))
		case token.QUO: // floor division in specifications
			if a.sort == SReal {
				return mkVal(ty, RDiv(a, b))
			}
			return mkVal(ty, Div(a, b))
		case token.REM: // Euclidean
			return mkVal(ty, Mod(a, b))
		}
	case *ast.CallExpr:
		return e.call(n)
	}
	e.fail("unsupported expression %T", n)
	return Val{}
}

func (e *SpecEnv) field(b Val, name string) Val {
	x := e.x
	t := b.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if isTime(p.Elem()) {
			return e.field(x.load(e.st, x.addrOf(e.st, b), p.Elem()), name)
		}
		st, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s of %v", name, t)
		}
		a := x.addrOf(e.st, b)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				fa := x.fieldAddr(a, p.Elem(), i)
				return x.load(e.st, fa, st.Field(i).Type())
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if es, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && !isMutex(st.Field(i).Type()) {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == name {
							fa := x.fieldAddr(x.fieldAddr(a, p.Elem(), i), st.Field(i).Type(), j)
							return x.load(e.st, fa, es.Field(j).Type())
						}
					}
				}
			}
		}
		e.fail("no field %s in %v", name, p.Elem())
	}
	if isTime(t) {
		ix := map[string]int{"Y": 0, "M": 1, "D": 2, "S": 3, "N": 4, "Loc": 5}
		if i, ok := ix[name]; ok {
			return mkVal(intT, b.L[i])
		}
		s := b.L[3]
		switch name {
		case "Hour":
			return mkVal(intT, Div(s, I(3600)))
		case "Minute":
			return mkVal(intT, Mod(Div(s, I(60)), I(60)))
		case "Second":
			return mkVal(intT, Mod(s, I(60)))
		}
		e.fail("time has no %s", name)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %v", name, t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			lo, hi := fieldRange(t, i)
			return Val{T: st.Field(i).Type(), L: b.L[lo:hi]}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if es, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == name {
						lo, hi := fieldRange(t, i)
						return e.field(Val{T: st.Field(i).Type(), L: b.L[lo:hi]}, name)
					}
				}
			}
		}
	}
	e.fail("no field %s in %v", name, t)
	return Val{}
}

func (e *SpecEnv) equal(l, r Val) *Term {
	if l.T == types.Typ[types.UntypedNil] {
		l, r = r, l
	}
	if r.T == types.Typ[types.UntypedNil] {
		if l.A != nil {
			return False
		}
		return Eq(l.L[0], I(0))
	}
	if l.A != nil || r.A != nil {
		return Eq(e.x.encodeAddr(l), e.x.encodeAddr(r))
	}
	if len(l.L) != len(r.L) {
		e.fail("comparison of %v and %v", l.T, r.T)
	}
	var ts []*Term
	for i := range l.L {
		a, b := l.L[i], r.L[i]
		if a.sort == SReal && b.sort == SInt {
			b = ToReal(b)
		} else if b.sort == SReal && a.sort == SInt {
			a = ToReal(a)
		}
		if a.sort != b.sort {
			e.fail("comparison of %v and %v", l.T, r.T)
		}
		ts = append(ts, Eq(a, b))
	}
	return And(ts...)
}

func (e *SpecEnv) timeArg(n ast.Expr) Val {
	v := e.eval(n)
	if !isTime(v.T) {
		e.fail("time expected, got %v", v.T)
	}
	return v
}

var boundSeq int

func (e *SpecEnv) call(n *ast.CallExpr) Val {
	x := e.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		e.fail("call of %T", n.Fun)
	}
	arg := func(i int) *Term { return e.term(n.Args[i]) }
	bv := func(t *Term) Val { return mkVal(boolT, t) }
	iv := func(t *Term) Val { return mkVal(intT, t) }
	sv := func(t *Term) Val { return mkVal(strT, t) }
	switch id.Name {
	case "len":
		v := e.eval(n.Args[0])
		switch v.T.Underlying().(type) {
		case *types.Slice:
			return iv(v.len())
		case *types.Map:
			return iv(x.mapLen(e.st, v.T, v.t1()))
		}
		return iv(x.strLen(v.t1()))
	case "cap":
		return iv(e.eval(n.Args[0]).cap())
	case "old":
		if e.old == nil {
			e.fail("old outside a postcondition")
		}
		c := *e
		c.st = e.old
		return c.eval(n.Args[0])
	case "imp":
		a := arg(0)
		if a == False {
			return bv(True)
		}
		return bv(Imp(a, arg(1)))
	case "iff":
		return bv(Iff(arg(0), arg(1)))
	case "ite":
		a, b := e.eval(n.Args[1]), e.eval(n.Args[2])
		c := arg(0)
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "forall", "exists":
		vn := n.Args[0].(*ast.Ident).Name
		if len(n.Args) == 2 {
			b := Bound("q", SInt)
			c := e.with(vn, mkVal(intT, b))
			t := c.term(n.Args[1])
			if id.Name == "forall" {
				return bv(indexForall(b, t))
			}
			return bv(Not(indexForall(b, Not(t))))
		}
		lo, hi := arg(1), arg(2)
		if lo.isInt() && hi.isInt() && hi.int64()-lo.int64() <= 64 {
			var ts []*Term
			for k := lo.int64(); k < hi.int64(); k++ {
				ts = append(ts, e.with(vn, mkVal(intT, I(k))).term(n.Args[3]))
			}
			if id.Name == "forall" {
				return bv(And(ts...))
			}
			return bv(Or(ts...))
		}
		b := Bound("q", SInt)
		t := e.with(vn, mkVal(intT, b)).term(n.Args[3])
		in := And(Ge(b, lo), Lt(b, hi))
		if id.Name == "forall" {
			return bv(indexForall(b, Imp(in, t)))
		}
		return bv(Not(indexForall(b, Not(And(in, t)))))
	case "forstr":
		vn := n.Args[0].(*ast.Ident).Name
		b := Bound("q", SInt)
		t := e.with(vn, mkVal(strT, b)).term(n.Args[1])
		return bv(Forall([]*Term{b}, t))
	case "let":
		vn := n.Args[0].(*ast.Ident).Name
		return e.with(vn, e.eval(n.Args[1])).eval(n.Args[2])
	case "has":
		m := e.eval(n.Args[0])
		_, ok := x.mapGet(e.st, m.T, m.t1(), arg(1))
		return bv(ok)
	case "fresh":
		v := e.eval(n.Args[0])
		return bv(Ge(v.L[0], I(1000000)))
	case "held":
		v := e.eval(n.Args[0])
		a := x.addrOf(e.st, v)
		k := objKey(a.T, a.path+".Mutex.lock")
		return bv(Eq(Select(e.st.get(k, arrOf(SInt)), a.ref), I(1)))
	case "unheld":
		v := e.eval(n.Args[0])
		a := x.addrOf(e.st, v)
		k := objKey(a.T, a.path+".Mutex.lock")
		return bv(Eq(Select(e.st.get(k, arrOf(SInt)), a.ref), I(0)))
	case "leap":
		return bv(leapT(arg(0)))
	case "dim":
		return iv(dimT(arg(0), arg(1)))
	case "daynum":
		return iv(x.dayNum(arg(0), arg(1), arg(2)))
	case "instant":
		return iv(x.instant(e.timeArg(n.Args[0])))
	case "iszero":
		return bv(x.isZeroTime(e.timeArg(n.Args[0])))
	case "before":
		return bv(x.timeLess(e.timeArg(n.Args[0]), e.timeArg(n.Args[1])))
	case "weekday":
		v := e.timeArg(n.Args[0])
		return iv(Mod(x.dayNum(v.L[0], v.L[1], v.L[2]), I(7)))
	case "samedate", "sameclock", "samewall", "samezone", "sametime":
		a, b := e.timeArg(n.Args[0]), e.timeArg(n.Args[1])
		lo, hi := 0, 6
		switch id.Name {
		case "samedate":
			hi = 3
		case "sameclock":
			lo, hi = 3, 5
		case "samewall":
			hi = 5
		case "samezone":
			lo = 5
		}
		var ts []*Term
		for i := lo; i < hi; i++ {
			ts = append(ts, Eq(a.L[i], b.L[i]))
		}
		return bv(And(ts...))
	case "zoff":
		return iv(x.zoff(e.timeArg(n.Args[0])))
	case "zname":
		return sv(x.zname(e.timeArg(n.Args[0])))
	case "zonesecs":
		return iv(App("zonesecs", SInt, arg(0)))
	case "zonename":
		return sv(App("zonename", SInt, arg(0)))
	case "fixedzone":
		return bv(App("fixedzone", SBool, arg(0)))
	case "lower", "upper", "trimspace":
		return sv(x.strMap(id.Name, arg(0)))
	case "contains", "hasprefix", "hassuffix":
		return bv(App(id.Name, SBool, arg(0), arg(1)))
	case "isdigit", "isletter", "isspace", "isnumber":
		return bv(App(id.Name, SBool, arg(0)))
	case "atoi":
		return iv(App("atoi", SInt, arg(0)))
	case "atoiok":
		return bv(App("atoiok", SBool, arg(0)))
	case "strless":
		return bv(x.strLess(arg(0), arg(1)))
	case "replaceall":
		return sv(App("replaceall", SInt, arg(0), arg(1), arg(2)))
	case "runecount":
		return iv(App("runecount", SInt, arg(0)))
	case "runeof":
		return iv(Select(App("runesof", arrOf(SInt), arg(0)), arg(1)))
	case "utf8ok":
		return bv(App("utf8ok", SBool, arg(0)))
	case "sumrunes": // total number of runes of the first n texts: sumrunes(tokens, "Text", n)
		v := e.eval(n.Args[0])
		l, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
		if l != "" {
			l = "." + l
		}
		k := elemKey(elemType(v.T), l)
		ok := false
		for _, lf := range layout(elemType(v.T)) {
			if lf.path == l {
				ok = true
			}
		}
		if !ok {
			e.fail("sumrunes")
		}
		return iv(App("foldrc", SInt, Select(e.st.get(k, arrOf(arrOf(SInt))), v.ref()), v.off(), arg(2)))
	case "runestr":
		return sv(App("runestr", SInt, arg(0)))
	case "runeat":
		r, _ := x.runeAt(arg(0), arg(1))
		return iv(r)
	case "runewidth":
		_, w := x.runeAt(arg(0), arg(1))
		return iv(w)
	case "fn", "fns", "fnb": // result of an opaque or external function
		l, err := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		if err != nil {
			e.fail("fn")
		}
		var ts []*Term
		for i := 1; i < len(n.Args); i++ {
			ts = append(ts, e.eval(n.Args[i]).L...)
		}
		switch id.Name {
		case "fnb":
			return bv(App(l, SBool, ts...))
		case "fns":
			return sv(App(l, SInt, ts...))
		}
		return iv(App(l, SInt, ts...))
	case "min":
		return iv(Ite(Le(arg(0), arg(1)), arg(0), arg(1)))
	case "max":
		return iv(Ite(Ge(arg(0), arg(1)), arg(0), arg(1)))
	case "abs":
		return iv(Ite(Ge(arg(0), I(0)), arg(0), Neg(arg(0))))
	case "real":
		return mkVal(types.Typ[types.Float64], ToReal(arg(0)))
	case "floor":
		return iv(Floor(arg(0)))
	case "trunc":
		a := arg(0)
		return iv(Ite(Ge(a, RI(0)), Floor(a), Neg(Floor(Neg2(a)))))
	case "samerow": // two slices with the same elements
		a, b := e.eval(n.Args[0]), e.eval(n.Args[1])
		return bv(e.sameRow(a, b, e.st, e.st))
	case "unchanged": // slice content is what it was on entry
		a := e.eval(n.Args[0])
		return bv(e.sameRow(a, a, e.st, e.old))
	case "rxmatch":
		return bv(App("rxmatch", SBool, arg(0), arg(1)))
	case "ref":
		return iv(e.eval(n.Args[0]).L[0])
	case "off":
		return iv(e.eval(n.Args[0]).off())
	case "indom":
		tab := arg(0)
		return bv(x.inTable(tab, arg(1)))
	}
	if d, ok := x.C.defines[id.Name]; ok {
		if len(d.params) != len(n.Args) {
			e.fail("arity of %s", id.Name)
		}
		c := *e
		c.names = map[string]Val{}
		for k, v := range e.names {
			c.names[k] = v
		}
		for i, p := range d.params {
			c.names[p] = e.eval(n.Args[i])
		}
		return c.eval(d.body)
	}
	e.fail("unknown function %s", id.Name)
	return Val{}
}

func Neg2(a *Term) *Term { return Mul(RI(-1), a) }

func (e *SpecEnv) sameRow(a, b Val, sa, sb *State) *Term {
	et := elemType(a.T)
	ts := []*Term{Eq(a.len(), b.len())}
	q := Bound("q", SInt)
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		ra := Select(sa.get(k, arrOf(arrOf(l.sort))), a.ref())
		rb := Select(sb.get(k, arrOf(arrOf(l.sort))), b.ref())
		if ra == rb && a.off() == b.off() {
			continue
		}
		ts = append(ts, Forall([]*Term{q}, Imp(And(Ge(q, I(0)), Lt(q, a.len())), Eq(Select(ra, Add(a.off(), q)), Select(rb, Add(b.off(), q))))))
	}
	return And(ts...)
}

// ---- locations ----

type Loc struct {
	key      string
	ref      *Term
	allowKey string
	sort     Sort
	leaf     Leaf
}

func (x *Exec) locsOf(env *SpecEnv, cl *Clause) []Loc {
	var out []Loc
	objLocs := func(a *Addr, t types.Type) {
		for _, l := range layout(t) {
			if a.elem {
				env.fail("modifies of an element")
			}
			out = append(out, Loc{key: objKey(a.T, a.path+l.path), ref: a.ref, allowKey: "F|" + typeKey(a.T) + "|" + a.path, sort: arrOf(l.sort), leaf: l})
		}
	}
	switch n := cl.Expr.(type) {
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident).Name
		v := env.eval(n.Args[0])
		switch id {
		case "rows":
			switch v.T.Underlying().(type) {
			case *types.Slice:
				et := elemType(v.T)
				for _, l := range layout(et) {
					out = append(out, Loc{key: elemKey(et, l.path), ref: v.ref(), allowKey: "E|" + typeKey(et), sort: arrOf(arrOf(l.sort)), leaf: l})
				}
			case *types.Map:
				dom, ln, vals, vk, _ := mapKeys(v.T)
				ak := strings.TrimSuffix(dom, "|dom")
				out = append(out, Loc{dom, v.t1(), ak, arrOf(arrOf(SBool)), Leaf{}}, Loc{ln, v.t1(), ak, arrOf(SInt), Leaf{role: "slice.len"}})
				for _, l := range vals {
					out = append(out, Loc{vk(l), v.t1(), ak, arrOf(arrOf(l.sort)), l})
				}
			default:
				env.fail("rows of %v", v.T)
			}
		case "allof":
			a := x.addrOf(env.st, v)
			st := a.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				objLocs(x.fieldAddr(a, a.T, i), st.Field(i).Type())
			}
		}
		return out
	case *ast.StarExpr:
		v := env.eval(n.X)
		a := x.addrOf(env.st, v)
		objLocs(a, elemType(v.T))
		return out
	case *ast.SelectorExpr:
		b := env.eval(n.X)
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			env.fail("modifies %s", cl.Src)
		}
		a := x.addrOf(env.st, b)
		st := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.Sel.Name {
				objLocs(x.fieldAddr(a, p.Elem(), i), st.Field(i).Type())
				return out
			}
		}
	}
	env.fail("modifies %s", cl.Src)
	return nil
}

// ---- guards ----

func (g *Guard) leaves(x *Exec) []Leaf {
	t := x.typeNamed(g.typ)
	if t == nil {
		return nil
	}
	st := t.Underlying().(*types.Struct)
	var out []Leaf
	for i := 0; i < st.NumFields(); i++ {
		for _, f := range g.fields {
			if st.Field(i).Name() == f {
				for _, l := range layout(st.Field(i).Type()) {
					l.path = "." + f + l.path
					out = append(out, l)
				}
			}
		}
	}
	return out
}

func (x *Exec) typeNamed(name string) types.Type {
	i := strings.Index(name, ".")
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Name() == name[:i] {
			if o := p.Pkg.Scope().Lookup(name[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// guardWF assumes the lock invariant after Lock.
func (x *Exec) guardWF(st *State, g *Guard, a *Addr) {
	t := x.typeNamed(g.typ)
	env := &SpecEnv{x: x, names: map[string]Val{"p": mkVal(types.NewPointer(t), a.ref)}, st: st, old: st}
	// map contents behind the guarded references may have changed as well
	stt := t.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		for _, f := range g.fields {
			if stt.Field(i).Name() != f {
				continue
			}
			v := x.load(st, x.fieldAddr(a, t, i), stt.Field(i).Type())
			for _, l := range layout(v.T) {
				_ = l
			}
			x.wf(v)
		}
	}
	for _, cl := range g.inv {
		x.fact(Imp(st.pc, x.evalBool(env, cl)))
	}
}

// ---- loop invariant templates ----

func (x *Exec) templateCands(fn *ssa.Function, st0, st *State, vars []loopVar, lp *Loop) []cand {
	var ts []*LoopTemplate
	add := func(c *Contract) {
		if c != nil {
			ts = append(ts, c.Templates...)
		}
	}
	if x.rootC != nil {
		add(x.rootC)
	}
	for _, f := range x.stack {
		if f != x.root {
			add(x.C.byName[funcKey(f)])
		}
	}
	if len(ts) == 0 {
		return nil
	}
	type bind struct {
		name string
		v    Val
	}
	pools := map[string][]bind{}
	addv := func(name string, v Val) {
		if v.bad != "" || v.T == nil || v.A != nil && false {
			return
		}
		k := ""
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			k = "s"
		case *types.Map:
			k = "m"
		case *types.Pointer:
			k = "p"
			_ = u
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				k = "str"
			case u.Info()&types.IsInteger != 0:
				k = "i"
			case u.Info()&types.IsBoolean != 0:
				k = "b"
			case u.Info()&types.IsFloat != 0:
				k = "r"
			}
		}
		if isTime(v.T) {
			k = "t"
		}
		if k == "" {
			return
		}
		for _, b := range pools[k] {
			if len(b.v.L) > 0 && len(v.L) > 0 && b.v.L[0] == v.L[0] && (k != "s" || b.v.L[2] == v.L[2]) {
				return
			}
		}
		if len(pools[k]) < 9 {
			pools[k] = append(pools[k], bind{name, v})
		}
	}
	if lp != nil {
		for _, ins := range lp.header.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			addv("phi:"+ph.Comment+ph.Name(), st.env[ph])
		}
	}
	// heap cells modified by the loop that form a value (captured variables)
	cells := map[string][]loopVar{}
	var order []string
	for _, v := range vars {
		if strings.HasPrefix(v.name, "cell") {
			if len(cells[v.grp]) == 0 {
				order = append(order, v.grp)
			}
			cells[v.grp] = append(cells[v.grp], v)
		}
	}
	for _, u := range x.usedInLoop(fn, lp, st) {
		addv(u.name, u.v)
	}
	for _, g := range order {
		vs := cells[g]
		// object key "cellN:F|<type>|" ; rebuild the value from the type
		i := strings.Index(g, ":")
		k := g[i+1:]
		parts := strings.SplitN(k, "|", 3)
		if len(parts) == 3 && parts[0] == "F" {
			if t := cellTypes[parts[1]]; t != nil {
				a := &Addr{T: t, ref: nil}
				_ = a
				_ = vs
			}
		}
	}
	if len(x.frames) > 0 && x.entryEnv != nil {
		for _, n := range sortedKeys(x.entryEnv) {
			addv("param:"+n, x.entryEnv[n])
		}
	}
	pcl := func(t *Term) bool { return t != nil }
	_ = pcl
	var out []cand
	env0 := &SpecEnv{x: x, c: x.rootC, names: map[string]Val{}, st: st, old: x.entry, pos: true}
	if x.rootC != nil && x.rootC.fn != nil {
		env0.pkg = x.rootC.fn.Pkg
	}
	for n, v := range x.entryEnv {
		env0.names[n] = v
	}
	for _, t := range ts {
		var rec func(i int, env *SpecEnv, key string, used map[string]bool)
		count := 0
		rec = func(i int, env *SpecEnv, key string, used map[string]bool) {
			if count > 250 {
				return
			}
			if i == len(t.Holes) {
				count++
				var r *Term
				func() {
					defer func() {
						if e := recover(); e != nil {
							if _, ok := e.(ExecError); !ok {
								panic(e)
							}
							if verbose {
								fmt.Fprintln(os.Stderr, "  template:", e)
							}
						}
					}()
					r = env.eval(t.Expr).t1()
				}()
				if r != nil {
					out = append(out, cand{key: "T:" + t.Src + " " + key, t: r})
				}
				return
			}
			h := t.Holes[i]
			for _, b := range pools[h.kind] {
				if used[b.name] {
					continue
				}
				used[b.name] = true
				rec(i+1, env.with(h.name, b.v), key+" "+h.name[5:]+"="+b.name, used)
				delete(used, b.name)
			}
		}
		rec(0, env0, "", map[string]bool{})
	}
	return out
}

var cellTypes = map[string]types.Type{}

// indexForall quantifies over b; when every array access through b has a
// symbolic offset the variable is shifted so that the access can be a trigger.
func indexForall(b, body *Term) *Term {
	plain := false
	var offs []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasBound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OSelect {
			ix := t.args[1]
			if ix == b {
				plain = true
			} else if ix.op == OAdd {
				hit, other := 0, true
				for _, a := range ix.args {
					if a == b {
						hit++
					} else if a.hasBound {
						other = false
					}
				}
				if hit == 1 && other {
					off := Sub(ix, b)
					dup := false
					for _, o := range offs {
						if o == off {
							dup = true
						}
					}
					if !dup {
						offs = append(offs, off)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if plain || len(offs) == 0 {
		return Forall([]*Term{b}, body)
	}
	// prefer the offset that has no literal part
	best := offs[0]
	for _, o := range offs {
		if o.op != OAdd && o.op != OInt {
			best = o
			break
		}
	}
	k := Bound("k", SInt)
	return Forall([]*Term{k}, subst(body, map[*Term]*Term{b: Sub(k, best)}))
}
