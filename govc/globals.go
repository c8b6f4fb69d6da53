package main

import (
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Package variables: the values their initialisers give them. The package
// init functions are straight-line code for literals; they are interpreted
// here on constants only, everything else stays unknown.

var globalIDs = map[*ssa.Global]int64{}
var staticSeq int64 = 1000

func newStatic() int64 { staticSeq++; return -staticSeq }

func globalRef(g *ssa.Global) int64 {
	if r, ok := globalIDs[g]; ok {
		return r
	}
	r := newStatic()
	globalIDs[g] = r
	return r
}

type staticMap struct {
	t    types.Type
	keys []*Term
	vals []Val
}

var staticMaps = map[int64]*staticMap{}
var staticRegex = map[int64]string{}
var staticCells = map[string]map[int64]*Term{}              // object leaves
var staticElems = map[string]map[int64]map[int64]*Term{}    // element leaves
var staticBadCells = map[int64]bool{}
var staticArrLen = map[int64]int64{}
var staticArrElem = map[int64]types.Type{}
var immutableGlobals = map[*ssa.Global]bool{}
var globalVals = map[*ssa.Global]Val{}

func staticMapOf(m *Term) *staticMap {
	if m.isInt() && m.n.IsInt64() {
		return staticMaps[m.int64()]
	}
	return nil
}

func (x *Exec) staticMapGet(st *State, t types.Type, mt *staticMap, m, k *Term) (Val, *Term) {
	et := elemType(t)
	if k.isLit() {
		for i, kk := range mt.keys {
			if kk == k {
				return mt.vals[i], True
			}
		}
		return zeroVal(et), False
	}
	if len(mt.keys) <= 40 {
		v := zeroVal(et)
		var ds []*Term
		for i := len(mt.keys) - 1; i >= 0; i-- {
			c := Eq(k, mt.keys[i])
			ds = append(ds, c)
			if mt.vals[i].bad != "" {
				return Val{T: et, bad: "static map value"}, Or(ds...)
			}
			v = mergeVal(c, mt.vals[i], v)
		}
		return v, Or(ds...)
	}
	// large table: unknown value, membership as a function of the key
	ok := App("inmap:"+m.String(), SBool, k)
	v := Val{T: et}
	for _, l := range layout(et) {
		t := App("mapval:"+m.String()+l.path, l.sort, k)
		v.L = append(v.L, Ite(ok, t, zeroLeaf(l)))
	}
	return v, ok
}

// scanGlobals finds the package variables that are only written by init.
func scanGlobals(prog *ssa.Program, pkgs []*ssa.Package, fns map[*ssa.Function]bool) {
	written := map[*ssa.Global]bool{}
	for f := range fns {
		if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := ins.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.FieldAddr, *ssa.IndexAddr:
						continue
					case *ssa.DebugRef:
						continue
					case *ssa.Store:
						if i.Addr == g {
							written[g] = true
						} else {
							written[g] = true
						}
					default:
						// the address escapes; the contents are under ownership control
						if pt, ok := g.Type().(*types.Pointer); ok {
							if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
								written[g] = true
							}
						}
					}
				}
			}
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !written[g] {
				immutableGlobals[g] = true
			}
		}
	}
	for _, p := range pkgs {
		if p.Pkg.Name() == "data" {
			continue
		}
		interpInit(p)
	}
}

type sval struct {
	v  Val
	a  *saddr
	ok bool
}
type saddr struct {
	g    *ssa.Global
	ref  int64
	elem bool
	idx  int64
	T    types.Type
	path string
}

func interpInit(p *ssa.Package) {
	f := p.Func("init")
	if f == nil || len(f.Blocks) == 0 {
		return
	}
	env := map[ssa.Value]sval{}
	var val func(v ssa.Value) sval
	val = func(v ssa.Value) sval {
		switch c := v.(type) {
		case *ssa.Const:
			var r sval
			func() {
				defer func() { recover() }()
				x := &Exec{}
				r = sval{v: x.constVal(c), ok: true}
			}()
			return r
		case *ssa.Function:
			return sval{v: mkVal(c.Type(), regFunc(&FuncVal{fn: c})), ok: true}
		case *ssa.Global:
			return sval{a: &saddr{g: c, ref: globalRef(c), T: elemType(c.Type())}, ok: true}
		}
		return env[v]
	}
	put := func(a *saddr, v Val) {
		ls := layout(v.T)
		if len(ls) != len(v.L) {
			return
		}
		for i, l := range ls {
			if a.elem {
				k := elemKey(a.T, a.path+l.path)
				if _, ok := heapSorts[k]; !ok {
					heapSorts[k] = arrOf(arrOf(l.sort))
				}
				if staticElems[k] == nil {
					staticElems[k] = map[int64]map[int64]*Term{}
				}
				if staticElems[k][a.ref] == nil {
					staticElems[k][a.ref] = map[int64]*Term{}
				}
				staticElems[k][a.ref][a.idx] = v.L[i]
			} else {
				k := objKey(a.T, a.path+l.path)
				if _, ok := heapSorts[k]; !ok {
					heapSorts[k] = arrOf(l.sort)
				}
				if staticCells[k] == nil {
					staticCells[k] = map[int64]*Term{}
				}
				staticCells[k][a.ref] = v.L[i]
			}
		}
		if a.g != nil && a.path == "" && !a.elem {
			globalVals[a.g] = v
		}
	}
	get := func(a *saddr, t types.Type) sval {
		ls := layout(t)
		v := Val{T: t}
		for _, l := range ls {
			var tm *Term
			if a.elem {
				tm = staticElems[elemKey(a.T, a.path+l.path)][a.ref][a.idx]
			} else {
				tm = staticCells[objKey(a.T, a.path+l.path)][a.ref]
			}
			if tm == nil {
				if a.g != nil {
					return sval{}
				}
				tm = zeroLeaf(l)
			}
			v.L = append(v.L, tm)
		}
		return sval{v: v, ok: true}
	}
	blocks := f.Blocks
	if len(blocks) > 1 { // skip the guard test
		blocks = blocks[1:]
	}
	for _, b := range blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Alloc:
				t := elemType(i.Type())
				r := newStatic()
				if at, ok := t.Underlying().(*types.Array); ok {
					staticArrLen[r] = at.Len()
					staticArrElem[r] = at.Elem()
					if at.Len() <= 700 {
						for k := int64(0); k < at.Len(); k++ {
							put(&saddr{ref: r, elem: true, idx: k, T: at.Elem()}, zeroVal(at.Elem()))
						}
					}
				} else {
					put(&saddr{ref: r, T: t}, zeroVal(t))
				}
				env[i] = sval{v: mkVal(i.Type(), I(r)), a: &saddr{ref: r, T: t}, ok: true}
			case *ssa.FieldAddr:
				a := val(i.X)
				pt := i.X.Type().Underlying().(*types.Pointer).Elem()
				ad := a.a
				if ad == nil && a.ok && a.v.L != nil && a.v.L[0].isInt() {
					ad = &saddr{ref: a.v.L[0].int64(), T: pt}
				}
				if ad == nil {
					continue
				}
				n := *ad
				n.g = nil
				n.path += "." + pt.Underlying().(*types.Struct).Field(i.Field).Name()
				env[i] = sval{a: &n, ok: true}
			case *ssa.IndexAddr:
				a := val(i.X)
				ix := val(i.Index)
				if !ix.ok || !ix.v.L[0].isInt() {
					continue
				}
				if a.a != nil && !a.a.elem && a.a.path == "" {
					if at, ok := a.a.T.Underlying().(*types.Array); ok {
						env[i] = sval{a: &saddr{ref: a.a.ref, elem: true, idx: ix.v.L[0].int64(), T: at.Elem()}, ok: true}
					}
				}
			case *ssa.Store:
				a, v := val(i.Addr), val(i.Val)
				if a.a == nil {
					continue
				}
				if !v.ok || v.v.L == nil {
					if v.a != nil && v.a.path == "" && !v.a.elem {
						v.v = mkVal(i.Val.Type(), I(v.a.ref))
					} else {
						if a.a.g != nil {
							delete(globalVals, a.a.g)
						} else {
							staticBadCells[a.a.ref] = true
						}
						continue
					}
				}
				v.v.T = elemType(i.Addr.Type())
				put(a.a, v.v)
			case *ssa.UnOp:
				if i.Op == token.MUL {
					a := val(i.X)
					if a.a != nil {
						if a.a.g != nil {
							if gv, ok := globalVals[a.a.g]; ok {
								env[i] = sval{v: gv, ok: true}
							} else if gv, ok := externalGlobal(a.a.g); ok {
								env[i] = sval{v: gv, ok: true}
							}
						} else {
							env[i] = get(a.a, i.Type())
						}
					}
				}
			case *ssa.Slice:
				a := val(i.X)
				if a.a != nil && !a.a.elem && a.a.path == "" && i.Low == nil && i.High == nil {
					if n, ok := staticArrLen[a.a.ref]; ok {
						env[i] = sval{v: mkVal(i.Type(), I(a.a.ref), I(0), I(n), I(n)), ok: true}
					}
				}
			case *ssa.MakeMap:
				r := newStatic()
				staticMaps[r] = &staticMap{t: i.Type()}
				env[i] = sval{v: mkVal(i.Type(), I(r)), ok: true}
			case *ssa.MapUpdate:
				m, k, v := val(i.Map), val(i.Key), val(i.Value)
				if m.ok && m.v.L != nil {
					sm := staticMaps[m.v.L[0].int64()]
					if sm == nil {
						continue
					}
					if !k.ok || k.v.L == nil || !k.v.L[0].isLit() {
						delete(staticMaps, m.v.L[0].int64())
						continue
					}
					vv := v.v
					if !v.ok || v.v.L == nil {
						vv = Val{T: elemType(sm.t), bad: "static"}
					}
					sm.keys = append(sm.keys, k.v.L[0])
					sm.vals = append(sm.vals, vv)
				}
			case *ssa.ChangeType:
				v := val(i.X)
				v.v.T = i.Type()
				env[i] = v
			case *ssa.MakeInterface:
				v := val(i.X)
				if v.ok && v.v.L != nil && len(v.v.L) == 1 {
					r := newStatic()
					nv := mkVal(i.Type(), I(r))
					dv := v.v
					dv.T = i.X.Type()
					ifaceVals[I(r)] = dv
					env[i] = sval{v: nv, ok: true}
				}
			case *ssa.Call:
				if c := i.Call.StaticCallee(); c != nil {
					k := funcKey(c)
					if strings.HasSuffix(c.String(), "unicode/rangetable.New") && len(i.Call.Args) == 1 {
						v := val(i.Call.Args[0])
						if v.ok && len(v.v.L) == 4 && v.v.L[0].isInt() && v.v.L[2].isInt() {
							et := elemType(i.Call.Args[0].Type())
							rows := staticElems[elemKey(et, "")][v.v.L[0].int64()]
							var rs []rune
							good := true
							for k := int64(0); k < v.v.L[2].int64(); k++ {
								if t := rows[k]; t != nil && t.isInt() {
									rs = append(rs, rune(t.int64()))
								} else {
									good = false
								}
							}
							if good {
								r := newStatic()
								rangeTables[r] = tableOf(rs)
								env[i] = sval{v: mkVal(i.Type(), I(r)), ok: true}
							}
						}
					}
					if (k == "regexp.MustCompile" || k == "regexp.MustCompile#std" || c.Name() == "MustCompile") && len(i.Call.Args) == 1 {
						v := val(i.Call.Args[0])
						r := newStatic()
						if v.ok && v.v.L[0].op == OStr {
							staticRegex[r] = v.v.L[0].name
						} else {
							staticRegex[r] = "?"
						}
						env[i] = sval{v: mkVal(i.Type(), I(r)), ok: true}
					}
				}
			case *ssa.Convert:
				v := val(i.X)
				if sl, ok := i.Type().Underlying().(*types.Slice); ok && isRuneType(sl.Elem()) && v.ok && len(v.v.L) == 1 && v.v.L[0].op == OStr {
					r := newStatic()
					rs := []rune(v.v.L[0].name)
					staticArrLen[r] = int64(len(rs))
					staticArrElem[r] = sl.Elem()
					for k, c := range rs {
						put(&saddr{ref: r, elem: true, idx: int64(k), T: sl.Elem()}, mkVal(sl.Elem(), I(int64(c))))
					}
					n := I(int64(len(rs)))
					env[i] = sval{v: mkVal(i.Type(), I(r), I(0), n, n), ok: true}
					continue
				}
				if v.ok && v.v.L != nil && len(v.v.L) == 1 && len(layout(i.Type())) == 1 && layout(i.Type())[0].sort == v.v.L[0].sort && v.v.L[0].isInt() {
					v.v.T = i.Type()
					env[i] = v
				}
			}
		}
	}
}

func externalGlobal(g *ssa.Global) (Val, bool) {
	if g.Pkg == nil {
		return Val{}, false
	}
	et := elemType(g.Type())
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "time.UTC":
		return mkVal(et, I(utcLoc)), true
	case "time.Local":
		return mkVal(et, I(localLoc)), true
	}
	if g.Pkg.Pkg.Path() == "unicode" {
		if t, ok := unicodeTables[g.Name()]; ok {
			r := globalRef(g)
			rangeTables[r] = t
			return mkVal(et, I(r)), true
		}
	}
	if !isRepoPkg(g.Pkg.Pkg.Path()) {
		// library variables are constants of the run
		ls := layout(et)
		v := Val{T: et}
		for _, l := range ls {
			v.L = append(v.L, Const("lib:"+g.Pkg.Pkg.Path()+"."+g.Name()+l.path, l.sort, 0))
		}
		return v, true
	}
	return Val{}, false
}

var unicodeTables = func() map[string]*unicode.RangeTable {
	m := map[string]*unicode.RangeTable{}
	for k, v := range unicode.Categories {
		m[k] = v
	}
	for k, v := range unicode.Scripts {
		m[k] = v
	}
	m["Digit"], m["Letter"], m["Number"], m["Punct"], m["Space"] = unicode.Digit, unicode.Letter, unicode.Number, unicode.Punct, unicode.Space
	return m
}()

func (x *Exec) globalVal(g *ssa.Global) (Val, bool) {
	if v, ok := externalGlobal(g); ok {
		return v, true
	}
	if !immutableGlobals[g] {
		return Val{}, false
	}
	v, ok := globalVals[g]
	if !ok {
		// an initialised constant of unknown value
		et := elemType(g.Type())
		ls := layout(et)
		v = Val{T: et}
		for _, l := range ls {
			if l.role == "arr" {
				return Val{}, false
			}
			v.L = append(v.L, Const("glob:"+shortName(g.String())+l.path, l.sort, 0))
		}
		x.wf(v)
		for i, l := range ls {
			if l.role == "ref" || l.role == "slice.ref" {
				x.fact(And(Lt(v.L[i], I(0)), Gt(v.L[i], I(-1000000))))
			}
		}
		return v, true
	}
	v.T = elemType(g.Type())
	x.staticRows(v)
	return v, true
}

// staticRows records the elements of a static slice as facts (needed for
// symbolic indexes).
func (x *Exec) staticRows(v Val) {
	if !isSlice(v.T) || !v.L[0].isInt() || !v.L[2].isInt() {
		return
	}
	if v.L[2].int64() > 128 {
		return
	}
	et := elemType(v.T)
	for _, l := range layout(et) {
		k := elemKey(et, l.path)
		rows := staticElems[k][v.L[0].int64()]
		for i := int64(0); i < v.L[2].int64(); i++ {
			if t := rows[i]; t != nil {
				row := Const("SR:"+k+":"+v.L[0].String(), arrOf(l.sort), 0)
				x.fact(Eq(mk(&Term{op: OSelect, sort: l.sort, args: []*Term{row, I(i)}}), t))
			}
		}
	}
}

// staticSelect resolves reads of static memory; called by Select.
func staticSelect(a, i *Term) *Term {
	if a.op != OConst {
		return nil
	}
	if strings.HasPrefix(a.name, "H0:") && i.isInt() && i.n.Sign() < 0 && i.n.IsInt64() {
		k := a.name[3:]
		r := i.int64()
		if staticBadCells[r] {
			return nil
		}
		if strings.HasPrefix(k, "F|") {
			return staticCells[k][r]
		}
		if strings.HasPrefix(k, "E|") {
			if _, ok := staticElems[k][r]; ok {
				return Const("SR:"+k+":"+i.String(), elemOf(a.sort), 0)
			}
		}
		return nil
	}
	if strings.HasPrefix(a.name, "SR:") && i.isInt() && i.n.IsInt64() {
		j := strings.LastIndex(a.name, ":")
		k := a.name[3:j]
		var r int64
		neg := false
		for _, c := range a.name[j+1:] {
			if c == '-' {
				neg = true
			} else if c >= '0' && c <= '9' {
				r = r*10 + int64(c-'0')
			}
		}
		if neg {
			r = -r
		}
		return staticElems[k][r][i.int64()]
	}
	return nil
}

// ---- regular expressions ----

type rxInfo struct {
	groups int
	ok     bool
	minLen int
	caps   []capInfo
	whole  capInfo
	begin  bool
}
type capInfo struct {
	mandatory bool // takes part in every match
	min, max  int  // length bounds in bytes (max<0: none)
	digits    bool
}

var rxCache = map[string]*rxInfo{}

func rxInfoOf(p string) *rxInfo {
	if r, ok := rxCache[p]; ok {
		return r
	}
	r := &rxInfo{}
	rxCache[p] = r
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return r
	}
	r.ok = true
	r.groups = re.MaxCap()
	r.caps = make([]capInfo, r.groups+1)
	r.whole.min, r.whole.max = rxLen(re)
	r.whole.digits = rxDigits(re)
	r.whole.mandatory = true
	r.caps[0] = r.whole
	var walk func(re *syntax.Regexp, must bool)
	walk = func(re *syntax.Regexp, must bool) {
		switch re.Op {
		case syntax.OpCapture:
			c := capInfo{mandatory: must}
			c.min, c.max = rxLen(re.Sub[0])
			c.digits = rxDigits(re.Sub[0])
			r.caps[re.Cap] = c
			walk(re.Sub[0], must)
		case syntax.OpStar, syntax.OpQuest:
			walk(re.Sub[0], false)
		case syntax.OpRepeat:
			walk(re.Sub[0], must && re.Min > 0)
		case syntax.OpAlternate:
			for _, s := range re.Sub {
				walk(s, false)
			}
		default:
			for _, s := range re.Sub {
				walk(s, must)
			}
		}
	}
	walk(re, true)
	return r
}

func rxLen(re *syntax.Regexp) (int, int) {
	add := func(a, b int) int {
		if a < 0 || b < 0 {
			return -1
		}
		return a + b
	}
	rl := func(c rune) int {
		switch {
		case c < 0x80:
			return 1
		case c < 0x800:
			return 2
		case c < 0x10000:
			return 3
		}
		return 4
	}
	switch re.Op {
	case syntax.OpEmptyMatch, syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary, syntax.OpNoWordBoundary:
		return 0, 0
	case syntax.OpLiteral:
		lo, hi := 0, 0
		for _, c := range re.Rune {
			a, b := rl(c), rl(c)
			if re.Flags&syntax.FoldCase != 0 {
				for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
					if rl(f) < a {
						a = rl(f)
					}
					if rl(f) > b {
						b = rl(f)
					}
				}
			}
			lo += a
			hi += b
		}
		return lo, hi
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return 1, 1
		}
		return rl(re.Rune[0]), rl(re.Rune[len(re.Rune)-1])
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1, 4
	case syntax.OpCapture:
		return rxLen(re.Sub[0])
	case syntax.OpStar:
		return 0, -1
	case syntax.OpPlus:
		a, _ := rxLen(re.Sub[0])
		return a, -1
	case syntax.OpQuest:
		_, b := rxLen(re.Sub[0])
		return 0, b
	case syntax.OpRepeat:
		a, b := rxLen(re.Sub[0])
		hi := -1
		if re.Max >= 0 && b >= 0 {
			hi = b * re.Max
		}
		return a * re.Min, hi
	case syntax.OpConcat:
		lo, hi := 0, 0
		for _, s := range re.Sub {
			a, b := rxLen(s)
			lo += a
			hi = add(hi, b)
		}
		return lo, hi
	case syntax.OpAlternate:
		lo, hi := -1, 0
		for _, s := range re.Sub {
			a, b := rxLen(s)
			if lo < 0 || a < lo {
				lo = a
			}
			if b < 0 || hi < 0 {
				hi = -1
			} else if b > hi {
				hi = b
			}
		}
		return lo, hi
	}
	return 0, -1
}

func rxDigits(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			if c < '0' || c > '9' {
				return false
			}
		}
		return true
	case syntax.OpCharClass:
		for i := 0; i < len(re.Rune); i += 2 {
			if re.Rune[i] < '0' || re.Rune[i+1] > '9' {
				return false
			}
		}
		return true
	case syntax.OpEmptyMatch, syntax.OpBeginLine, syntax.OpEndLine, syntax.OpBeginText, syntax.OpEndText, syntax.OpWordBoundary:
		return true
	case syntax.OpCapture, syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat, syntax.OpConcat, syntax.OpAlternate:
		for _, s := range re.Sub {
			if !rxDigits(s) {
				return false
			}
		}
		return true
	}
	return false
}

// rxKey: the term naming a compiled expression and what is known about it.
func (x *Exec) rx(v Val) (*Term, *rxInfo) {
	t := v.t1()
	if t.isInt() {
		if p, ok := staticRegex[t.int64()]; ok && p != "?" {
			return S("rx:" + p), rxInfoOf(p)
		}
	}
	if t.op == OApp && t.name == "rxcompile" && t.args[0].op == OStr {
		p := t.args[0].name
		return S("rx:" + p), rxInfoOf(p)
	}
	return t, &rxInfo{}
}

func (x *Exec) rxText(key *Term, info *rxInfo, s *Term, g int) *Term {
	t := App("rxgroup", SInt, key, s, I(int64(g)))
	x.strFacts(t)
	if g <= info.groups && info.ok {
		x.capFacts(t, info.caps[g], App("rxmatch", SBool, key, s))
	}
	return t
}

func (x *Exec) capFacts(t *Term, c capInfo, m *Term) {
	n := x.strLen(t)
	if c.mandatory {
		x.fact(Imp(m, Ge(n, I(int64(c.min)))))
		if c.max >= 0 {
			x.fact(Imp(m, Le(n, I(int64(c.max)))))
		}
	} else {
		x.fact(Imp(m, Or(Eq(n, I(0)), Ge(n, I(int64(c.min))))))
		if c.max >= 0 {
			x.fact(Imp(m, Le(n, I(int64(c.max)))))
		}
	}
	if c.digits {
		ok, val := App("atoiok", SBool, t), App("atoi", SInt, t)
		if c.max >= 0 && c.max <= 18 {
			p := int64(1)
			x.fact(Imp(And(m, Gt(n, I(0))), ok))
			for i := 1; i <= c.max; i++ {
				p *= 10
				if i >= c.min || i == c.max {
					x.fact(Imp(And(m, Le(n, I(int64(i)))), Lt(val, I(p))))
				}
			}
		}
		x.fact(Imp(m, Ge(val, I(0))))
	}
}

func regexModels(M map[string]modelFn) {
	reg := func(names []string, m modelFn) {
		for _, n := range names {
			M["(*regexp.Regexp)."+n] = m
		}
	}
	M["regexp.MustCompile"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := App("rxcompile", SInt, a[0].t1())
		x.note("regexp.MustCompile is called with patterns that compile")
		x.fact(And(Lt(t, I(0)), Gt(t, I(-1000000))))
		return mkVal(typ, t)
	}
	M["regexp.QuoteMeta"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return x.opaqueResult("regexp.QuoteMeta", typ, a)
	}
	recv := func(x *Exec, st *State, v Val, pos token.Pos) {
		x.nilCheck(st, v, pos, "regexp")
	}
	reg([]string{"MatchString"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		m := App("rxmatch", SBool, k, a[1].t1())
		if info.ok {
			x.fact(Imp(m, Ge(x.strLen(a[1].t1()), I(int64(info.whole.min)))))
		}
		return mkVal(typ, m)
	})
	reg([]string{"FindString"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		s := a[1].t1()
		m := App("rxmatch", SBool, k, s)
		t := x.rxText(k, info, s, 0)
		x.fact(Le(x.strLen(t), x.strLen(s)))
		return mkVal(typ, Ite(m, t, S("")))
	})
	reg([]string{"FindStringSubmatch"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		s := a[1].t1()
		m := App("rxmatch", SBool, k, s)
		if !info.ok {
			n := App("rxgroups", SInt, k)
			x.fact(Ge(n, I(1)))
			v := x.freshSlice(st, typ, Ite(m, n, I(0)))
			v.L[0] = Ite(m, v.L[0], I(0))
			return v
		}
		var es []Val
		for g := 0; g <= info.groups; g++ {
			es = append(es, mkVal(strT, x.rxText(k, info, s, g)))
		}
		x.fact(Le(x.strLen(es[0].t1()), x.strLen(s)))
		v := x.sliceLit(st, typ, es)
		n := v.L[2]
		return mkVal(typ, Ite(m, v.L[0], I(0)), I(0), Ite(m, n, I(0)), Ite(m, n, I(0)))
	})
	reg([]string{"FindStringSubmatchIndex", "FindStringIndex"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		s := a[1].t1()
		m := App("rxmatch", SBool, k, s)
		gs := info.groups
		if f.Name() == "FindStringIndex" {
			gs = 0
		} else if !info.ok {
			n := App("rxgroups", SInt, k)
			x.fact(Ge(n, I(1)))
			v := x.freshSlice(st, typ, Ite(m, Mul(I(2), n), I(0)))
			v.L[0] = Ite(m, v.L[0], I(0))
			return v
		}
		var es []Val
		for g := 0; g <= gs; g++ {
			lo, hi := App("rxlo", SInt, k, s, I(int64(g))), App("rxhi", SInt, k, s, I(int64(g)))
			c := capInfo{mandatory: g == 0, max: -1}
			if info.ok {
				c = info.caps[g]
			}
			in := And(Ge(lo, I(0)), Le(lo, hi), Le(hi, x.strLen(s)), Ge(Sub(hi, lo), I(int64(c.min))))
			if c.max >= 0 {
				in = And(in, Le(Sub(hi, lo), I(int64(c.max))))
			}
			if !c.mandatory {
				in = Or(in, And(Eq(lo, I(-1)), Eq(hi, I(-1))))
			}
			x.fact(Imp(m, in))
			if g > 0 {
				l0, h0 := App("rxlo", SInt, k, s, I(0)), App("rxhi", SInt, k, s, I(0))
				x.fact(Imp(And(m, Ge(lo, I(0))), And(Le(l0, lo), Le(hi, h0))))
			}
			t := x.rxText(k, info, s, g)
			x.fact(Imp(And(m, Ge(lo, I(0))), Eq(t, x.strSub(s, lo, hi))))
			es = append(es, mkVal(intT, lo), mkVal(intT, hi))
		}
		v := x.sliceLit(st, typ, es)
		n := v.L[2]
		return mkVal(typ, Ite(m, v.L[0], I(0)), I(0), Ite(m, n, I(0)), Ite(m, n, I(0)))
	})
	// all matches: a fresh slice of fresh rows of known width
	reg([]string{"FindAllStringSubmatch", "FindAllStringSubmatchIndex", "FindAllStringIndex"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		s := a[1].t1()
		m := App("rxmatch", SBool, k, s)
		n := x.fresh("nmatch", SInt)
		x.fact(And(Ge(n, I(0)), Iff(m, Ge(n, I(1))), Le(n, Add(x.strLen(s), I(1)))))
		et := elemType(typ)  // []string or []int
		it := elemType(et)   // string or int
		before := x.newRef()
		v := x.freshSlice(st, typ, n)
		v.L[0] = Ite(m, v.L[0], I(0))
		width := I(int64(info.groups + 1))
		if !info.ok {
			width = App("rxgroups", SInt, k)
			x.fact(Ge(width, I(1)))
		}
		if f.Name() == "FindAllStringIndex" {
			width = I(1)
		}
		isIdx := f.Name() != "FindAllStringSubmatch"
		if isIdx {
			width = Mul(I(2), width)
		}
		b := Bound("k", SInt)
		leaf := func(p string) *Term {
			key := elemKey(et, p)
			row := Select(st.get(key, arrOf(arrOf(SInt))), Select1(v.L[0]))
			return mk(&Term{op: OSelect, sort: SInt, args: []*Term{row, b}})
		}
		in := And(Ge(b, I(0)), Lt(b, n))
		last := x.newRef()
		ref := leaf(".ref")
		x.fact(Forall([]*Term{b}, Imp(in, And(Gt(ref, before), Lt(ref, last))), ref))
		x.fact(Forall([]*Term{b}, Imp(in, Eq(leaf(".off"), I(0))), leaf(".off")))
		x.fact(Forall([]*Term{b}, Imp(in, Eq(leaf(".len"), width)), leaf(".len")))
		x.fact(Forall([]*Term{b}, Imp(in, Eq(leaf(".cap"), width)), leaf(".cap")))
		// rows hold bounded content
		ik := elemKey(it, "")
		H := st.get(ik, arrOf(arrOf(SInt)))
		c := x.fresh("rows:"+ik, arrOf(arrOf(SInt)))
		r := Bound("r", SInt)
		selR := mk(&Term{op: OSelect, sort: arrOf(SInt), args: []*Term{c, r}})
		x.fact(Forall([]*Term{r}, Imp(Or(Le(r, before), Ge(r, last)), Eq(selR, Select(H, r))), selR))
		c.fr = &frameInfo{base: H, seq: before.seq + 1}
		st.set(ik, c)
		if isIdx {
			cell := func(j *Term) *Term {
				return mk(&Term{op: OSelect, sort: SInt, args: []*Term{mk(&Term{op: OSelect, sort: arrOf(SInt), args: []*Term{c, ref}}), j}})
			}
			gs := info.groups
			if !info.ok || f.Name() == "FindAllStringIndex" {
				gs = 0
			}
			for g := 0; g <= gs; g++ {
				lo, hi := cell(I(int64(2*g))), cell(I(int64(2*g+1)))
				ci := capInfo{mandatory: g == 0, max: -1}
				if info.ok {
					ci = info.caps[g]
				}
				rng := And(Ge(lo, I(0)), Le(lo, hi), Le(hi, x.strLen(s)), Ge(Sub(hi, lo), I(int64(ci.min))))
				if !ci.mandatory {
					rng = Or(rng, And(Eq(lo, I(-1)), Eq(hi, I(-1))))
				}
				x.fact(Forall([]*Term{b}, Imp(in, rng), ref))
			}
		} else {
			j := Bound("j", SInt)
			cell := mk(&Term{op: OSelect, sort: SInt, args: []*Term{mk(&Term{op: OSelect, sort: arrOf(SInt), args: []*Term{c, r}}), j}})
			x.fact(Forall([]*Term{r, j}, Imp(And(Gt(r, before), Lt(r, last)), Ge(cell, I(strBase))), cell))
		}
		return v
	})
	reg([]string{"ReplaceAllString"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, _ := x.rx(a[0])
		t := App("rxreplace", SInt, k, a[1].t1(), a[2].t1())
		x.strFacts(t)
		x.fact(Imp(Not(App("rxmatch", SBool, k, a[1].t1())), Eq(t, a[1].t1())))
		return mkVal(typ, t)
	})
	reg([]string{"ReplaceAllStringFunc"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		k, info := x.rx(a[0])
		// the callback runs on an arbitrary match
		s2 := st.clone()
		b := x.fresh("domatch", SBool)
		s2.pc = And(st.pc, b)
		mt := x.fresh("match", SInt)
		x.strFacts(mt)
		if info.ok {
			x.capFacts(mt, info.whole, True)
		}
		x.callVal(s2, a[2], "", []Val{mkVal(strT, mt)}, strT, pos)
		t := x.fresh("rxreplacefunc", SInt)
		x.strFacts(t)
		x.fact(Imp(Not(App("rxmatch", SBool, k, a[1].t1())), Eq(t, a[1].t1())))
		return mkVal(typ, t)
	})
	reg([]string{"Split"}, func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		recv(x, st, a[0], pos)
		n := x.fresh("rxsplit.len", SInt)
		x.fact(Ge(n, I(0)))
		x.fact(Imp(Lt(a[2].t1(), I(0)), Ge(n, I(1))))
		return x.freshSlice(st, typ, n)
	})
}

func Select1(t *Term) *Term {
	if t.op == OIte {
		return Select1(t.args[1])
	}
	return t
}

// tableOf is the range table of a list of runes.
func tableOf(rs []rune) *unicode.RangeTable {
	rs = append([]rune{}, rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	t := &unicode.RangeTable{}
	for i := 0; i < len(rs); {
		j := i
		for j+1 < len(rs) && rs[j+1] <= rs[j]+1 {
			j++
		}
		if rs[j] <= 0xFFFF {
			t.R16 = append(t.R16, unicode.Range16{Lo: uint16(rs[i]), Hi: uint16(rs[j]), Stride: 1})
			if rs[j] <= unicode.MaxLatin1 {
				t.LatinOffset++
			}
		} else {
			t.R32 = append(t.R32, unicode.Range32{Lo: uint32(rs[i]), Hi: uint32(rs[j]), Stride: 1})
		}
		i = j + 1
	}
	return t
}
