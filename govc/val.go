package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	path string
	sort Sort
	t    types.Type // basic type of the leaf (for well-formedness)
	role string     // "", "time.Y"..., "slice.len"...
}

type Val struct {
	T   types.Type
	L   []*Term
	A   *Addr // interior address (pointer values only)
	Tup []Val
	bad string // set when the value could not be represented
}

type Addr struct {
	elem bool
	T    types.Type // root object type (obj) or element type (elem)
	ref  *Term
	idx  *Term
	path string
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Val
	kind  string // model kind for library iterators
	data  []Val
}

var funcTab []*FuncVal
var funcIdx = map[string]int{}

const funcBase = 9000000

func regFunc(f *FuncVal) *Term {
	if f.fn != nil && len(f.binds) == 0 {
		k := f.fn.String()
		if i, ok := funcIdx[k]; ok {
			return I(int64(funcBase + i))
		}
		funcIdx[k] = len(funcTab)
	}
	funcTab = append(funcTab, f)
	return I(int64(funcBase + len(funcTab) - 1))
}
func lookupFunc(t *Term) *FuncVal {
	if t.isInt() {
		n := t.int64()
		if n >= funcBase && int(n-funcBase) < len(funcTab) {
			return funcTab[n-funcBase]
		}
	}
	return nil
}

var layoutCache = map[string][]Leaf{}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}
func isMutex(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}
func isExternalStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return !isRepoPkg(p) && !externalTransparent[p+"."+n.Obj().Name()]
}

// external structs whose exported fields are modelled
var externalTransparent = map[string]bool{
	"github.com/hablullah/go-hijri.UmmAlQuraDate": true,
	"github.com/jalaali/go-jalaali.Jalaali":        true,
}

const modPath = "github.com/markusmobius/go-dateparser"

func isRepoPkg(p string) bool {
	return p == modPath || len(p) > len(modPath) && p[:len(modPath)+1] == modPath+"/"
}

func layout(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := layoutCache[k]; ok {
		return l
	}
	l := layout0(t)
	layoutCache[k] = l
	return l
}

func layout0(t types.Type) []Leaf {
	if isTime(t) {
		return []Leaf{{".Y", SInt, t, "time.Y"}, {".M", SInt, t, "time.M"}, {".D", SInt, t, "time.D"}, {".S", SInt, t, "time.S"}, {".N", SInt, t, "time.N"}, {".loc", SInt, t, "time.loc"}}
	}
	if isMutex(t) {
		return []Leaf{{".lock", SInt, t, "mutex"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, ""}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, t, ""}}
		}
		return []Leaf{{"", SInt, t, ""}}
	case *types.Struct:
		if isExternalStruct(t) {
			return []Leaf{{".$", SInt, t, "opaque"}}
		}
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range layout(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.path, l.sort, l.t, l.role})
			}
		}
		return out
	case *types.Slice:
		return []Leaf{{".ref", SInt, t, "slice.ref"}, {".off", SInt, t, "slice.off"}, {".len", SInt, t, "slice.len"}, {".cap", SInt, t, "slice.cap"}}
	case *types.Array:
		return []Leaf{{".$arr", SInt, t, "arr"}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range layout(u.At(i).Type()) {
				out = append(out, Leaf{"#" + strconv.Itoa(i) + l.path, l.sort, l.t, l.role})
			}
		}
		return out
	}
	return []Leaf{{"", SInt, t, "ref"}}
}

func zeroLeaf(l Leaf) *Term {
	switch l.role {
	case "time.Y", "time.M", "time.D":
		return I(1)
	}
	switch l.sort {
	case SBool:
		return False
	case SReal:
		return RI(0)
	}
	if l.t != nil {
		if b, ok := l.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && l.role == "" {
			return S("")
		}
	}
	return I(0)
}

func zeroVal(t types.Type) Val {
	ls := layout(t)
	v := Val{T: t, L: make([]*Term, len(ls))}
	for i, l := range ls {
		v.L[i] = zeroLeaf(l)
	}
	return v
}

// fieldRange returns the leaf interval of field i of struct type t.
func fieldRange(t types.Type, i int) (int, int) {
	st := t.Underlying().(*types.Struct)
	n := 0
	for j := 0; j < i; j++ {
		n += len(layout(st.Field(j).Type()))
	}
	return n, n + len(layout(st.Field(i).Type()))
}

func mkVal(t types.Type, l ...*Term) Val { return Val{T: t, L: l} }

func (v Val) t1() *Term {
	if len(v.L) != 1 {
		panic(ExecError{fmt.Sprintf("value of %v has %d leaves", v.T, len(v.L))})
	}
	return v.L[0]
}

// slice accessors
func (v Val) ref() *Term { return v.L[0] }
func (v Val) off() *Term { return v.L[1] }
func (v Val) len() *Term { return v.L[2] }
func (v Val) cap() *Term { return v.L[3] }

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic("elemType " + t.String())
}

// ---- state ----

type State struct {
	pc   *Term
	heap map[string]*Term
	env  map[ssa.Value]Val
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heap: make(map[string]*Term, len(s.heap)), env: make(map[ssa.Value]Val, len(s.env))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

func (s *State) dead() bool { return s.pc == False }

func heapSort(key string) Sort {
	s, ok := heapSorts[key]
	if !ok {
		panic("heap sort unknown: " + key)
	}
	return s
}

var heapSorts = map[string]Sort{}

func (s *State) get(key string, srt Sort) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	if _, ok := heapSorts[key]; !ok {
		heapSorts[key] = srt
	}
	return Const("H0:"+key, srt, 0)
}
func (s *State) set(key string, t *Term) {
	if _, ok := heapSorts[key]; !ok {
		heapSorts[key] = t.sort
	}
	s.heap[key] = t
}

func mergeStates(in []*State) *State {
	var live []*State
	for _, s := range in {
		if s != nil && !s.dead() {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return nil
	}
	if len(live) == 1 {
		return live[0]
	}
	// common prefix
	common := map[*Term]bool{}
	for _, c := range conj(live[0].pc) {
		common[c] = true
	}
	for _, s := range live[1:] {
		have := map[*Term]bool{}
		for _, c := range conj(s.pc) {
			have[c] = true
		}
		for c := range common {
			if !have[c] {
				delete(common, c)
			}
		}
	}
	conds := make([]*Term, len(live))
	var pcs []*Term
	for i, s := range live {
		var rest []*Term
		for _, c := range conj(s.pc) {
			if !common[c] {
				rest = append(rest, c)
			}
		}
		conds[i] = And(rest...)
		pcs = append(pcs, s.pc)
	}
	out := &State{pc: Or(pcs...), heap: map[string]*Term{}, env: map[ssa.Value]Val{}}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.heap {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	last := len(live) - 1
	for _, k := range ks {
		t := live[last].get(k, heapSorts[k])
		for i := last - 1; i >= 0; i-- {
			t = mergeTerm(conds[i], live[i].get(k, heapSorts[k]), t)
		}
		out.heap[k] = t
	}
	vs := make([]ssa.Value, 0, len(live[last].env))
	for v := range live[last].env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		x := live[last].env[v]
		ok := true
		for i := 0; i < last; i++ {
			if _, has := live[i].env[v]; !has {
				ok = false
			}
		}
		if !ok {
			continue
		}
		r := x
		for i := last - 1; i >= 0; i-- {
			r = mergeVal(conds[i], live[i].env[v], r)
		}
		out.env[v] = r
	}
	return out
}

// mergeTerm merges arrays structurally so that select-over-store stays cheap.
func mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if isArr(a.sort) {
		// ite(c, store(x,i,v), store(x,i,w)) = store(x,i,ite(c,v,w))
		if a.op == OStore && b.op == OStore && a.args[1] == b.args[1] {
			return Store(mergeTerm(c, a.args[0], b.args[0]), a.args[1], mergeTerm(c, a.args[2], b.args[2]))
		}
		// store on one side only, common base: ite(c, store(x,i,v), x) = store(x,i,ite(c,v,x[i]))
		anc := commonBase(a, b)
		if anc != nil && a != anc {
			return Store(mergeTerm(c, a.args[0], b), a.args[1], mergeTerm(c, a.args[2], Select(b, a.args[1])))
		}
		if anc != nil && b != anc {
			return Store(mergeTerm(c, a, b.args[0]), b.args[1], mergeTerm(c, Select(a, b.args[1]), b.args[2]))
		}
	}
	return Ite(c, a, b)
}

// commonBase gives the highest array both store chains are built on.
func commonBase(a, b *Term) *Term {
	seen := map[*Term]bool{a: true}
	for a.op == OStore {
		a = a.args[0]
		seen[a] = true
	}
	for !seen[b] {
		if b.op != OStore {
			return nil
		}
		b = b.args[0]
	}
	return b
}

func mergeVal(c *Term, a, b Val) Val {
	if a.bad != "" {
		return a
	}
	if b.bad != "" {
		return b
	}
	if a.Tup != nil || b.Tup != nil {
		if len(a.Tup) != len(b.Tup) {
			return Val{T: a.T, bad: "tuple merge"}
		}
		r := Val{T: a.T, Tup: make([]Val, len(a.Tup))}
		for i := range a.Tup {
			r.Tup[i] = mergeVal(c, a.Tup[i], b.Tup[i])
		}
		return r
	}
	if a.A != nil || b.A != nil {
		if a.A != nil && b.A != nil && a.A.elem == b.A.elem && typeKey(a.A.T) == typeKey(b.A.T) && a.A.path == b.A.path {
			n := *a.A
			n.ref = Ite(c, a.A.ref, b.A.ref)
			if n.elem {
				n.idx = Ite(c, a.A.idx, b.A.idx)
			}
			return Val{T: a.T, A: &n}
		}
		return Val{T: a.T, bad: "merge of interior addresses"}
	}
	r := Val{T: a.T, L: make([]*Term, len(a.L))}
	for i := range a.L {
		r.L[i] = mergeTerm(c, a.L[i], b.L[i])
	}
	return r
}
