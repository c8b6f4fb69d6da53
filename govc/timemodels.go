package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func timeT(x *Exec) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "time" {
			return p.Pkg.Scope().Lookup("Time").Type()
		}
	}
	return nil
}

func timeModels(M map[string]modelFn) {
	get := func(name string, g func(x *Exec, v Val) *Term) {
		M["(time.Time)."+name] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			return mkVal(typ, g(x, a[0]))
		}
	}
	get("Year", func(x *Exec, v Val) *Term { return v.L[0] })
	get("Month", func(x *Exec, v Val) *Term { return v.L[1] })
	get("Day", func(x *Exec, v Val) *Term { return v.L[2] })
	get("Hour", func(x *Exec, v Val) *Term { return Div(v.L[3], I(3600)) })
	get("Minute", func(x *Exec, v Val) *Term { return Mod(Div(v.L[3], I(60)), I(60)) })
	get("Second", func(x *Exec, v Val) *Term { return Mod(v.L[3], I(60)) })
	get("Nanosecond", func(x *Exec, v Val) *Term { return v.L[4] })
	get("Weekday", func(x *Exec, v Val) *Term { return Mod(x.dayNum(v.L[0], v.L[1], v.L[2]), I(7)) })
	get("IsZero", func(x *Exec, v Val) *Term { return x.isZeroTime(v) })
	get("Location", func(x *Exec, v Val) *Term { return Ite(Eq(v.L[5], I(0)), I(utcLoc), v.L[5]) })
	get("Unix", func(x *Exec, v Val) *Term { return Sub(x.instant(v), I(86400*unixEpochDay)) })
	M["(time.Time).Zone"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return tup(typ, mkVal(strT, x.zname(a[0])), mkVal(intT, x.zoff(a[0])))
	}
	M["(time.Time).Date"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return tup(typ, mkVal(intT, a[0].L[0]), mkVal(intT, a[0].L[1]), mkVal(intT, a[0].L[2]))
	}
	M["(time.Time).Clock"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		s := a[0].L[3]
		return tup(typ, mkVal(intT, Div(s, I(3600))), mkVal(intT, Mod(Div(s, I(60)), I(60))), mkVal(intT, Mod(s, I(60))))
	}
	M["(time.Time).Before"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, x.timeLess(a[0], a[1]))
	}
	M["(time.Time).After"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return mkVal(typ, x.timeLess(a[1], a[0]))
	}
	M["(time.Time).Equal"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		if a[0].L[5] == a[1].L[5] {
			var ts []*Term
			for i := 0; i < 5; i++ {
				ts = append(ts, Eq(a[0].L[i], a[1].L[i]))
			}
			return mkVal(typ, And(ts...))
		}
		return mkVal(typ, And(Eq(x.instant(a[0]), x.instant(a[1])), Eq(a[0].L[4], a[1].L[4])))
	}
	M["(time.Time).Format"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := App("timeformat", SInt, append([]*Term{a[1].t1()}, a[0].L...)...)
		x.strFacts(t)
		return mkVal(typ, t)
	}
	M["(time.Time).In"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		l := a[1].t1()
		x.oblige("safety", "time.Time.In: location is not nil", []string{"C01"}, pos, st, Not(Eq(l, I(0))))
		r := x.inLoc(a[0], normLoc(l))
		r.T = typ
		return r
	}
	M["(time.Time).UTC"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		r := x.inLoc(a[0], I(0))
		r.T = typ
		return r
	}
	M["(time.Time).Local"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		r := x.inLoc(a[0], I(localLoc))
		r.T = typ
		return r
	}
	M["(time.Time).AddDate"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := a[0]
		return x.mkDate(Add(t.L[0], a[1].t1()), Add(t.L[1], a[2].t1()), Add(t.L[2], a[3].t1()), t.L[3], t.L[4], t.L[5], typ)
	}
	M["(time.Time).Add"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		t := a[0]
		x.note("a time.Location keeps one UTC offset over the span of one call (no daylight-saving jump between the reference time and the result)")
		d := a[1].t1()
		if d.isInt() && d.int64()%1000000000 == 0 {
			return x.mkDate(t.L[0], t.L[1], t.L[2], Add(t.L[3], I(d.int64()/1000000000)), t.L[4], t.L[5], typ)
		}
		return x.mkDate(t.L[0], t.L[1], t.L[2], t.L[3], Add(t.L[4], d), t.L[5], typ)
	}
	M["(time.Time).Truncate"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		return x.opaqueResult("time.Truncate", typ, a)
	}
	M["time.Date"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		l := a[7].t1()
		x.oblige("safety", "time.Date: location is not nil", []string{"C01"}, pos, st, Not(Eq(l, I(0))))
		x.note("time.Date keeps the wall clock it is given (a wall clock inside a daylight-saving gap is shifted by the library)")
		return x.mkDate(a[0].t1(), a[1].t1(), a[2].t1(), hms(a[3].t1(), a[4].t1(), a[5].t1()), a[6].t1(), normLoc(l), typ)
	}
	M["time.FixedZone"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		l := App("fixedloc", SInt, a[0].t1(), a[1].t1())
		if !l.hasBound {
			x.fact(Gt(l, I(2000000)))
			x.fact(App("fixedzone", SBool, l))
			x.fact(Eq(App("zonesecs", SInt, l), a[1].t1()))
			x.fact(Eq(App("zonename", SInt, l), a[0].t1()))
		}
		return mkVal(typ, l)
	}
	M["time.LoadLocation"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		l := App("loadloc", SInt, a[0].t1())
		ok := App("loadlocok", SBool, a[0].t1())
		x.fact(Or(Gt(l, I(2000000)), Eq(l, I(utcLoc))))
		e := x.newErr(st)
		return tup(typ, mkVal(intT, Ite(ok, l, I(0))), mkVal(intT, Ite(ok, I(0), e.t1())))
	}
	M["time.Now"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		v := x.freshVal("now", typ)
		v.L[5] = I(localLoc)
		x.fact(Ge(v.L[0], I(1970)))
		x.fact(Le(v.L[0], I(9999)))
		x.note("the system clock shows a year between 1970 and 9999")
		return v
	}
	M["time.Unix"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		sec, ns := a[0].t1(), a[1].t1()
		v := x.freshVal("unix", typ)
		v.L[5] = I(localLoc)
		tot := sec
		n := ns
		if !within(ns, 0, 999999999) {
			tot = Add(sec, Div(ns, I(1000000000)))
			n = Mod(ns, I(1000000000))
		}
		v.L[4] = n
		x.fact(Eq(x.instant(v), Add(tot, I(86400*unixEpochDay))))
		return v
	}
	parse := func(withLoc bool) modelFn {
		return func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
			lay, s := a[0].t1(), a[1].t1()
			tt := typ.(*types.Tuple).At(0).Type()
			ok := App("timeparse.ok", SBool, lay, s)
			v := Val{T: tt}
			def := []*Term{I(0), I(1), I(1), I(0), I(0), I(0)}
			names := []string{"Y", "M", "D", "S", "N"}
			lit := ""
			if lay.op == OStr {
				lit = lay.name
			}
			for i, n := range names {
				if lay.op == OStr && !layoutHas(lit, n) {
					v.L = append(v.L, def[i])
					continue
				}
				v.L = append(v.L, App("timeparse."+n, SInt, lay, s))
			}
			loc := I(0)
			if withLoc {
				x.oblige("safety", "time.ParseInLocation: location is not nil", []string{"C01"}, pos, st, Not(Eq(a[2].t1(), I(0))))
				loc = normLoc(a[2].t1())
			}
			if lay.op != OStr || strings.Contains(lit, "MST") || strings.Contains(lit, "Z07") || strings.Contains(lit, "-07") {
				loc = Ite(App("timeparse.haszone", SBool, lay, s), App("timeparse.loc", SInt, lay, s), loc)
			}
			v.L = append(v.L, loc)
			x.fact(Imp(ok, timeWF(v.L[0], v.L[1], v.L[2], v.L[3], v.L[4])))
			x.fact(Imp(ok, And(Ge(v.L[0], I(0)), Le(v.L[0], I(9999)))))
			z := zeroVal(tt)
			for i := range v.L {
				v.L[i] = Ite(ok, v.L[i], z.L[i])
			}
			e := x.newErr(st)
			return tup(typ, v, mkVal(intT, Ite(ok, I(0), e.t1())))
		}
	}
	M["time.Parse"] = parse(false)
	M["time.ParseInLocation"] = parse(true)
}

const unixEpochDay = 719163 // day number of 1970-01-01 with 0001-01-01 = 1

// layoutHas: does a constant layout mention the component?
func layoutHas(l, c string) bool {
	switch c {
	case "Y":
		return strings.Contains(l, "06")
	case "M":
		return strings.Contains(l, "Jan") || hasStdChunk(l, "01", "1")
	case "D":
		return strings.Contains(l, "02") || strings.Contains(l, "_2") || hasStdChunk(l, "2")
	case "S":
		return strings.Contains(l, "15") || strings.Contains(l, "03") || strings.Contains(l, "04") || strings.Contains(l, "05") || strings.Contains(l, "PM") || strings.Contains(l, "pm") || hasStdChunk(l, "3", "4", "5")
	case "N":
		return strings.Contains(l, "05") || hasStdChunk(l, "5")
	}
	return true
}

func hasStdChunk(l string, ds ...string) bool {
	for _, d := range ds {
		for i := 0; i < len(l); i++ {
			if !strings.HasPrefix(l[i:], d) {
				continue
			}
			return true
		}
	}
	return false
}

func calendarModels(M map[string]modelFn) {
	const hj = "github.com/hablullah/go-hijri"
	const jl = "github.com/jalaali/go-jalaali"
	M[hj+".CreateUmmAlQuraDate"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		tp := typ.(*types.Tuple)
		u := x.inLoc(a[0], I(0))
		dn := x.dayNum(u.L[0], u.L[1], u.L[2])
		// 1937-03-14 .. 2077-11-16
		ok := And(Ge(dn, I(dayNumConst(1937, 3, 14))), Le(dn, I(dayNumConst(2077, 11, 16))))
		y, m, d := App("hijriY", SInt, dn), App("hijriM", SInt, dn), App("hijriD", SInt, dn)
		x.fact(Imp(ok, And(Ge(y, I(1356)), Le(y, I(1500)), Ge(m, I(1)), Le(m, I(12)), Ge(d, I(1)), Le(d, App("ummlen", SInt, y, m)), Ge(App("ummlen", SInt, y, m), I(29)), Le(App("ummlen", SInt, y, m), I(30)))))
		x.fact(Imp(ok, Eq(App("ummday", SInt, y, m, d), dn)))
		v := Val{T: tp.At(0).Type()}
		for i, t := range []*Term{d, m, y, x.fresh("wd", SInt)} {
			_ = i
			v.L = append(v.L, Ite(ok, t, I(0)))
		}
		e := x.newErr(st)
		x.note("go-hijri: CreateUmmAlQuraDate and ToGregorian are inverse to each other on 1356-1500 AH and follow the Umm al-Qura table; month lengths are 29 or 30")
		return tup(typ, v, mkVal(intT, Ite(ok, I(0), e.t1())))
	}
	M["("+hj+".UmmAlQuraDate).ToGregorian"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		d, m, y := a[0].L[0], a[0].L[1], a[0].L[2]
		idx := Add(m, Mul(I(12), Sub(y, I(1))), I(-16261))
		x.oblige("safety", "Umm al-Qura table lookup is in range", []string{"C01", "C19"}, pos, st, And(Ge(idx, I(0)), Lt(idx, I(1740))))
		r := x.freshVal("umm", typ)
		r.L[5] = I(0)
		dn := x.dayNum(r.L[0], r.L[1], r.L[2])
		x.fact(Eq(dn, App("ummday", SInt, y, m, d)))
		// days of a month are consecutive, months of a year follow each other
		x.fact(Eq(App("ummday", SInt, y, m, d), Add(App("ummday", SInt, y, m, I(1)), d, I(-1))))
		ln := App("ummlen", SInt, y, m)
		x.fact(And(Ge(ln, I(29)), Le(ln, I(30))))
		in := And(Ge(m, I(1)), Le(m, I(12)), Ge(y, I(1356)), Le(y, I(1500)))
		x.fact(Imp(And(in, Ge(d, I(1)), Le(d, ln)), And(Eq(App("hijriY", SInt, dn), y), Eq(App("hijriM", SInt, dn), m), Eq(App("hijriD", SInt, dn), d))))
		x.fact(Imp(And(in, Eq(d, I(30)), Eq(ln, I(29)), Lt(y, I(1500))), Eq(App("hijriD", SInt, dn), I(1))))
		x.fact(Imp(in, And(Ge(dn, I(dayNumConst(1937, 3, 1))), Le(dn, I(dayNumConst(2077, 12, 20))))))
		x.fact(Imp(And(in, Ge(d, I(1)), Le(d, ln)), And(Ge(dn, I(dayNumConst(1937, 3, 14))), Le(dn, I(dayNumConst(2077, 11, 16))))))
		return r
	}
	jok := func(y *Term) *Term { return And(Ge(y, I(-61)), Lt(y, I(3178))) }
	M[jl+".IsLeapYear"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		y := a[0].t1()
		e := x.newErr(st)
		ok := jok(y)
		// for an invalid year the library reports "leap == 0" together with the error
		return tup(typ, mkVal(boolT, Or(Not(ok), App("jleap", SBool, y))), mkVal(intT, Ite(ok, I(0), e.t1())))
	}
	M[jl+".MonthLength"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		y, m := a[0].t1(), a[1].t1()
		e := x.newErr(st)
		bad := And(Gt(m, I(11)), Not(jok(y)))
		n := Ite(Le(m, I(6)), I(31), Ite(Le(m, I(11)), I(30), Ite(App("jleap", SBool, y), I(30), I(29))))
		return tup(typ, mkVal(intT, Ite(bad, I(0), n)), mkVal(intT, Ite(bad, e.t1(), I(0))))
	}
	M[jl+".ToGregorian"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		y, m, d := a[0].t1(), a[1].t1(), a[2].t1()
		e := x.newErr(st)
		ok := jok(y)
		n := []string{"jgY", "jgM", "jgD"}
		var vs []Val
		for _, k := range n {
			vs = append(vs, mkVal(intT, Ite(ok, App(k, SInt, y, m, d), I(0))))
		}
		gy, gm, gd := App(n[0], SInt, y, m, d), App(n[1], SInt, y, m, d), App(n[2], SInt, y, m, d)
		in := And(ok, Ge(m, I(1)), Le(m, I(12)), Ge(d, I(1)), Le(d, I(31)))
		x.fact(Imp(in, And(Ge(gm, I(1)), Le(gm, I(12)), Ge(gd, I(1)), Le(gd, dimT(gy, gm)))))
		x.note("go-jalaali converts between the calendars correctly (its conversion functions are not verified)")
		vs = append(vs, mkVal(intT, Ite(ok, I(0), e.t1())))
		return tup(typ, vs...)
	}
	M[jl+".ToJalaali"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		y, m, d := a[0].t1(), a[1].t1(), a[2].t1()
		jy, jm, jd := App("jjY", SInt, y, m, d), App("jjM", SInt, y, m, d), App("jjD", SInt, y, m, d)
		e := x.newErr(st)
		ok := App("jjok", SBool, y, m, d)
		x.fact(Imp(ok, And(jok(jy), Ge(jm, I(1)), Le(jm, I(12)), Ge(jd, I(1)), Le(jd, I(31)))))
		x.fact(Imp(And(Ge(y, I(622)), Le(y, I(3000)), Ge(m, I(1)), Le(m, I(12)), Ge(d, I(1)), Le(d, dimT(y, m))), ok))
		return tup(typ, mkVal(intT, Ite(ok, jy, I(0))), mkVal(intT, Ite(ok, jm, I(0))), mkVal(intT, Ite(ok, jd, I(0))), mkVal(intT, Ite(ok, I(0), e.t1())))
	}
	M[jl+".From"] = func(x *Exec, st *State, f *ssa.Function, a []Val, typ types.Type, pos token.Pos) Val {
		// the wrapper keeps the time it is given
		return Val{T: typ, L: a[0].L}
	}
}
