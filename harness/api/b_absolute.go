package dateparser

import (
	"fmt"
	"strings"
	"time"

	"github.com/markusmobius/go-dateparser/date"
)

// ---- an independent reading of absolute dates (properties C02 to C07) ----

type absText struct {
	text        string
	D, M, Y     int // 0: not given (year 0 is never used)
	twoDigit    bool
	wd          int // -1: not given
	h, m, s, ns int // h = -1: not given
	timePeriod  date.Period
}

var verifMonths = []string{"", "January", "February", "March", "April", "May", "June", "July",
	"August", "September", "October", "November", "December"}
var verifDays = []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}

func vLeap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
func vMonthLen(y, m int) int {
	switch m {
	case 2:
		if vLeap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func vNearLeap(y int, src PreferredDateSource) int {
	next, prev := y, y
	for {
		next++
		if vLeap(next) {
			break
		}
	}
	for {
		prev--
		if vLeap(prev) {
			break
		}
	}
	switch src {
	case Future:
		return next
	case Past:
		return prev
	}
	if next-y < y-prev {
		return next
	}
	return prev
}

// vExpect computes the date the text stands for under the configuration.
func vExpect(a absText, c *Configuration) (time.Time, date.Period, bool) {
	now := c.CurrentTime
	// strictness
	have := map[string]bool{"day": a.D != 0, "month": a.M != 0, "year": a.Y != 0}
	if c.StrictParsing && !(have["day"] && have["month"] && have["year"]) {
		return time.Time{}, 0, false
	}
	for _, r := range c.RequiredParts {
		if !have[strings.ToLower(r)] {
			return time.Time{}, 0, false
		}
	}
	y, m, d := a.Y, a.M, a.D
	if y == 0 {
		y = now.Year()
	}
	if m == 0 {
		m = int(now.Month())
	}
	if d == 0 {
		d = now.Day()
	}
	if a.D == 29 && m == 2 && !vLeap(y) {
		y = vNearLeap(y, c.PreferredDateSource)
	}
	if d > vMonthLen(y, m) {
		d = vMonthLen(y, m)
	}
	h, mi, s, ns := 0, 0, 0, 0
	if a.h >= 0 {
		h, mi, s, ns = a.h, a.m, a.s, a.ns
	}
	t := time.Date(y, time.Month(m), d, h, mi, s, ns, now.Location())
	src := c.PreferredDateSource
	// a weekday alone
	if a.wd >= 0 && a.D == 0 && a.M == 0 && a.Y == 0 {
		diff := 0
		switch src {
		case Future:
			for diff = 1; int(t.AddDate(0, 0, diff).Weekday()) != a.wd; diff++ {
			}
		case Past:
			for diff = -1; int(t.AddDate(0, 0, diff).Weekday()) != a.wd; diff-- {
			}
		default:
			for diff = 0; int(t.AddDate(0, 0, diff).Weekday()) != a.wd; diff-- {
			}
		}
		t = t.AddDate(0, 0, diff)
	}
	// month without year
	if a.M != 0 && a.Y == 0 {
		yy := t.Year()
		if now.Before(t) && src == Past {
			yy--
		} else if !now.Before(t) && src == Future {
			yy++
		}
		t = vToYear(t, yy, src, a.D != 0)
	}
	// two-digit year
	if a.Y != 0 && a.twoDigit {
		if now.Before(t) && src == Past {
			t = vToYear(t, t.Year()-100, src, a.D != 0)
		} else if !now.Before(t) && src == Future {
			t = vToYear(t, t.Year()+100, src, a.D != 0)
		}
	}
	// a time alone
	if a.h >= 0 && a.D == 0 && a.M == 0 && a.Y == 0 && a.wd < 0 {
		off := 0
		if c.DefaultTimezone != nil {
			_, off = t.In(c.DefaultTimezone).Zone()
		}
		u := t.Add(-time.Duration(off) * time.Second)
		if src == Past && now.Before(u) {
			t = t.AddDate(0, 0, -1)
		}
		if src == Future && now.After(u) {
			t = t.AddDate(0, 0, 1)
		}
	}
	// the month, then the day
	alone := a.wd >= 0 && a.D == 0 && a.M == 0 && a.Y == 0
	if a.M == 0 && !alone {
		mm := int(now.Month())
		switch c.PreferredMonthOfYear {
		case FirstMonth:
			mm = 1
		case LastMonth:
			mm = 12
		}
		dd := t.Day()
		if a.D != 0 {
			dd = a.D
		}
		t = vSetDay(t, t.Year(), mm, dd)
	}
	if a.D == 0 && a.h < 0 && a.wd < 0 {
		dd := now.Day()
		switch c.PreferredDayOfMonth {
		case First:
			dd = 1
		case Last:
			dd = 31
		}
		t = vSetDay(t, t.Year(), int(t.Month()), dd)
	}
	p := date.Day
	switch {
	case a.D != 0:
	case a.M != 0:
		p = date.Month
	case a.Y != 0:
		p = date.Year
	}
	if a.h >= 0 && c.ReturnTimeAsPeriod {
		p = a.timePeriod
	}
	// the default timezone is put on, wall clock kept
	if c.DefaultTimezone != nil {
		n, o := t.In(c.DefaultTimezone).Zone()
		t = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), time.FixedZone(n, o))
	}
	return t, p, true
}

func vSetDay(t time.Time, y, m, d int) time.Time {
	if l := vMonthLen(y, m); d > l {
		d = l
	}
	return time.Date(y, time.Month(m), d, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), t.Location())
}

// vToYear moves to another year; 29 February moves to the nearest leap year
// when the text named the day and is limited to the 28th when it did not.
func vToYear(t time.Time, y int, src PreferredDateSource, named bool) time.Time {
	d := t.Day()
	if d == 29 && t.Month() == 2 && !vLeap(y) {
		if named {
			y = vNearLeap(y, src)
		} else {
			d = 28
		}
	}
	return time.Date(y, t.Month(), d, t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), t.Location())
}

type absGen struct {
	D, M, Y, twoDigit, wd, clock bool
}

// vMakeText writes a random text of the given shape that has one reading.
func vMakeText(v *verifRun, g absGen) absText {
	r := v.rng
	a := absText{wd: -1, h: -1}
	var parts []string
	if g.wd {
		a.wd = r.Intn(7)
		n := verifDays[a.wd]
		if r.Intn(3) == 0 {
			n = n[:3]
		}
		parts = append(parts, n)
	}
	if g.Y {
		if g.twoDigit {
			y := r.Intn(100)
			if r.Intn(3) == 0 {
				y = []int{0, 4, 68, 69, 70, 99, 15, 16, 14}[r.Intn(9)]
			}
			a.twoDigit = true
			a.Y = 2000 + y
			if y >= 69 {
				a.Y = 1900 + y
			}
		} else {
			ys := []int{1900, 2000, 2004, 2015, 2016, 2017, 2020, 2100, 1999, 1964, 2400, 9996, 1600}
			a.Y = ys[r.Intn(len(ys))]
			if r.Intn(2) == 0 {
				a.Y = 1000 + r.Intn(9000)
			}
		}
	}
	if g.M {
		a.M = 1 + r.Intn(12)
		if r.Intn(3) == 0 {
			a.M = 2
		}
	}
	if g.D {
		a.D = 1 + r.Intn(31)
		if r.Intn(2) == 0 {
			a.D = 28 + r.Intn(4)
		}
		if !g.M && a.D < 13 {
			a.D += 15
		}
	}
	if a.D != 0 && a.M != 0 {
		switch r.Intn(2) {
		case 0:
			parts = append(parts, fmt.Sprintf("%02d %s", a.D, verifMonths[a.M]))
		default:
			parts = append(parts, fmt.Sprintf("%s %02d", verifMonths[a.M], a.D))
		}
	} else if a.M != 0 {
		n := verifMonths[a.M]
		if r.Intn(3) == 0 {
			n = n[:3]
		}
		parts = append(parts, n)
	} else if a.D != 0 {
		parts = append(parts, fmt.Sprintf("%02d", a.D))
	}
	if a.Y != 0 {
		if a.twoDigit {
			parts = append(parts, fmt.Sprintf("%02d", a.Y%100))
		} else {
			parts = append(parts, fmt.Sprintf("%04d", a.Y))
		}
	}
	if g.clock {
		a.h, a.m, a.s, a.ns = r.Intn(24), r.Intn(60), 0, 0
		if r.Intn(4) == 0 {
			a.h, a.m = []int{0, 12, 23}[r.Intn(3)], []int{0, 59, 30}[r.Intn(3)]
		}
		switch r.Intn(5) {
		case 0:
			a.s = r.Intn(60)
			parts = append(parts, fmt.Sprintf("%02d:%02d:%02d", a.h, a.m, a.s))
			a.timePeriod = date.Second
		case 1:
			h12 := a.h % 12
			ap := "am"
			if a.h >= 12 {
				ap = "pm"
			}
			if h12 == 0 {
				h12 = 12
			}
			parts = append(parts, fmt.Sprintf("%d:%02d %s", h12, a.m, ap))
			a.timePeriod = date.Minute
		case 2:
			a.m = 0
			h12 := a.h % 12
			ap := "AM"
			if a.h >= 12 {
				ap = "PM"
			}
			if h12 == 0 {
				h12 = 12
			}
			parts = append(parts, fmt.Sprintf("%d %s", h12, ap))
			a.timePeriod = date.Hour
		default:
			parts = append(parts, fmt.Sprintf("%02d:%02d", a.h, a.m))
			a.timePeriod = date.Minute
		}
	}
	a.text = strings.Join(parts, " ")
	return a
}

func vRandNow(v *verifRun) time.Time {
	r := v.rng
	ys := []int{2015, 2016, 2017, 2019, 2020, 2021, 1999, 2000, 2100, 2099, 1970, 2023, 2024}
	y := ys[r.Intn(len(ys))]
	m := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		m = 2
	}
	d := 1 + r.Intn(vMonthLen(y, m))
	if r.Intn(2) == 0 {
		d = vMonthLen(y, m) - r.Intn(3)
	}
	h, mi, s, ns := r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000)
	switch r.Intn(4) {
	case 0:
		h, mi, s, ns = 0, 0, 0, 0
	case 1:
		s, ns = 0, 0
	}
	loc := time.UTC
	switch r.Intn(4) {
	case 0:
		loc = time.FixedZone("X", 5*3600+1800)
	case 1:
		loc = time.FixedZone("Y", -8*3600)
	}
	return time.Date(y, time.Month(m), d, h, mi, s, ns, loc)
}

func vRandCfg(v *verifRun) *Configuration {
	r := v.rng
	return &Configuration{
		Languages:            []string{"en"},
		CurrentTime:          vRandNow(v),
		PreferredDayOfMonth:  PreferredDayOfMonth(r.Intn(3)),
		PreferredMonthOfYear: PreferredMonthOfYear(r.Intn(3)),
		PreferredDateSource:  PreferredDateSource(r.Intn(3)),
		ReturnTimeAsPeriod:   r.Intn(2) == 0,
		PreserveEndOfMonth:   r.Intn(2) == 0,
	}
}

func vCfgStr(c *Configuration) map[string]any {
	m := map[string]any{"CurrentTime": verifFmt(c.CurrentTime), "PreferredDayOfMonth": c.PreferredDayOfMonth,
		"PreferredMonthOfYear": c.PreferredMonthOfYear, "PreferredDateSource": c.PreferredDateSource,
		"ReturnTimeAsPeriod": c.ReturnTimeAsPeriod, "StrictParsing": c.StrictParsing}
	if len(c.RequiredParts) > 0 {
		m["RequiredParts"] = c.RequiredParts
	}
	if c.DefaultTimezone != nil {
		m["DefaultTimezone"] = c.DefaultTimezone.String()
	}
	if len(c.Languages) > 0 {
		m["Languages"] = c.Languages
	}
	if c.PreserveEndOfMonth {
		m["PreserveEndOfMonth"] = true
	}
	return m
}

// vAbs compares the parser with the reading of vExpect on texts of a shape.
func vAbs(v *verifRun, g absGen, tweak func(c *Configuration), n int) {
	p := &Parser{ParserTypes: []ParserType{AbsoluteTime}}
	for i := 0; i < n && !v.done(); i++ {
		a := vMakeText(v, g)
		c := vRandCfg(v)
		if tweak != nil {
			tweak(c)
		}
		in := map[string]any{"text": a.text, "config": vCfgStr(c), "parsers": "AbsoluteTime"}
		v.current(in)
		var got date.Date
		var err error
		if pn := verifCatch(func() { got, err = p.Parse(c, a.text) }); pn != "" {
			v.count("panics")
			continue
		}
		want, per, ok := vExpect(a, c)
		v.count("absolute_texts")
		v.sample(in)
		shape := fmt.Sprintf("%+v", g)
		if !ok {
			if err == nil {
				v.fail("abs-reject:"+shape, "an incomplete date is returned", in, "an error", verifFmt(got.Time))
			}
			continue
		}
		if err != nil {
			v.fail("abs-accept:"+shape, "the text is not parsed", in, verifFmt(want), err)
			continue
		}
		if !got.Time.Equal(want) || verifFmt(got.Time) != verifFmt(want) {
			v.fail("abs-date:"+shape, "wrong date", in, verifFmt(want), verifFmt(got.Time))
		}
		if v.Prop == "C07" && got.Period != per {
			v.fail("abs-period:"+shape, "wrong period", in, per, got.Period)
		}
	}
}

func init() {
	all := []absGen{{D: true, Y: true}, {D: true}, {D: true, M: true, Y: true}, {M: true, Y: true}, {Y: true}, {D: true, M: true}, {M: true}, {wd: true}, {clock: true},
		{D: true, M: true, Y: true, clock: true}, {wd: true, clock: true}, {D: true, M: true, Y: true, twoDigit: true},
		{wd: true, D: true, M: true, Y: true}, {D: true, M: true, clock: true}, {M: true, Y: true, clock: true}}
	verifRegister("C02", "absolute", func(v *verifRun) {
		v.Rule = "random English absolute texts over every subset of day, month, year, weekday and time, with reference times at month ends and in leap years, against an independent calendar reading; non-trivial: every text names at least one component"
		for !v.done() && v.Stats["absolute_texts"] < 60000 {
			for _, g := range all {
				if g.D {
					vAbs(v, g, nil, 40)
				}
			}
			for _, g := range all {
				vAbs(v, g, nil, 10)
			}
		}
	})
	verifRegister("C03", "absolute", func(v *verifRun) {
		v.Rule = "texts without a day (and with one) under every day preference, reference days 1 to 31"
		for !v.done() && v.Stats["absolute_texts"] < 60000 {
			for _, g := range []absGen{{M: true, Y: true}, {Y: true}, {M: true}, {D: true, M: true, Y: true}, {D: true, M: true}} {
				vAbs(v, g, nil, 40)
			}
		}
	})
	verifRegister("C04", "absolute", func(v *verifRun) {
		v.Rule = "texts without a month (and with one) under every month preference"
		for !v.done() && v.Stats["absolute_texts"] < 60000 {
			for _, g := range []absGen{{Y: true}, {D: true, Y: true}, {D: true}, {M: true, Y: true}, {M: true}, {D: true, M: true, Y: true}, {clock: true}, {Y: true, clock: true}} {
				if g.Y && g.clock && !g.M {
					continue
				}
				vAbs(v, g, nil, 40)
			}
		}
	})
	verifRegister("C05", "absolute", func(v *verifRun) {
		v.Rule = "weekday, month, two-digit year and time alone against each preference and reference times on both sides"
		for !v.done() && v.Stats["absolute_texts"] < 80000 {
			for _, g := range []absGen{{wd: true}, {M: true}, {D: true, M: true}, {D: true, M: true, Y: true, twoDigit: true}, {clock: true}, {D: true, M: true, clock: true}, {wd: true, clock: true}} {
				vAbs(v, g, func(c *Configuration) {
					if v.rng.Intn(3) == 0 && g.clock {
						c.DefaultTimezone = time.FixedZone("Z", (v.rng.Intn(25)-12)*3600)
					}
				}, 40)
			}
			// the text names the reference day itself, at or around the reference time
			for i := 0; i < 40 && !v.done(); i++ {
				vAbsNear(v)
			}
		}
	})
	verifRegister("C06", "absolute", func(v *verifRun) {
		v.Rule = "every subset of day, month and year in the text against every subset of required parts, any capitalisation, and strict parsing"
		parts := []string{"day", "month", "year", "Day", "MONTH", "yEaR"}
		for !v.done() && v.Stats["absolute_texts"] < 60000 {
			for _, g := range all {
				if g.twoDigit {
					continue
				}
				vAbs(v, g, func(c *Configuration) {
					c.StrictParsing = v.rng.Intn(4) == 0
					for _, p := range parts {
						if v.rng.Intn(6) == 0 {
							c.RequiredParts = append(c.RequiredParts, p)
						}
					}
				}, 30)
			}
		}
	})
	verifRegister("C07", "absolute", func(v *verifRun) {
		v.Rule = "every subset of the components, with and without ReturnTimeAsPeriod"
		for !v.done() && v.Stats["absolute_texts"] < 40000 {
			for _, g := range all {
				vAbs(v, g, nil, 30)
			}
		}
	})
}

// vAbsNear: month/day or weekday of the reference date itself.
func vAbsNear(v *verifRun) {
	c := vRandCfg(v)
	now := c.CurrentTime
	p := &Parser{ParserTypes: []ParserType{AbsoluteTime}}
	a := absText{wd: -1, h: -1}
	off := v.rng.Intn(3) - 1
	t := now.AddDate(0, 0, off)
	switch v.rng.Intn(4) {
	case 0:
		a.D, a.M = t.Day(), int(t.Month())
		a.text = fmt.Sprintf("%02d %s", a.D, verifMonths[a.M])
	case 1:
		a.wd = int(t.Weekday())
		a.text = verifDays[a.wd]
	case 2:
		a.h, a.m, a.timePeriod = now.Hour(), now.Minute(), date.Minute
		a.text = fmt.Sprintf("%02d:%02d", a.h, a.m)
	case 3:
		if t.Year() < 1969 || t.Year() > 2068 {
			return
		}
		a.D, a.M, a.Y, a.twoDigit = t.Day(), int(t.Month()), t.Year(), true
		a.text = fmt.Sprintf("%02d %s %02d", a.D, verifMonths[a.M], a.Y%100)
	}
	in := map[string]any{"text": a.text, "config": vCfgStr(c)}
	v.current(in)
	want, _, _ := vExpect(a, c)
	got, err := p.Parse(c, a.text)
	v.count("absolute_texts_near_now")
	if err != nil {
		v.fail("near-accept", "the text is not parsed", in, verifFmt(want), err)
	} else if verifFmt(got.Time) != verifFmt(want) {
		v.fail("near-date", "wrong side of the reference time", in, verifFmt(want), verifFmt(got.Time))
	}
}
