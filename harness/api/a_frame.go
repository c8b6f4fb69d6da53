package dateparser

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"time"
)

// verifViolation is one failing input, with what the property demands.
type verifViolation struct {
	Key      string `json:"key"`
	What     string `json:"what"`
	Input    any    `json:"input"`
	Expected string `json:"expected"`
	Got      string `json:"got"`
	Detail   string `json:"detail,omitempty"`
}

type verifRun struct {
	Prop       string           `json:"prop"`
	Violations []verifViolation `json:"violations"`
	Stats      map[string]int   `json:"stats"`
	Samples    []any            `json:"samples"`
	Rule       string           `json:"rule"`
	rng        *rand.Rand
	end        time.Time
	thorough   bool
	t          *testing.T
	keys       map[string]bool
	out        string
	lastCur    time.Time
}

type verifCheck struct {
	name string
	fn   func(v *verifRun)
}

var verifChecks = map[string][]verifCheck{}

func verifRegister(prop, name string, fn func(v *verifRun)) {
	verifChecks[prop] = append(verifChecks[prop], verifCheck{name, fn})
}

// full reports that enough failing inputs are known or the time is over.
func (v *verifRun) done() bool {
	return len(v.Violations) >= 6 || time.Now().After(v.end)
}

func (v *verifRun) fail(key, what string, input any, expected, got any) {
	if v.keys[key] {
		v.Stats["repeated_violations"]++
		return
	}
	v.keys[key] = true
	v.Violations = append(v.Violations, verifViolation{Key: key, What: what, Input: input,
		Expected: fmt.Sprint(expected), Got: fmt.Sprint(got)})
}

func (v *verifRun) count(kind string) { v.Stats[kind]++ }

func (v *verifRun) sample(x any) {
	if len(v.Samples) < 5 {
		v.Samples = append(v.Samples, x)
	}
}

// current records the case in progress, for the runs that end the process.
func (v *verifRun) current(x any) {
	if v.out != "" && time.Since(v.lastCur) > 300*time.Millisecond {
		v.lastCur = time.Now()
		b, _ := json.Marshal(map[string]any{"near": x})
		os.WriteFile(v.out+".cur", b, 0o644)
	}
}

// catch runs f and gives the panic it ended with, or "".
func verifCatch(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 6000)
			buf = buf[:runtime.Stack(buf, false)]
			p = fmt.Sprint(r)
			for _, l := range strings.Split(string(buf), "\n") {
				if strings.Contains(l, "/repo/") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "harness/") {
					p += " at " + strings.TrimSpace(l)
					break
				}
			}
		}
	}()
	f()
	return ""
}

func TestVerifHarness(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP is not set")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 30
	}
	v := &verifRun{Prop: prop, Stats: map[string]int{}, rng: rand.New(rand.NewSource(seed*7919 + 17)),
		thorough: os.Getenv("VERIF_TIER") == "thorough", t: t, keys: map[string]bool{}, out: os.Getenv("VERIF_OUT")}
	cs := verifChecks[prop]
	for i, c := range cs {
		// what is left of the time is shared by the checks still to run
		left := time.Duration(budget) * time.Second
		if i > 0 {
			left = time.Until(v.end)
		}
		_ = left
		v.end = time.Now().Add(time.Duration(budget) * time.Second / time.Duration(len(cs)))
		if p := verifCatch(func() { c.fn(v) }); p != "" {
			v.Stats["panics_in_check_"+c.name]++
			if prop == "C01" {
				v.fail("panic:"+p, "the library panics", map[string]any{"check": c.name}, "a result or an error", p)
			}
		}
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	if v.out != "" {
		if err := os.WriteFile(v.out, b, 0o644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(b))
	}
}

func verifFmt(t time.Time) string {
	return t.Format("2006-01-02 15:04:05.999999999 -0700 MST")
}
