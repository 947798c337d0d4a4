package vrt

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"
)

// Enum drives an exhaustive enumeration of inputs of sequential code: the scenario's
// Enum function loops over the whole space and asks Case for each input.
type Enum struct {
	Cases    int // inputs of this shard that were evaluated
	Evals    int // calls checked
	shard    int
	of       int
	idx      int
	deadline time.Time
	cur      []any
	samples  []string
	Capped   bool
}

type enumStop struct{ msg string }

// Case moves to the next input; false if another shard evaluates it.
func (c *Enum) Case(args ...any) bool {
	i := c.idx
	c.idx++
	if c.of > 1 && i%c.of != c.shard {
		return false
	}
	c.Cases++
	c.Evals++
	eng.progress++
	eng.cur.idle = 0
	c.cur = args
	if c.Cases&255 == 0 {
		c.Fresh() // forget the objects of finished cases
	}
	if c.Cases&1023 == 0 && time.Now().After(c.deadline) {
		c.Capped = true
		panic(enumStop{})
	}
	if len(c.samples) < 3 && c.Cases&(c.Cases-1) == 0 && c.Cases > 8 {
		c.samples = append(c.samples, c.describe())
	}
	return true
}

// Fresh gives the packages fresh variables.
func (c *Enum) Fresh() {
	e := eng
	e.epoch++
	e.chans.reset()
	e.addrs.reset()
	// the threads that earlier cases started
	e.cur.id = 0
	e.threads, e.act, e.ended = append(e.threads[:0], e.cur), append(e.act[:0], e.cur), 0
	e.timers = nil
	if Reset != nil {
		e.cur.noYield = true
		Reset()
		e.cur.noYield = false
	}
}

// Eval counts one more checked call for the current input.
func (c *Enum) Eval() { c.Evals++; eng.progress++; eng.cur.idle = 0 }

func (c *Enum) describe() string {
	var p []string
	for _, a := range c.cur {
		if l, ok := a.(*[]int); ok {
			a = *l
		}
		p = append(p, fmt.Sprintf("%#v", a))
	}
	s := strings.Join(p, ", ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Fail reports a violation for the current input.
func (c *Enum) Fail(format string, a ...any) {
	panic(enumStop{fmt.Sprintf(format, a...) + " [input: " + c.describe() + "]"})
}

// Check fails unless ok.
func (c *Enum) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Fail(format, a...)
	}
}

func (c *Enum) run(f func(*Enum)) (violation, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(enumStop); ok {
				violation = s.msg
				return
			}
			violation = fmt.Sprintf("panic: %v [input: %s]", r, c.describe())
			stack = trimStack(string(debug.Stack()))
		}
	}()
	f(c)
	return
}

func exploreEnum(sc *Scenario, deadline time.Time, res *Result) {
	e := eng
	c := &Enum{shard: sc.Shard, of: sc.Shards, deadline: deadline}
	e.enum = c
	base := RaceErrors()
	// one execution that goes through all inputs, so that code which starts goroutines works;
	// it follows one schedule
	var v, st string
	ended := false
	e.caching, e.bound, e.delay, e.path = false, 0, true, e.path[:0]
	e.runOnce(&Scenario{Delay: true, Body: func(x *X) {
		v, st = c.run(sc.Enum)
		ended = true
	}})
	e.bound, e.delay = -1, false
	if v == "" && e.failure != "" {
		v = e.failure
	} else if v == "" && !ended {
		v = "stuck [input: " + c.describe() + "]"
	}
	if v != "" && st == "" {
		st = strings.Join(e.trace, "\n")
	}
	e.enum = nil
	if v == "" && RaceErrors() > base {
		v = "data race (see the race detector's report)"
	}
	res.States, res.Steps, res.Execs = c.Cases, c.Evals, c.Cases
	res.Complete = c.Cases
	res.Samples = c.samples
	res.Capped = c.Capped
	res.Exhaustive = !c.Capped
	res.Violation = v
	if v != "" {
		res.Trace = append([]string{"case " + fmt.Sprint(c.idx-1) + ": " + c.describe(), v}, strings.Split(st, "\n")...)
	}
}

// EnumScenarios makes the scenarios that enumerate one input space in n shards.
func EnumScenarios(name string, n int, f func(c *Enum)) []*Scenario {
	var r []*Scenario
	for i := 0; i < n; i++ {
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s#%d/%d", name, i, n)
		}
		r = append(r, &Scenario{Name: nm, Enum: f, Shard: i, Shards: n, RaceBound: -1})
	}
	return r
}

// Progress is the progress counter (for the watchdog; racy by design).
func Progress() uint64 { return eng.progress }

// Doing describes what is running; only for a watchdog that has found the engine standing still.
func Doing() (choices []int, where string) {
	defer func() {
		if recover() != nil {
			choices, where = nil, ""
		}
	}()
	e := eng
	if c := e.enum; c != nil {
		return nil, c.describe()
	}
	return e.choices(), ""
}

// Bound is the preemption bound in force.
func Bound() int { return eng.bound }
