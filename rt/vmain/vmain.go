// Package vmain is the main program of every harness: it lists, explores and replays scenarios.
package vmain

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/chenquan/go-pkg/zverif/vrt"
	"github.com/chenquan/go-pkg/zverif/zreset"
)

// Item describes a scenario in the listing.
type Item struct {
	Name    string
	Race    bool
	Enum    bool
	Seconds float64
}

// Request asks a worker to explore a scenario.
type Request struct {
	Name    string
	Seconds float64
}

// Saved is a replay file.
type Saved struct {
	Property  string   `json:"property"`
	Tier      string   `json:"tier"`
	Scenario  string   `json:"scenario"`
	Race      bool     `json:"race"`
	Mode      string   `json:"mode"` // "schedule" or "explore"
	Bound     int      `json:"bound"`
	Choices   []int    `json:"choices"`
	Violation string   `json:"violation"`
	Trace     []string `json:"trace"`
}

func cpu() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func rss() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, r int
	fmt.Sscan(string(b), &a, &r)
	return r * os.Getpagesize()
}

const (
	hangCPU = 12.0
	maxRSS  = 6 << 30
)

// watchdog reports an execution that burns processor time (or memory) without a visible step.
func watchdog(current *string, running *bool, out *os.File) {
	var lastP uint64
	lastC := cpu()
	for {
		time.Sleep(200 * time.Millisecond)
		p := vrt.Progress()
		c := cpu()
		if p != lastP || !*running {
			lastP, lastC = p, c
			continue
		}
		why := ""
		if c-lastC > hangCPU {
			why = fmt.Sprintf("hang: the code under check ran for %.0f s of processor time without ending or taking a visible step", c-lastC)
		} else if rss() > maxRSS && c-lastC > 1 {
			why = "hang: the code under check allocates without bound"
		}
		if why != "" {
			ch, where := vrt.Doing()
			if where != "" {
				why += " [input: " + where + "]"
			}
			r := vrt.Result{Name: *current, Violation: why, Choices: ch, AtBound: vrt.Bound(), Hang: true}
			b, _ := json.Marshal(r)
			out.Write(append(b, '\n'))
			os.Exit(3)
		}
	}
}

func raceBound(s *vrt.Scenario) int {
	if s.RaceBound == 0 {
		if len(s.Bounds) > 0 && s.Bounds[0] == 0 {
			return 0
		}
		return 1
	}
	return s.RaceBound
}

// Init prepares the process for exploring.
func Init() {
	vrt.Reset = zreset.All
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(1)
}

// In is the given number of seconds from now, in real time.
func In(seconds float64) time.Time {
	return time.Now().Add(time.Duration(seconds * float64(time.Second)))
}

// Main runs a harness.
func Main(prop string, scenarios func(tier string) []*vrt.Scenario) {
	Init()
	mode, tier := "", "quick"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	list := scenarios(tier)
	byName := map[string]*vrt.Scenario{}
	for _, s := range list {
		if byName[s.Name] != nil {
			fmt.Fprintln(os.Stderr, "duplicate scenario", s.Name)
			os.Exit(2)
		}
		byName[s.Name] = s
	}
	out := os.Stdout
	var current string
	var running bool
	switch mode {
	case "list":
		var items []Item
		for _, s := range list {
			items = append(items, Item{s.Name, s.RaceBound >= 0, s.Enum != nil, s.Seconds})
		}
		b, _ := json.Marshal(items)
		out.Write(append(b, '\n'))
	case "serve":
		go watchdog(&current, &running, out)
		in := bufio.NewScanner(os.Stdin)
		in.Buffer(make([]byte, 1<<20), 1<<26)
		for in.Scan() {
			var rq Request
			if err := json.Unmarshal(in.Bytes(), &rq); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			s := byName[rq.Name]
			if s == nil {
				fmt.Fprintln(os.Stderr, "no scenario", rq.Name)
				os.Exit(2)
			}
			if vrt.RaceMode {
				c := *s
				c.Bounds, c.MapOrders = []int{raceBound(s)}, 1
				s = &c
			}
			current, running = rq.Name, true
			r := vrt.Explore(s, time.Now().Add(time.Duration(rq.Seconds*float64(time.Second))))
			running = false
			b, err := json.Marshal(r)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			out.Write(append(b, '\n'))
		}
	case "replay":
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var sv Saved
		if err := json.Unmarshal(b, &sv); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		s := byName[sv.Scenario]
		if s == nil {
			fmt.Fprintln(os.Stderr, "no scenario", sv.Scenario)
			os.Exit(2)
		}
		if sv.Mode == "explore" {
			go watchdog(&current, &running, out)
			current, running = sv.Scenario, true
			r := vrt.Explore(s, time.Now().Add(10*time.Minute))
			running = false
			b, _ := json.Marshal(r)
			out.Write(append(b, '\n'))
			return
		}
		go watchdog(&current, &running, out)
		current, running = sv.Scenario, true
		f, tr, dv := vrt.Replay(s, sv.Bound, sv.Choices)
		running = false
		r := vrt.Result{Name: sv.Scenario, Violation: f, Trace: tr, Diverged: dv, Choices: sv.Choices}
		b, _ = json.Marshal(r)
		out.Write(append(b, '\n'))
	default:
		// for use by hand: NAME-SUBSTRING explores matching scenarios
		for _, s := range list {
			if mode != "" && !strings.Contains(s.Name, mode) {
				continue
			}
			if vrt.RaceMode {
				if s.RaceBound < 0 {
					continue
				}
				c := *s
				c.Bounds, c.MapOrders = []int{raceBound(s)}, 1
				s = &c
			}
			r := vrt.Explore(s, time.Now().Add(60*time.Second))
			fmt.Printf("%-50s states %d steps %d execs %d complete %d outcomes %d bounds %v exh %v capped %v depth %d wall %.2f %s %s\n", r.Name, r.States, r.Steps, r.Execs, r.Complete, r.Outcomes, r.Bounds, r.Exhaustive, r.Capped, r.MaxDepth, r.Wall, r.Diverged, r.Violation)
			if r.Violation != "" {
				f, tr, dv := vrt.Replay(s, r.AtBound, r.Choices)
				fmt.Println("replay:", f, dv)
				for _, l := range tr {
					fmt.Println("   ", l)
				}
				os.Exit(1)
			}
			if os.Getenv("SAMPLES") != "" {
				for _, l := range r.Samples {
					fmt.Println("    ", l)
				}
			}
		}
	}
}
