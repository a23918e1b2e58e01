package h

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Event is a disagreement between the generated code and the reference.
type Event struct {
	Class   string // what kind of disagreement
	Input   string // the document, value or history
	Outcome string // what the generated code did, normalised
	Detail  string // for people
	Why     string // the reason the reference gives
}

// Hash identifies an event: the place, the input and what happened.
func (e *Event) Hash(shape string) string {
	f := fnv.New64a()
	for _, s := range []string{shape, e.Class, e.Input, e.Outcome} {
		f.Write([]byte(s))
		f.Write([]byte{0})
	}
	b := f.Sum(nil)
	return base64.RawURLEncoding.EncodeToString(b[:6])
}

// Violation is an event that is not a recorded finding.
type Violation struct {
	Property string `json:"property"`
	Shape    string `json:"shape"`
	Desc     string `json:"declaration"`
	Class    string `json:"class"`
	Input    string `json:"input"`
	Outcome  string `json:"outcome"`
	Detail   string `json:"detail"`
	Hash     string `json:"hash"`
	Repeats  int    `json:"reproduced_of_5"`
}

// Result is what one shard reports.
type Result struct {
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct"`
	States      int               `json:"states"`
	Transitions int               `json:"transitions"`
	Traces      int               `json:"traces"`
	Entries     int               `json:"entries"`
	Bounded     []string          `json:"bounded"` // entries cut by a bound other than the stated ones
	Samples     []string          `json:"samples"`
	Known       map[string]int    `json:"known"`
	KnownSample map[string]string `json:"known_sample"`
	Violations  []Violation       `json:"violations"`
	Total       int               `json:"total_violations"`
	Classes     map[string]int    `json:"classes"`
	Complete    bool              `json:"complete"`
	Err         string            `json:"err"`
}

// Ctx is the state of an exploration.
type Ctx struct {
	Prop     string
	Thorough bool // the second level of depth
	Deep     bool // the third
	E        Entry
	M        *Model
	R        *Result

	pathWhy string // judge the location of these failures only

	known    map[string]map[string]string // shape -> hash -> finding
	classify *bufio.Writer
	seen     map[string]bool
	nsample  int
	deadline time.Time
	replay   string // when set only the event with this hash matters
}

// Case judges one case; run returns nil when the property holds on it.
// distinct says that the input was not judged before for this entry.
func (c *Ctx) Case(input string, run func() *Event) {
	c.R.Evaluations++
	tick.Add(1)
	if !c.seen[input] {
		c.seen[input] = true
		c.R.Distinct++
		if c.nsample < 1 && len(c.seen) == 7 {
			c.nsample++
			c.sample(c.E.ID + " " + input)
		}
	}
	ev := run()
	if ev == nil {
		return
	}
	c.report(ev, run)
}

func (c *Ctx) sample(s string) {
	if len(s) > 300 {
		s = s[:300]
	}
	if len(c.R.Samples) < 12 {
		c.R.Samples = append(c.R.Samples, s)
	}
}

func (c *Ctx) report(ev *Event, run func() *Event) {
	h := ev.Hash(c.E.ID)
	if c.classify != nil {
		b, _ := json.Marshal([]string{c.Prop, c.E.ID, c.E.Desc, h, ev.Class, ev.Why, ev.Input, ev.Outcome, ev.Detail})
		c.classify.Write(b)
		c.classify.WriteByte('\n')
		return
	}
	if f, ok := c.known[c.E.ID][h]; ok {
		c.R.Known[f]++
		if _, ok := c.R.KnownSample[f]; !ok {
			s := c.E.ID + ": " + ev.Class + " " + ev.Input + " -> " + ev.Outcome
			if len(s) > 300 {
				s = s[:300]
			}
			c.R.KnownSample[f] = s
		}
		return
	}
	c.R.Total++
	c.R.Classes[ev.Class+" "+c.E.ID]++
	if len(c.R.Violations) >= 40 || c.R.Classes[ev.Class+" "+c.E.ID] > 3 {
		return
	}
	n := 1
	if run != nil {
		n = 0
		for i := 0; i < 5; i++ {
			if e2 := run(); e2 != nil && e2.Hash(c.E.ID) == h {
				n++
			}
		}
	}
	c.R.Violations = append(c.R.Violations, Violation{Property: c.Prop, Shape: c.E.ID, Desc: c.E.Desc, Class: ev.Class, Input: ev.Input, Outcome: ev.Outcome, Detail: ev.Detail, Hash: h, Repeats: n})
}

func loadKnown(dir string) map[string]map[string]string {
	out := map[string]map[string]string{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.txt"))
	for _, f := range fs {
		name := strings.TrimSuffix(filepath.Base(f), ".txt")
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			p := strings.SplitN(l, "\t", 2)
			if len(p) != 2 {
				continue
			}
			m := out[p[0]]
			if m == nil {
				m = map[string]string{}
				out[p[0]] = m
			}
			for i := 0; i+8 <= len(p[1]); i += 8 {
				m[p[1][i:i+8]] = name
			}
		}
	}
	return out
}

func cpu() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// Main is the entry point of the explorer binary.
func Main() {
	prop := flag.String("prop", "", "property")
	level := flag.Int("level", 1, "")
	known := flag.String("known", "", "directory of recorded findings")
	out := flag.String("out", "", "result file")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	only := flag.String("only", "", "explore one entry")
	class := flag.String("classify", "", "write all events here")
	limit := flag.Int("seconds", 0, "stop exploring after this time and say so")
	progress := flag.String("progress", "", "file naming the entry being explored")
	list := flag.Bool("list", false, "")
	flag.Parse()

	sort.SliceStable(Entries, func(i, j int) bool { return Entries[i].ID < Entries[j].ID })
	if *list {
		for _, e := range Entries {
			fmt.Println(e.ID)
		}
		return
	}
	res := &Result{Known: map[string]int{}, KnownSample: map[string]string{}, Classes: map[string]int{}, Complete: true}
	explore, ok := Explorers[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no explorer for", *prop)
		os.Exit(3)
	}
	c := &Ctx{Prop: *prop, Thorough: *level > 1, Deep: *level > 2, R: res}
	if *known != "" {
		c.known = loadKnown(*known)
	}
	if *class != "" {
		f, err := os.Create(*class)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		c.classify = bufio.NewWriter(f)
		defer c.classify.Flush()
	}
	if *limit > 0 {
		c.deadline = time.Now().Add(time.Duration(*limit) * time.Second)
	}
	// a case that needs minutes of processor time does not terminate; the
	// count is of processor time, so a loaded machine does not matter
	go func() {
		var last int64 = -1
		var since time.Duration
		for {
			time.Sleep(500 * time.Millisecond)
			if n := tick.Load(); n != last {
				last, since = n, cpu()
			}
			if cpu()-since > 100*time.Second {
				fmt.Fprintln(os.Stderr, "no end of one case")
				os.Exit(4)
			}
		}
	}()
	for i, e := range Entries {
		if *only != "" && e.ID != *only {
			continue
		}
		if *only == "" && i%*shards != *shard {
			continue
		}
		if !c.deadline.IsZero() && time.Now().After(c.deadline) {
			res.Complete = false
			break
		}
		if *progress != "" {
			os.WriteFile(*progress, []byte(e.ID), 0o644)
		}
		c.E = e
		c.M = &Model{U8: e.U8}
		c.seen = map[string]bool{}
		c.nsample = 0
		res.Entries++
		func() {
			defer func() {
				// panics of the code under test are caught where it is called
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "harness: %s: %v\n%s\n", e.ID, r, debug.Stack())
					os.Exit(3)
				}
			}()
			explore(c)
		}()
	}
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			panic(err)
		}
	}
}

var tick atomic.Int64

// Explorers by property.
var Explorers = map[string]func(*Ctx){}

func (c *Ctx) stop() bool {
	return !c.deadline.IsZero() && time.Now().After(c.deadline)
}

// New makes a pointer to a zero value of the entry's type.
func (c *Ctx) New() reflect.Value { return reflect.New(c.E.T) }

// decodable: the type has (or should have) a decoder.
func (c *Ctx) decodable() bool { return !c.E.NoDec }
func (c *Ctx) encodable() bool { return !c.E.NoEnc }
