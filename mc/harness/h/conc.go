package h

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
)

func init() { Explorers["C01"] = exploreC01 }

// Point stands before every statement of the generated code (instrumented
// copies only) and lets the schedule under exploration switch threads.
func Point() {
	if s := active; s != nil {
		s.point()
	}
}

// active is the execution under way; the threads hand over to each other, so
// that one of them runs at a time.
var active *execution

// preemption: at the At-th point of the execution thread To goes on.
type preemption struct{ At, To int }

type execution struct {
	script []preemption
	next   int
	n      int
	cur    int
	done   []bool
	left   int
	wake   []chan struct{}
	others []uint8 // at each point: the other threads that could go on
	free   bool    // given up: everything runs on
	fin    chan struct{}
}

func (s *execution) point() {
	if s.free {
		return
	}
	k := s.n
	s.n++
	var mask uint8
	for i, d := range s.done {
		if !d && i != s.cur {
			mask |= 1 << i
		}
	}
	s.others = append(s.others, mask)
	if s.next < len(s.script) && s.script[s.next].At == k {
		to := s.script[s.next].To
		s.next++
		if mask>>to&1 == 1 {
			me := s.cur
			s.cur = to
			s.wake[to] <- struct{}{}
			<-s.wake[me]
		}
	}
}

// run executes the threads under the script.
func run(threads []func(), script []preemption) *execution {
	n := len(threads)
	s := &execution{script: script, done: make([]bool, n), left: n, wake: make([]chan struct{}, n), fin: make(chan struct{}, n+1)}
	for i := range threads {
		s.wake[i] = make(chan struct{}, 2)
	}
	active = s
	for i := range threads {
		go func(i int) {
			<-s.wake[i]
			threads[i]()
			s.done[i] = true
			s.left--
			if s.left == 0 {
				s.fin <- struct{}{}
				return
			}
			if s.free {
				return
			}
			for j, d := range s.done {
				if !d {
					s.cur = j
					s.wake[j] <- struct{}{}
					return
				}
			}
		}(i)
	}
	s.wake[0] <- struct{}{}
	select {
	case <-s.fin:
	default:
		t := time.NewTimer(20 * time.Second)
		select {
		case <-s.fin:
		case <-t.C:
			// a thread waits for another one by other means: such a schedule
			// does not exist; let everything run on and forget it
			s.free = true
			for i := range threads {
				select {
				case s.wake[i] <- struct{}{}:
				default:
				}
			}
			time.Sleep(100 * time.Millisecond)
		}
		t.Stop()
	}
	active = nil
	return s
}

// scene is a set of threads on new values; look tells afterwards what each
// of them got.
type scene struct {
	name string
	mk   func() (threads []func(), look func() []string)
}

// canonText is the text with the members of objects in order.
func canonText(b []byte, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	var v any
	if e := d.Decode(&v); e != nil {
		return string(b)
	}
	o, e := json.Marshal(v)
	if e != nil {
		return string(b)
	}
	return fmt.Sprintf("%d %s", len(b), o)
}

// user is a thread: what it does and what it has in the end.
type user struct {
	name string
	mk   func(shared reflect.Value) (do func(), look func() string)
}

func (c *Ctx) decodes(texts ...string) user {
	return user{"decode " + strings.Join(texts, " and "), func(reflect.Value) (func(), func() string) {
		p := c.New()
		bufs := make([][]byte, len(texts))
		for i, t := range texts {
			bufs[i] = []byte(t)
		}
		errs := make([]error, len(texts))
		return func() {
				for i := range bufs {
					errs[i] = Unmarshal(p, bufs[i])
				}
			}, func() string {
				var s string
				for i, e := range errs {
					s += fmt.Sprint(e, " ", string(bufs[i]), " ")
				}
				return s + Key(p.Elem())
			}
	}}
}

func (c *Ctx) encodes(name string, v reflect.Value, times int) user {
	return user{"encode " + name, func(shared reflect.Value) (func(), func() string) {
		p := shared
		if !p.IsValid() {
			p = reflect.New(c.E.T)
			cloneInto(p.Elem(), v)
		}
		b := make([][]byte, times)
		errs := make([]error, times)
		return func() {
				for i := range b {
					b[i], errs[i] = Marshal(p)
				}
			}, func() string {
				s := ""
				for i := range b {
					s += canonText(b[i], errs[i]) + " "
				}
				return s + Key(p.Elem())
			}
	}}
}

func (c *Ctx) asks(v reflect.Value) user {
	return user{"IsZero", func(shared reflect.Value) (func(), func() string) {
		p := shared
		if !p.IsValid() {
			p = reflect.New(c.E.T)
			cloneInto(p.Elem(), v)
		}
		var z bool
		var err error
		return func() { z, err = IsZero(p) }, func() string { return fmt.Sprint(z, err, Key(p.Elem())) }
	}}
}

func (c *Ctx) resets(v reflect.Value) user {
	return user{"reset", func(reflect.Value) (func(), func() string) {
		p := reflect.New(c.E.T)
		cloneInto(p.Elem(), v)
		var err error
		return func() { err = Reset(p) }, func() string { return fmt.Sprint(err, Key(p.Elem())) }
	}}
}

// together makes a scene of users; with a shared value if v is valid.
func (c *Ctx) together(v reflect.Value, us ...user) scene {
	var names []string
	for _, u := range us {
		names = append(names, u.name)
	}
	name := strings.Join(names, " || ")
	if v.IsValid() {
		name += " (the same value)"
	}
	return scene{name, func() ([]func(), func() []string) {
		var shared reflect.Value
		if v.IsValid() {
			shared = reflect.New(c.E.T)
			cloneInto(shared.Elem(), v)
		}
		var ts []func()
		var ls []func() string
		for _, u := range us {
			do, look := u.mk(shared)
			ts, ls = append(ts, do), append(ls, look)
		}
		return ts, func() []string {
			var out []string
			for _, l := range ls {
				out = append(out, l())
			}
			return out
		}
	}}
}

// C01: every interleaving gives what each thread gets alone.
func exploreC01(c *Ctx) {
	runtime.GOMAXPROCS(1)
	gc := debug.SetGCPercent(-1)
	defer func() { debug.SetGCPercent(gc); runtime.GC() }()

	var good, bad []string
	var vals []reflect.Value
	for _, d := range c.M.histDocs(c.E.T, "") {
		w := reflect.New(c.E.T).Elem()
		if c.M.Decode(d, w) == nil {
			known := false
			for _, v := range vals {
				known = known || Key(v) == Key(w)
			}
			if !known && len(good) < 3 {
				good = append(good, d.Text())
				vals = append(vals, w)
			}
		} else if len(bad) < 1 {
			bad = append(bad, d.Text())
		}
	}
	if len(good) == 0 {
		return
	}
	last := len(good) - 1
	if last > 1 {
		last = 1
	}
	broken := good[0][:len(good[0])-1] + "!"
	var scs []scene
	var none reflect.Value
	if c.decodable() {
		scs = append(scs, c.together(none, c.decodes(good[0]), c.decodes(good[last])), c.together(none, c.decodes(good[0]), c.decodes(broken)))
		for _, b := range bad {
			scs = append(scs, c.together(none, c.decodes(good[last]), c.decodes(b)))
		}
		scs = append(scs, c.together(none, c.decodes(good[0], good[last]), c.decodes(broken, good[last])))
	}
	if c.encodable() {
		a, b := vals[0], vals[last]
		scs = append(scs, c.together(none, c.encodes(good[0], a, 1), c.encodes(good[last], b, 2)), c.together(a, c.encodes(good[0], a, 1), c.encodes(good[0], a, 1)), c.together(a, c.encodes(good[0], a, 1), c.asks(a)))
		if c.Thorough {
			scs = append(scs, c.together(none, c.resets(a), c.encodes(good[last], b, 1)), c.together(none, c.resets(a), c.resets(b)))
		}
	}
	if c.decodable() && c.encodable() {
		scs = append(scs, c.together(none, c.decodes(good[0]), c.encodes(good[last], vals[last], 1)))
		if c.Thorough {
			scs = append(scs, c.together(none, c.decodes(good[0]), c.decodes(good[last]), c.encodes(good[last], vals[last], 1)), c.together(none, c.resets(vals[0]), c.decodes(good[last])))
		}
	}
	for _, s := range scs {
		if c.stop() {
			c.R.Complete = false
			return
		}
		c.interleave(s)
	}
}

// interleave runs a scene under all schedules with up to a number of
// preemptions.
func (c *Ctx) interleave(s scene) {
	ts, _ := s.mk()
	n := len(ts)
	// what each thread gets alone
	alone := make([]string, n)
	for i := 0; i < n; i++ {
		ts, look := s.mk()
		ts[i]()
		alone[i] = look()[i]
	}
	depth, limit := 1, 600
	feature := !strings.HasPrefix(c.E.ID, "S_") && !strings.HasPrefix(c.E.ID, "N_")
	if feature {
		depth, limit = 2, 1500
	}
	if c.Thorough {
		depth, limit = 2, 4000
		if feature {
			depth, limit = 3, 20000
		}
	}
	count, stuck := 0, 0
	try := func(script []preemption) *execution {
		ts, look := s.mk()
		e := run(ts, script)
		count++
		if e.free {
			stuck++
			return e
		}
		in := fmt.Sprintf("%s, switching at %v", s.name, script)
		c.R.Evaluations++
		// the nodes and edges which this schedule adds to the tree
		fresh := len(e.others)
		if len(script) > 0 {
			fresh -= script[len(script)-1].At
		}
		c.R.States += fresh
		c.R.Transitions += fresh
		c.R.Traces++
		tick.Add(1)
		got := look()
		for i := range got {
			if got[i] != alone[i] {
				i := i
				c.report(&Event{Class: "interleaving", Input: in, Outcome: got[i], Detail: fmt.Sprintf("thread %d gets %s, alone %s", i, got[i], alone[i])}, func() *Event {
					ts, look := s.mk()
					run(ts, script)
					if g := look()[i]; g != alone[i] {
						return &Event{Class: "interleaving", Input: in, Outcome: g}
					}
					return nil
				})
				break
			}
		}
		return e
	}
	// breadth first over the number of preemptions, so that a cut loses the
	// deepest schedules only
	cut := false
	type node struct {
		script []preemption
		others []uint8
	}
	frontier := []node{{nil, try(nil).others}}
	for d := 1; d <= depth && !cut; d++ {
		var next []node
		for _, f := range frontier {
			from := 0
			if len(f.script) > 0 {
				from = f.script[len(f.script)-1].At + 1
			}
			for p := from; p < len(f.others) && !cut; p++ {
				for t := 0; t < n && !cut; t++ {
					if f.others[p]>>t&1 == 0 {
						continue
					}
					if d > 1 && count >= limit || stuck > 2 {
						cut = true
						break
					}
					script := append(append([]preemption{}, f.script...), preemption{p, t})
					if e := try(script); !e.free && d < depth {
						next = append(next, node{script, e.others})
					}
				}
			}
		}
		frontier = next
	}
	if cut {
		c.R.Bounded = append(c.R.Bounded, fmt.Sprintf("%s: %s: not all schedules with %d preemptions", c.E.ID, s.name, depth))
	}
	if !c.seen[s.name] {
		c.seen[s.name] = true
		c.R.Distinct++
		c.sample(c.E.ID + " " + s.name)
	}
}
