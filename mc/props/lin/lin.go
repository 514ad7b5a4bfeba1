// Package lin explores every schedule of small concurrent programs and holds
// what the calls returned and left behind against every sequential order.
package lin

import (
	"fmt"
	"strings"
	"sync"

	"verif.local/mc/core"
	"verif.local/mc/vsched"
)

// World is one instance of what the calls act on.
type World interface {
	Do(call int) string
	// Final is what can be seen once the calls are through.
	Final() string
}

// Kit names the calls and makes worlds. Ref makes the ones the sequential
// orders run on.
type Kit struct {
	Name     string
	Calls    []string
	Sut, Ref func() World
	// Agree compares a result with a sequential order's; nil: they are equal.
	Agree func(call int, want, got string) bool
	// Check looks at the world under test after everything else; may be nil.
	Check func(c *core.C, w World)
}

// end closes worlds that need closing.
func end(w World) {
	if c, ok := w.(interface{ End() }); ok {
		c.End()
	}
}

// Prog is what each thread calls.
type Prog [][]int

func (k Kit) show(p Prog) string {
	var ts []string
	for _, t := range p {
		var os []string
		for _, o := range t {
			os = append(os, k.Calls[o])
		}
		ts = append(ts, strings.Join(os, "; "))
	}
	return strings.Join(ts, " || ")
}

func (p Prog) call(id int) int {
	for _, t := range p {
		if id < len(t) {
			return t[id]
		}
		id -= len(t)
	}
	panic("no such call")
}

type outcome struct {
	order []int
	res   []string
	final string
}

func (k Kit) outcomes(p Prog) (out []outcome) {
	pos, ids, n := make([]int, len(p)), make([]int, len(p)), 0
	for t := range p {
		ids[t] = n
		n += len(p[t])
	}
	var order []int
	var rec func()
	rec = func() {
		if len(order) == n {
			w := k.Ref()
			o := outcome{order: append([]int(nil), order...), res: make([]string, n)}
			for _, id := range order {
				o.res[id] = w.Do(p.call(id))
			}
			o.final = w.Final()
			end(w)
			out = append(out, o)
			return
		}
		for t := range p {
			if pos[t] == len(p[t]) {
				continue
			}
			order = append(order, ids[t]+pos[t])
			pos[t]++
			rec()
			pos[t]--
			order = order[:len(order)-1]
		}
	}
	rec()
	return out
}

// Body explores every schedule of every program.
func Body(k Kit, progs []Prog, opt vsched.Options) func(c *core.C) {
	memo := make([]func() []outcome, len(progs))
	for i, p := range progs {
		memo[i] = sync.OnceValue(func() []outcome { return k.outcomes(p) })
	}
	return func(c *core.C) {
		i := c.Choose(len(progs))
		p := progs[i]
		want := memo[i]()
		w := k.Sut()
		defer end(w)
		n := 0
		for _, t := range p {
			n += len(t)
		}
		res, inv, ret := make([]string, n), make([]int, n), make([]int, n)
		var threads []func()
		id := 0
		for _, t := range p {
			first := id
			id += len(t)
			threads = append(threads, func() {
				for j, o := range t {
					inv[first+j] = vsched.Now()
					res[first+j] = w.Do(o)
					ret[first+j] = vsched.Now()
				}
			})
		}
		races := vsched.RaceErrors()
		out := vsched.Run(c.Choose, opt, threads...)
		var trail []string
		for i := range n {
			trail = append(trail, fmt.Sprintf("[%d,%d] %s: %s", inv[i], ret[i], k.Calls[p.call(i)], res[i]))
		}
		c.Step()
		name := k.show(p)
		c.Logf("%s: %s", name, strings.Join(trail, "; "))
		switch {
		case out.Panic != nil:
			c.FailPanic(out.Panic, out.Stack)
		case out.Deadlock != "":
			c.Fail("deadlock:"+name, "%s on %s: no thread can go on: %s", name, k.Name, out.Deadlock)
		case out.Endless:
			c.Fail("endless:"+name, "%s on %s does not come to an end within %d steps", name, k.Name, opt.MaxPoints)
		}
		if vsched.RaceErrors() > races {
			c.Fail("race:"+name, "%s on %s: the calls access the same memory with nothing ordering the accesses\n%s", name, k.Name, core.RaceReport())
		}
		final := w.Final()
		c.Outcome(fmt.Sprintf("%d switches", out.Switches))
		c.Distinct(name + strings.Join(res, "|") + final)
		if k.Check != nil {
			k.Check(c, w)
		}
		var why []string
	orders:
		for _, o := range want {
			at := make([]int, n)
			for i, id := range o.order {
				at[id] = i
			}
			for a := range n {
				for b := range n {
					if ret[a] < inv[b] && at[a] > at[b] {
						continue orders
					}
				}
			}
			diff := ""
			for id := range n {
				if o.res[id] != res[id] && (k.Agree == nil || !k.Agree(p.call(id), o.res[id], res[id])) {
					diff = fmt.Sprintf("%s gives %q", k.Calls[p.call(id)], o.res[id])
					break
				}
			}
			if diff == "" && o.final != final {
				diff = "it ends as\n" + o.final
			}
			if diff == "" {
				return
			}
			why = append(why, fmt.Sprintf("in order %v %s", o.order, diff))
		}
		c.Fail("order:"+name, "%s: no order of the calls explains what they returned and left behind\n%s\nends as\n%s\n%s",
			k.Name, strings.Join(trail, "\n"), final, strings.Join(why, "\n"))
	}
}

// Pairs is every unordered pair of calls, each on a thread of its own.
func Pairs(n int) (out []Prog) {
	for a := range n {
		for b := a; b < n; b++ {
			out = append(out, Prog{{a}, {b}})
		}
	}
	return out
}

// TwoOne is every two calls of first against one of other.
func TwoOne(first, other []int) (out []Prog) {
	for _, a := range first {
		for _, b := range first {
			for _, o := range other {
				out = append(out, Prog{{a, b}, {o}})
			}
		}
	}
	return out
}

// Triples is every unordered triple, each on a thread of its own.
func Triples(of []int) (out []Prog) {
	for i, a := range of {
		for j, b := range of[i:] {
			for _, d := range of[i+j:] {
				out = append(out, Prog{{a}, {b}, {d}})
			}
		}
	}
	return out
}
