package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	v "verif/vsched"
)

// em enumerates the cases of one property; a worker executes the share of its
// shard. The enumeration is deterministic, so that the shards partition it.
type em struct {
	prop     string
	thorough bool
	shard, n int
	idx      int // independent cases so far, of all shards: the same in every shard
	knode    int // subtrees of schedules so far, likewise
	ticks    int // of this shard
	deadline time.Time
	exec     func(c *Case) (string, stats) // runs one case
	stop     bool                          // a violation was found
	late     bool                          // the deadline passed: the rest was skipped
	group    string
	groups   []*groupStat
	cur      *groupStat
}

// groupStat counts what was covered of one part of the enumeration.
type groupStat struct {
	Name     string `json:"name"`
	Cases    int    `json:"cases"`
	Trans    int    `json:"transitions"`
	Complete bool   `json:"complete"`
	Sample   string `json:"sample"`
}

func (e *em) over() bool {
	if e.stop || e.late {
		return true
	}
	if e.ticks++; e.ticks&63 == 0 && time.Now().After(e.deadline) {
		e.late = true
	}
	return e.late
}

// q picks a bound by tier.
func (e *em) q(quick, thorough int) int {
	if e.thorough {
		return thorough
	}
	return quick
}

// part opens a part of the enumeration.
func (e *em) part(f string, a ...interface{}) {
	e.endPart()
	e.cur = &groupStat{Name: fmt.Sprintf(f, a...)}
	e.groups = append(e.groups, e.cur)
}

func (e *em) endPart() {
	if e.cur != nil {
		e.cur.Complete = !e.stop && !e.late
	}
}

func (e *em) one(c *Case) (string, stats) {
	m, st := e.exec(c)
	e.cur.Cases++
	e.cur.Trans += st.trans
	if e.cur.Sample == "" || e.cur.Cases == 50 {
		e.cur.Sample = c.String()
	}
	if m != "" {
		e.stop = true
	}
	return m, st
}

// do runs one independent case, if it belongs to this shard.
func (e *em) do(c *Case) {
	if e.over() {
		return
	}
	e.idx++
	if !e.mine(e.idx) {
		return
	}
	e.one(c)
}

// mine tells whether the i-th piece of work is of this shard.
func (e *em) mine(i int) bool { return int(uint32(i)*2654435761>>8)%e.n == e.shard }

// seq runs one sequential case.
func (e *em) seq(cfg, keys, pre, ops string, checks int) {
	if e.over() {
		return
	}
	e.idx++
	if !e.mine(e.idx) {
		return
	}
	e.one(&Case{Kind: "seq", Cfg: cfg, Keys: keys, Pre: pre, Ops: ops, Checks: checks})
}

// words enumerates every word over the alphabet with lengths lo..hi, shortest
// first. keep (optional) prunes: it tells whether words starting with w are wanted.
func (e *em) words(alphabet string, lo, hi int, keep func(w []string) bool, f func(ops string)) {
	al := strings.Fields(alphabet)
	for l := lo; l <= hi; l++ {
		w := make([]string, l)
		var rec func(i int)
		rec = func(i int) {
			if e.over() {
				return
			}
			if i == l {
				f(strings.Join(w, " "))
				return
			}
			for _, a := range al {
				w[i] = a
				if keep != nil && !keep(w[:i+1]) {
					continue
				}
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// perms enumerates the permutations of 0..n-1.
func perms(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for x := 0; x < n; x++ {
			if !used[x] {
				used[x] = true
				p[i] = x
				rec(i + 1)
				used[x] = false
			}
		}
	}
	rec(0)
}

// conc explores every schedule of a scenario with at most bound preemptions.
func (e *em) conc(c Case, bound int) {
	if e.over() {
		return
	}
	c.Kind = "conc"
	if c.Checks == 0 {
		c.Checks = ckGet | ckRange | ckItem | ckEnds | ckLen
	}
	e.part("%s bound=%d%s", c.String(), bound, map[bool]string{true: " (points at synchronisation only)"}[c.Coarse])
	if bound < 0 {
		return
	}
	e.schedules(c, bound, true)
}

// schedules runs c under every schedule with at most bound preemptions. The
// shards share them out, or (share is false) this one does all.
func (e *em) schedules(c Case, bound int, share bool) {
	exec := func(devs []v.Dev) (*v.Result, bool) {
		x := c
		x.Devs = append([]v.Dev(nil), devs...)
		m, st := e.one(&x)
		return st.res, m == ""
	}
	// The executions without preemptions have the biggest subtrees (another
	// thread first, another one after a thread ended): every shard runs the
	// first of them, and the subtrees below are dealt out one by one.
	var dfs func(devs []v.Dev, left int, shared bool)
	dfs = func(devs []v.Dev, left int, shared bool) {
		if e.over() {
			return
		}
		n, t := e.cur.Cases, e.cur.Trans
		res, ok := exec(devs)
		if shared && e.shard != 0 {
			e.cur.Cases, e.cur.Trans = n, t // counted once
		}
		if !ok || res == nil {
			return
		}
		for _, a := range alternatives(devs, res) {
			if a.cost > left {
				continue
			}
			sh := shared && a.cost == 0 && len(devs) < 2
			if shared && !sh {
				e.knode++
				if !e.mine(e.knode) {
					continue
				}
			}
			dfs(append(devs[:len(devs):len(devs)], a.d), left-a.cost, sh)
			if e.stop || e.late {
				return
			}
		}
	}
	dfs(nil, bound, share)
}

// programs explores every schedule of every pair of programs: all words of
// length 1..la over the alphabet a beside all of length 1..lb over b, from all
// the initial histories.
func (e *em) programs(cfgs, keys []string, bound, checks int, inits []string, a string, la int, b string, lb int) {
	for _, c := range cfgs {
		for _, k := range keys {
			for _, in := range inits {
				if e.over() {
					return
				}
				e.part("every pair of programs: words of length 1..%d over {%s} beside 1..%d over {%s}, after %q, [%s] keys %s, bound=%d (points at synchronisation only)", la, a, lb, b, in, c, k, bound)
				e.words(a, 1, la, nil, func(x string) {
					e.words(b, 1, lb, nil, func(y string) {
						if e.idx++; e.over() || !e.mine(e.idx) {
							return
						}
						e.schedules(Case{Kind: "conc", Cfg: c, Keys: k, Init: in, Threads: []string{x, y}, Checks: checks, Coarse: true}, bound, false)
					})
				})
			}
		}
	}
}

// trios explores every schedule of every three goroutines with one operation
// of the alphabet each.
func (e *em) trios(cfgs, keys []string, bound, checks int, inits []string, al string) {
	ops := strings.Fields(al)
	for _, c := range cfgs {
		for _, k := range keys {
			for _, in := range inits {
				if e.over() {
					return
				}
				e.part("every three operations of {%s} by three goroutines, after %q, [%s] keys %s, bound=%d (points at synchronisation only)", al, in, c, k, bound)
				for i, x := range ops {
					for j, y := range ops[i:] {
						for _, z := range ops[i+j:] {
							if e.idx++; e.over() || !e.mine(e.idx) {
								continue
							}
							e.schedules(Case{Kind: "conc", Cfg: c, Keys: k, Init: in, Threads: []string{x, y, z}, Checks: checks, Coarse: true}, bound, false)
						}
					}
				}
			}
		}
	}
}

func logf(f string, a ...interface{}) { fmt.Fprintf(os.Stderr, f+"\n", a...) }
