package main

import (
	"fmt"
	"io"
	"runtime/debug"
	"sort"
	"strings"

	smap "github.com/kazu/skiplistmap"

	v "verif/vsched"
)

// A concurrent case: Init runs sequentially, then the threads run under the
// scheduler, then everything observable is compared with what the recorded
// history allows, and After runs sequentially on the resulting map.

// event of a per-key history
type ev struct {
	th       int
	kind     byte // S set, D delete, G read
	m, key   int
	val      int // value set or read
	ok       bool
	inv, res int
	visit    int // how often a Range visited the key so far
}

type hkey struct{ m, k int }

type concRun struct {
	c    *Case
	ks   *keySet
	subj []*subject
	clk  int
	evs  []ev
	msgs []string
	init map[hkey]int
	grow map[int]bool // maps in which some thread inserts or deletes
	lens []lenRead
}

// lenRead is one call of Len.
type lenRead struct{ m, n, inv, res int }

func (c *concRun) tick() int { c.clk++; return c.clk }

func (c *concRun) badf(f string, a ...interface{}) { c.msgs = append(c.msgs, fmt.Sprintf(f, a...)) }

func opVal(th, i, key int) int { return (th+1)*100000 + (i+1)*1000 + key }

func (c *concRun) do(th, i int, o Op) {
	s := c.subj[o.M]
	m, ks := s.m, c.ks
	e := ev{th: th, m: o.M, key: o.A, inv: c.tick()}
	switch o.K {
	case 'S', 'T': // Set (T: the value is a string)
		e.kind, e.val = 'S', opVal(th, i, o.A)
		var x interface{} = e.val
		if o.K == 'T' {
			x = fmt.Sprint("s", e.val)
		}
		ok := s.set(ks, o.A, x)
		e.res = c.tick()
		if !ok {
			c.badf("Set returned false")
		}
		c.evs = append(c.evs, e)
	case 'I', 'F': // F: the object first stored for the key
		e.kind, e.val = 'S', opVal(th, i, o.A)
		ok := m.StoreItem(s.itemFor(ks, o.A, e.val, o.K == 'F'))
		e.res = c.tick()
		if !ok {
			c.badf("StoreItem returned false")
		}
		c.evs = append(c.evs, e)
	case 'J': // Set by hash
		e.kind, e.val = 'S', opVal(th, i, o.A)
		h, cf := s.hash(ks, o.A)
		ok := s.r.Set2(h, cf, ks.Keys[o.A], e.val)
		e.res = c.tick()
		if !ok {
			c.badf("Set2 returned false")
		}
		c.evs = append(c.evs, e)
	case 'U': // LoadItem, then SetValue (without effect when there is no item)
		it, ok := m.LoadItem(s.key(ks, o.A))
		if !ok {
			e.kind, e.res = 'G', c.tick()
			c.read(&e, nil)
			break
		}
		e.kind, e.val = 'S', opVal(th, i, o.A)
		if !it.SetValue(e.val) {
			c.badf("SetValue returned false")
		}
		e.res = c.tick()
		c.evs = append(c.evs, e)
	case 'E': // statistics
		if o.A == 2 {
			smap.ResetStats()
		} else {
			smap.EnableStats = o.A != 0
		}
		c.tick()
	case 'W': // dumps
		var w io.Writer = io.Discard
		if o.A == 1 { // the writer uses the map
			w = &observer{f: func() { s.get(ks, 0); m.Len() }}
		}
		m.DumpBucket(w)
		m.DumpEntry(w)
		m.DumpBucketPerLevel(w)
		c.tick()
	case 'D', 'P':
		e.kind = 'D'
		e.ok = s.del(ks, o.A, o.K == 'P')
		e.res = c.tick()
		c.evs = append(c.evs, e)
	case 'G', 'H':
		e.kind = 'G'
		var x interface{}
		if o.K == 'G' {
			x, e.ok = s.get(ks, o.A)
		} else {
			x, e.ok = s.getByHash(ks, o.A)
		}
		e.res = c.tick()
		c.read(&e, x)
	case 'L', 'K': // LoadItem (K: by hash), and the item's key and value
		e.kind = 'G'
		var it smap.MapItem
		var ok bool
		if o.K == 'L' {
			it, ok = m.LoadItem(s.key(ks, o.A))
		} else {
			it, ok = m.LoadItemByHash(s.hash(ks, o.A))
		}
		e.ok = ok
		var x interface{}
		if ok {
			if it.Key() != s.key(ks, o.A) {
				c.badf("LoadItem: item of another key")
			}
			x = it.Value()
		}
		e.res = c.tick()
		c.read(&e, x)
	case 'x': // a call the map cannot carry out
		s.refused(ks, o.A/10, o.A%10)
		c.tick()
	case 'N': // Len
		n := s.length()
		c.lens = append(c.lens, lenRead{o.M, n, e.inv, c.tick()})
	case 'O': // another map is made and used by this goroutine alone
		cnt := 700
		r := &seqRun{subject: s, ks: ks, ref: map[int]interface{}{}, items: map[int]smap.MapItem{}, cnt: &cnt}
		if msg := r.bystander(o.A); msg != "" {
			c.badf("%s", msg)
		}
		c.tick()
	case 'B': // observers of the structure: they must not disturb anybody
		m.First()
		m.Last()
		m.SearchKey(smapHash(s, ks, o.A))
		c.tick()
	case 'R', 'Q': // Range, RangeItem: every key is a read somewhere between start and end
		got := map[int]int{}
		last, first := uint64(0), true
		n := 0
		visit := func(k, x interface{}) bool {
			n++
			ki := s.index(ks, k)
			if ki < 0 {
				c.badf("Range: visited an entry that is no key")
				return true
			}
			r := ks.Rev[ki]
			if !first && r < last {
				c.badf("Range: out of order")
			}
			first, last = false, r
			got[ki]++
			g := ev{th: th, m: o.M, key: ki, kind: 'G', ok: true, inv: e.inv, visit: got[ki]}
			if y, ok := number(x); ok {
				g.val = y
			} else {
				c.badf("Range: entry without a value")
			}
			g.res = c.tick()
			c.evs = append(c.evs, g)
			return n < 1000
		}
		if o.K == 'R' {
			m.Range(visit)
		} else {
			m.RangeItem(func(it smap.MapItem) bool { return visit(it.Key(), it.Value()) })
		}
		t := c.tick()
		for k := range ks.Keys {
			if got[k] == 0 {
				c.evs = append(c.evs, ev{th: th, m: o.M, key: k, kind: 'G', inv: e.inv, res: t})
			}
		}
	default:
		panic("bad concurrent op " + o.String())
	}
}

// number of a value stored by S or T
func number(x interface{}) (n int, ok bool) {
	switch y := x.(type) {
	case int:
		return y, true
	case string:
		k, _ := fmt.Sscanf(y, "s%d", &n)
		return n, k == 1
	}
	return 0, false
}

func smapHash(s *subject, ks *keySet, k int) uint64 { h, _ := s.hash(ks, k); return h }

func (c *concRun) read(e *ev, x interface{}) {
	if e.ok {
		y, ok := number(x)
		if !ok {
			c.badf("read of key %d: present, but with %T %v", e.key, x, x)
		}
		e.val = y
	}
	c.evs = append(c.evs, *e)
}

// linearize tells whether the events of one key have a legal order.
func linearize(es []ev, present bool, val int) bool {
	if len(es) == 0 {
		return true
	}
	min := es[0].res
	for _, e := range es {
		if e.res < min {
			min = e.res
		}
	}
	for i, e := range es {
		if e.inv > min {
			continue
		}
		p, x := present, val
		switch e.kind {
		case 'S':
			p, x = true, e.val
		case 'D':
			if e.ok != present {
				continue
			}
			p, x = false, 0
		case 'G':
			if e.ok != present || e.ok && e.val != val {
				continue
			}
		}
		rest := make([]ev, 0, len(es)-1)
		rest = append(rest, es[:i]...)
		rest = append(rest, es[i+1:]...)
		if linearize(rest, p, x) {
			return true
		}
	}
	return false
}

// settled tells whether one of the updates came after all the opposite ones.
func settled(ups, opposite []ev) bool {
next:
	for _, u := range ups {
		for _, o := range opposite {
			if o.res > u.inv {
				continue next
			}
		}
		return true
	}
	return false
}

func (c *concRun) evString(e ev) string {
	s := ""
	switch e.kind {
	case 'S':
		s = fmt.Sprintf("set(%d)", e.val)
	case 'D':
		s = fmt.Sprintf("delete->%v", e.ok)
	case 'G':
		if e.ok {
			s = fmt.Sprintf("read->%d", e.val)
		} else {
			s = "read->absent"
		}
	}
	who := fmt.Sprintf("t%d", e.th)
	if e.th == 99 {
		who = "end"
	}
	return who + ":" + s
}

// judge checks the recorded history of every key.
func (c *concRun) judge() {
	by := map[hkey][]ev{}
	for _, e := range c.evs {
		k := hkey{e.m, e.key}
		by[k] = append(by[k], e)
	}
	for m := range c.subj {
		for k := range c.ks.Keys {
			es := by[hkey{m, k}]
			for _, e := range es {
				if e.visit > 1 {
					c.badf("Range: visited key %d %d times", k, e.visit)
				}
			}
			x, p := c.init[hkey{m, k}]
			if !linearize(es, p, x) {
				sort.SliceStable(es, func(i, j int) bool { return es[i].th < es[j].th })
				var s []string
				for _, e := range es {
					s = append(s, c.evString(e))
				}
				in := "absent"
				if p {
					in = fmt.Sprint(x)
				}
				c.badf("no legal order for key %d of map %d (initially %s): %s", k, m, in, strings.Join(s, ", "))
			}
		}
	}
	// Len may count an update early or late while it, or another one of the same
	// key, is under way; all others are counted.
	for _, l := range c.lens {
		lo, hi := 0, 0
		for k := range c.ks.Keys {
			_, p := c.init[hkey{l.m, k}]
			present, absent := p, !p // for certain
			var sets, dels []ev
			for _, e := range by[hkey{l.m, k}] {
				if e.kind != 'G' && e.inv <= l.res && e.res >= l.inv {
					present, absent, sets, dels = false, false, nil, nil
					break // an update of this key is under way
				}
				switch {
				case e.inv > l.res:
				case e.kind == 'S':
					sets = append(sets, e)
				case e.kind == 'D' && e.ok:
					dels = append(dels, e)
				}
			}
			present = present && len(dels) == 0 || settled(sets, dels)
			absent = absent && len(sets) == 0 || settled(dels, sets)
			if present {
				lo++
			}
			if !absent {
				hi++
			}
		}
		if l.n < lo || l.n > hi {
			c.badf("Len returned %d, between %d and %d keys were present", l.n, lo, hi)
		}
	}
}

// after compares the final maps with themselves (every way to observe one must
// agree) and runs the operations After against the model.
func (c *concRun) after() string {
	cnt := 500
	var runs []*seqRun
	for i, s := range c.subj {
		r := &seqRun{subject: s, ks: c.ks, ref: map[int]interface{}{}, items: nil, cnt: &cnt, checks: c.c.Checks}
		r.items = map[int]smap.MapItem{}
		for k := range c.ks.Keys {
			if x, ok := s.get(c.ks, k); ok {
				r.ref[k] = x
			}
		}
		if m := r.compare(c.c.Checks&^ckGet, false); m != "" {
			return fmt.Sprintf("afterwards, map %d: %s", i, m)
		}
		runs = append(runs, r)
	}
	for _, o := range parseOps(c.c.After) {
		r := runs[o.M]
		if s := r.apply(o); s != "" {
			return fmt.Sprintf("afterwards: %s: %s", o, s)
		}
		if s := r.compare(c.c.Checks, false); s != "" {
			return fmt.Sprintf("afterwards: %s: %s", o, s)
		}
	}
	return ""
}

// concExec runs the scenario once under the given deviations.
func concExec(cs *Case) (msg string, st stats) {
	c := &concRun{c: cs, ks: keysOf(cs.Keys), init: map[hkey]int{}}
	phase := "init"
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case v.StepLimitError:
				msg = phase + ": no termination (endless loop or recursion)"
			case v.DeadlockError:
				msg = phase + ": " + e.Error()
			default:
				msg = fmt.Sprintf("%s: panic: %v @ %s", phase, x, v.Where(string(debug.Stack())))
			}
		}
	}()
	v.Begin(seqLimit)
	resetGlobals()
	for _, cfg := range splitCfg(cs.Cfg) {
		c.subj = append(c.subj, newSubject(cfg))
	}
	for i, o := range parseOps(cs.Init) {
		v.Begin(seqLimit)
		c.do(9, i, o)
		st.trans++
	}
	for _, e := range c.evs {
		k := hkey{e.m, e.key}
		switch e.kind {
		case 'S':
			c.init[k] = e.val
		case 'D':
			delete(c.init, k)
		}
	}
	c.evs, c.lens = nil, nil
	var bodies []func()
	for t, prog := range cs.Threads {
		t, ops := t, parseOps(prog)
		bodies = append(bodies, func() {
			for i, o := range ops {
				v.Fresh()
				c.do(t, i, o)
			}
		})
	}
	phase = "threads"
	v.Coarse = cs.Coarse
	v.NoWait = 0
	if cs.Checks&ckNoWait != 0 {
		for t, prog := range cs.Threads {
			if !strings.ContainsAny(prog, "STIFJUDPWO") {
				v.NoWait |= 1 << uint(t)
			}
		}
	}
	res := v.Run(bodies, cs.Devs, maxPoints)
	st.res = res
	st.trans += res.Points
	if res.Err != "" {
		return res.Err, st
	}
	if len(res.Panics) > 0 {
		return res.Panics[0], st
	}
	phase = "afterwards"
	v.Begin(seqLimit)
	st.state = 14695981039346656037
	mix := func(x uint64) { st.state = (st.state ^ x) * 1099511628211; st.state ^= st.state >> 31 }
	for _, e := range c.evs {
		mix(uint64(e.th)<<40 | uint64(e.kind)<<32 | uint64(e.key)<<20 | uint64(e.val))
		if e.ok {
			mix(7)
		}
	}
	for m, s := range c.subj {
		for k := range c.ks.Keys {
			e := ev{th: 99, m: m, key: k, kind: 'G', inv: c.tick()}
			var x interface{}
			x, e.ok = s.get(c.ks, k)
			e.res = c.tick()
			c.read(&e, x)
		}
		mix(s.shape())
	}
	c.judge()
	if len(c.msgs) > 0 {
		return c.msgs[0], st
	}
	v.Begin(seqLimit)
	return c.after(), st
}

// alternatives lists the scheduling decisions that may follow devs.
type alt struct {
	d    v.Dev
	cost int
}

func alternatives(devs []v.Dev, res *v.Result) (out []alt) {
	start := 0
	if len(devs) > 0 {
		start = devs[len(devs)-1].Point + 1
	}
	for i, s := range res.Segs {
		end := res.Points
		if i+1 < len(res.Segs) {
			end = res.Segs[i+1].From - 1
		}
		if s.Free {
			if s.From < start {
				continue
			}
			for o := 0; o < 32; o++ {
				if s.Others&(1<<uint(o)) != 0 && o != s.Dflt {
					out = append(out, alt{v.Dev{Point: s.From, To: o}, 0})
				}
			}
			continue
		}
		if s.Others == 0 {
			continue
		}
		p := s.From
		if p < start {
			p = start
		}
		for ; p <= end; p++ {
			for o := 0; o < 32; o++ {
				if s.Others&(1<<uint(o)) != 0 {
					out = append(out, alt{v.Dev{Point: p, To: o}, 1})
				}
			}
		}
	}
	return
}
