package main

import (
	"fmt"
	"sort"
	"strings"

	smap "github.com/kazu/skiplistmap"

	v "verif/vsched"
)

// key sets by name, most discriminating first
var allKeys = []string{"one", "edge", "split", "coll", "spread", "dense", "edge2", "split2", "coll2", "coll0", "tail", "zero", "last", "deep"}

// configurations by kind of storage
var (
	cfgPlain = []string{"max=1", "max=2", "default"}
	cfgPool  = []string{"max=2 mode=5 pool", "mode=5 pool"}
	cfgEmb   = []string{"max=2 mode=4 emb", "max=3 mode=4 emb", "mode=4 emb"}
)

type prop struct {
	id  string
	run func(e *em)
}

// seqSweep enumerates all words over an alphabet on all given maps and key sets.
func (e *em) seqSweep(what string, cfgs, keys []string, alphabet string, lo, hi int, keep func([]string) bool, checks int) {
	for _, k := range keys {
		for _, c := range cfgs {
			e.part("%s: all words of length %d..%d over {%s}, [%s], keys %s", what, lo, hi, alphabet, c, k)
			e.words(alphabet, lo, hi, keep, func(ops string) { e.seq(c, k, "", ops, checks) })
			if e.over() {
				return
			}
		}
	}
}

// ramp fills a map with n keys in a given order (every n up to hi in steps), so
// that its structure grows, and compares everything at the end.
func (e *em) ramps(what string, cfgs []string, ramps []string, orders []string, sizes []int, tail func(n int) []string, checks int) {
	for _, c := range cfgs {
		for _, rp := range ramps {
			for _, o := range orders {
				e.part("%s: fill %s in order %s with %s keys, [%s]", what, rp, o, span(sizes), c)
				for _, n := range sizes {
					if strings.HasPrefix(o, "mul") && !coprime(o, n) {
						continue
					}
					pre := fmt.Sprintf("%s:S:0-%d", o, n)
					keys := rampKeys(rp, n)
					if tail == nil {
						e.seq(c, keys, "", entryOps(c, pre), checks)
						continue
					}
					for _, t := range tail(n) {
						e.seq(c, keys, entryOps(c, pre), entryOps(c, t), checks)
					}
				}
				if e.over() {
					return
				}
			}
		}
	}
}

// entryOps: maps of entries store items.
func entryOps(c, ops string) string {
	if strings.HasPrefix(c, "entry") {
		return strings.ReplaceAll(ops, "S", "I")
	}
	return ops
}

func coprime(o string, n int) bool {
	k := 0
	fmt.Sscanf(o, "mul%d", &k)
	for k != 0 {
		n, k = k, n%k
	}
	return n == 1
}

func span(a []int) string {
	if len(a) == 0 {
		return "no"
	}
	return fmt.Sprintf("%d..%d (%d sizes)", a[0], a[len(a)-1], len(a))
}

func rng(lo, hi int) (out []int) {
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return
}

func cat(a ...[]int) (out []int) {
	seen := map[int]bool{}
	for _, x := range a {
		for _, y := range x {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	sort.Ints(out)
	return
}

func strs(a ...string) []string { return a }

// positions of interest: around the boundaries of the sixteen first buckets,
// of the buckets below them, and the ends of the key space.
func edgePositions(thorough bool) (out []uint64) {
	add := func(x uint64) {
		for _, y := range out {
			if y == x {
				return
			}
		}
		out = append(out, x)
	}
	for _, b := range []uint64{0, 1 << 60, 8 << 60, 15 << 60} {
		for _, d := range []uint64{0, 1 << 59, 1 << 58, 3 << 58, 1 << 56} {
			add(b + d)
		}
		add(b + 1)
		add(b + (1<<60 - 1))
		if thorough {
			add(b + 1<<59 + 1)
			add(b + 1<<59 - 1)
			add(b + 1<<56 + 1)
			add(b + 15<<56)
			add(b + 1<<52)
			add(b + 1<<58 - 1)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// ordered tuples of positions (repetitions are colliding keys), stored in the
// order of the tuple.
func (e *em) tuples(cfgs []string, n int, pos []uint64, ops []string, checks int) {
	for _, c := range cfgs {
		e.part("all ordered %d-tuples of %d positions, then each of %d operation sequences, [%s]", n, len(pos), len(ops), c)
		t := make([]string, n)
		var rec func(i int)
		rec = func(i int) {
			if e.over() {
				return
			}
			if i == n {
				for _, o := range ops {
					e.seq(c, "rev:"+strings.Join(t, ","), "", o, checks)
				}
				return
			}
			for _, p := range pos {
				t[i] = fmt.Sprintf("%x", p)
				rec(i + 1)
			}
		}
		rec(0)
	}
}

// first operation must store something: words starting with reads, deletes of
// absent keys etc. are covered by shorter ones
func startsSet(w []string) bool {
	return strings.IndexByte("SITVYiFMXECOr", w[0][0]) >= 0
}

var concKeys = []string{"one", "dense", "spread"}

func sc(cfg, keys, init string, threads string, after string) Case {
	var t []string
	for _, x := range strings.Split(threads, "|") {
		t = append(t, strings.TrimSpace(x))
	}
	return Case{Cfg: cfg, Keys: keys, Init: init, Threads: t, After: after}
}

// concs explores a list of scenarios "init ; threads [; after]" for all the
// given maps and key sets.
func (e *em) concs(cfgs, keys []string, bound int, coarse bool, checks int, scen ...string) {
	for _, s := range scen {
		f := strings.Split(s, ";")
		after := ""
		if len(f) > 2 {
			after = strings.TrimSpace(f[2])
		}
		for _, k := range keys {
			for _, c := range cfgs {
				x := sc(c, k, strings.TrimSpace(f[0]), f[1], after)
				x.Coarse = coarse
				x.Checks = checks
				e.conc(x, bound)
				if e.over() {
					return
				}
			}
		}
	}
}

// marks counts the bucket heads among the linked entries.
func (s *subject) marks() (n int) {
	c := s.m.First().PtrMapHead()
	for i := 0; i < 100000; i++ {
		if c.IsDummy() {
			n++
		}
		nx := c.Next()
		if nx == &c.ListHead || nx.Empty() {
			break
		}
		c = smap.EmptyMapHead.FromListHead(nx).(*smap.MapHead)
	}
	return
}

// growsAt tells whether storing key x after the keys of pre adds a bucket.
// When the map cannot even do that sequentially, the answer is yes: exploring
// the scenario reports it.
func growsAt(cfg string, ks *keySet, pre []int, x int) (grows bool) {
	defer func() {
		if recover() != nil {
			grows = true
		}
	}()
	v.Begin(seqLimit)
	resetGlobals()
	s := newSubject(cfg)
	for _, k := range pre {
		v.Begin(seqLimit)
		s.set(ks, k, k)
	}
	v.Begin(seqLimit)
	a := s.marks()
	s.set(ks, x, x)
	return s.marks() != a
}

// growth explores an insertion that makes the map grow, next to another thread.
// Threads are written with the placeholders $x (key to insert), $G (reads of all
// keys), $f and $l (key stored first and last), $n (another key to insert).
func (e *em) growth(cfgs, ramps, orders []string, lo, hi, max, bound int, coarse bool, checks int, threads ...string) {
	for _, c := range cfgs {
		for _, rp := range ramps {
			for _, o := range orders {
				found := 0
				for n := lo; n <= hi && found < max; n++ {
					if e.over() {
						return
					}
					name := fmt.Sprintf("ramp:%s,%d", rp, n+2)
					ks := keysOf(name)
					seq := order(o, 0, n+2)
					if !growsAt(c, ks, seq[:n], seq[n]) {
						continue
					}
					found++
					op := "S"
					if strings.HasPrefix(c, "entry") {
						op = "I"
					}
					var init, reads []string
					for _, k := range seq[:n] {
						init = append(init, fmt.Sprint(op, k))
						reads = append(reads, fmt.Sprint("G", k))
					}
					r := strings.NewReplacer("$x", fmt.Sprint(seq[n]), "$n", fmt.Sprint(seq[n+1]), "$G", strings.Join(reads, " "), "$f", fmt.Sprint(seq[0]), "$l", fmt.Sprint(seq[n-1]), "$m", fmt.Sprint(seq[n/2]))
					for _, t := range threads {
						t = strings.ReplaceAll(t, "S$", op+"$")
						e.concs(strs(c), strs(name), bound, coarse, checks, strings.Join(init, " ")+" ; "+r.Replace(t))
					}
				}
			}
		}
	}
}
