package main

import (
	"fmt"
	"reflect"
	"strings"

	smap "github.com/kazu/skiplistmap"

	v "verif/vsched"
)

var optionNames = "max=1 max=7 mode=0 mode=2 mode=4 mode=5 pool+ pool- emb+ emb- itemfn entryfn"

func option(s string) smap.OptHMap {
	n := 0
	switch {
	case strings.HasPrefix(s, "max="):
		fmt.Sscanf(s, "max=%d", &n)
		return smap.MaxPefBucket(n)
	case strings.HasPrefix(s, "mode="):
		fmt.Sscanf(s, "mode=%d", &n)
		return smap.BucketMode(smap.SearchMode(n))
	}
	switch s {
	case "pool+", "pool-":
		return smap.UsePool(s == "pool+")
	case "emb+", "emb-":
		return smap.UseEmbeddedPool(s == "emb+")
	case "itemfn":
		return smap.ItemFn(func() smap.MapItem { return smap.EmptySampleHMapEntry })
	case "entryfn":
		return smap.ItemFn(func() smap.MapItem { return smap.EmptyEntryHMap })
	}
	panic("bad option " + s)
}

// settings of a map: its plain fields, and which optional parts it has.
func settings(m *smap.Map) string {
	var b strings.Builder
	x := reflect.ValueOf(m).Elem()
	for i := 0; i < x.NumField(); i++ {
		f := x.Field(i)
		n := x.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Bool:
			fmt.Fprintf(&b, "%s=%v ", n, f.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%s=%d ", n, f.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&b, "%s=%d ", n, f.Uint())
		case reflect.Ptr, reflect.Func:
			fmt.Fprintf(&b, "%s=%v ", n, !f.IsNil())
		}
	}
	fmt.Fprintf(&b, "items=%T", m.ItemFn())
	return b.String()
}

// optionsExec applies the options of Ops one after the other, undoes them in
// reverse order, redoes and undoes the last one again, and compares the settings
// after every step with the settings before. Then the map is used like one on
// which the options were never applied.
func optionsExec(c *Case) (string, stats) {
	st := stats{}
	m := newSubject(c.Cfg)
	ks := keysOf("ramp:1000000000000000,0100000000000000,24")
	var undo []smap.OptHMap
	before := []string{settings(m.m)}
	for _, w := range strings.Fields(c.Ops) {
		u := m.m.Options(option(w))
		st.trans++
		if len(u) != 1 || u[0] == nil {
			return w + " returned no previous option", st
		}
		undo = append(undo, u[0])
		before = append(before, settings(m.m))
		st.state = st.state*31 + hashString(settings(m.m))
	}
	for i := len(undo) - 1; i >= 0; i-- {
		redo := undo[i](m.m)
		st.trans++
		if s := settings(m.m); s != before[i] {
			return fmt.Sprintf("undoing option %d left %s, before it was %s", i, s, before[i]), st
		}
		if redo == nil {
			return "undoing an option returned no previous option", st
		}
		u := redo(m.m)
		if s := settings(m.m); s != before[i+1] {
			return fmt.Sprintf("redoing option %d left %s, it was %s", i, s, before[i+1]), st
		}
		u(m.m)
		if s := settings(m.m); s != before[i] {
			return fmt.Sprintf("undoing option %d again left %s, before it was %s", i, s, before[i]), st
		}
	}
	// all of them in one call: one previous option for each, in the same places
	var opts []smap.OptHMap
	for _, w := range strings.Fields(c.Ops) {
		opts = append(opts, option(w))
	}
	prev := m.m.Options(opts...)
	if len(prev) != len(opts) {
		return fmt.Sprintf("%d options returned %d previous options", len(opts), len(prev)), st
	}
	if s := settings(m.m); s != before[len(opts)] {
		return fmt.Sprintf("all options in one call set %s, one by one %s", s, before[len(opts)]), st
	}
	for i := len(prev) - 1; i >= 0; i-- {
		m.m.Options(prev[i])
		if s := settings(m.m); s != before[i] {
			return fmt.Sprintf("undoing option %d of one call left %s, before it was %s", i, s, before[i]), st
		}
	}
	fresh := newSubject(c.Cfg)
	for k := range ks.Keys {
		v.Begin(seqLimit)
		m.set(ks, k, k)
		v.Begin(seqLimit)
		fresh.set(ks, k, k)
		st.trans += 2
	}
	for k := range ks.Keys {
		v.Begin(seqLimit)
		if x, ok := m.get(ks, k); !ok || x != k {
			return "after undoing all options: Get of a stored key is wrong", st
		}
	}
	if m.shape() != fresh.shape() {
		return "after undoing all options: the map is organised differently", st
	}
	return "", st
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func optionCases(e *em) {
	for _, c := range strs("default", "max=3 mode=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.part("all sequences of at most %d of the options {%s} on a new map, then undone, [%s]", e.q(3, 4), optionNames, c)
		e.words(optionNames, 0, e.q(3, 4), nil, func(w string) { e.do(&Case{Kind: "fn", Fn: "options", Cfg: c, Ops: w}) })
	}
	// options changed while the map is in use, and undone
	for _, c := range strs("max=2", "default", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		for _, k := range strs("one", "split") {
			e.part("bucket size and search mode changed and undone in use: all words of length 2..%d, [%s], keys %s", e.q(5, 6), c, k)
			e.words("S0 S1 S2 S3 X1 X8 M0 M2 Z", 2, e.q(5, 6), startsSet, func(ops string) {
				if strings.ContainsAny(ops, "XM") {
					e.seq(c, k, "", ops, ckGet|ckRange)
				}
			})
		}
	}
}

func hashCases(e *em) {
	e.part("all words of length up to %d over four bytes", e.q(5, 7))
	for l := 0; l <= e.q(5, 7); l++ {
		e.do(&Case{Kind: "fn", Fn: "hashbytes", N: []int64{0, int64(l)}})
	}
	e.part("all lengths up to %d, every single byte changed", e.q(140, 300))
	for l := 0; l <= e.q(140, 300); l++ {
		e.do(&Case{Kind: "fn", Fn: "hashbytes", N: []int64{1, int64(l)}})
	}
	e.part("long keys")
	for _, l := range []int{255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8191, 8193, 16383, 16385, 32767, 32769, 65535, 65536, 65537, 100000, 131073, 262145, 1048577} {
		e.do(&Case{Kind: "fn", Fn: "hashbytes", N: []int64{2, int64(l)}})
	}
	e.part("integers around every power of two and up to %d", e.q(70000, 300000))
	e.do(&Case{Kind: "fn", Fn: "hashints", N: []int64{int64(e.q(70000, 300000))}})
	for _, c := range strs("max=1", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.seqSweep("string and []byte keys", strs(c), strs("one", "coll"), "S0 S1 S2 D0 P1", 1, e.q(4, 6), nil, ckGet|ckBytes|ckItem)
	}
}

// lookupCases: keys all over the key space, so that buckets can split as they fill.
func lookupCases(e *em) {
	od := strs("up", "down", "bit")
	if e.thorough {
		od = orderSet
	}
	for _, c := range strs("default", "max=4", "max=2", "mode=0", "mode=2", "mode=4", "max=4 mode=0", "max=4 mode=2", "mode=5 pool", "max=4 mode=5 pool", "max=4 itemfn", "entry max=4", "mode=4 emb", "max=8 mode=4 emb", "max=2 mode=4 emb") {
		e.part("lookups of all keys spread over the key space by every operation, present and absent, before and after deletions, [%s]", c)
		emb, small := strings.Contains(c, "emb"), strings.Contains(c, "max=")
		for _, o := range od {
			for _, n := range e.sizes34() {
				if strings.HasPrefix(o, "mul") && !coprime(o, n) {
					continue
				}
				worst, mean := lookupWorst, lookupMean
				switch {
				case emb:
					worst, mean = 1300, 900
				case small:
					worst, mean = 3300, 2000
				}
				if small && n > 13000 && o != "up" && !e.thorough {
					continue
				}
				e.do(&Case{Kind: "fn", Fn: "lookup", Cfg: c, Keys: fmt.Sprintf("ramp:0,9e3779b97f4a7c15,%d", n), Ops: o, N: []int64{int64(n), int64(worst), int64(mean)}})
				for i, w := range strs("absent", "hash", "item", "itemhash", "search", "set", "D", "P", "Ditem", "Pitem", "Dabsent", "Phash", "Psearch") {
					if n > 3200 && (!e.thorough || n > 13000) && (o != "up" || w != "item" || n > 13000) {
						continue
					}
					if w == "set" && strings.HasPrefix(c, "entry") || n == 400 && o != "up" && i > 5 {
						continue
					}
					e.do(&Case{Kind: "fn", Fn: "lookup", Cfg: c, Keys: fmt.Sprintf("ramp:0,9e3779b97f4a7c15,%d", n), Ops: o, Pre: w, N: []int64{int64(n), int64(worst), int64(mean)}})
				}
				if n <= 3200 {
					e.do(&Case{Kind: "fn", Fn: "lookup", Cfg: c, Keys: fmt.Sprintf("ramp:0,0123456789abcdef,%d", n), Ops: o, N: []int64{int64(n), lookupWorst, lookupMean}})
				}
			}
		}
	}
}

// Bounds on the steps of a lookup. On the tree as it stands no lookup of evenly
// spread keys takes more than 3200 (the mean is below 1200) with buckets of 32
// items, 1200 (700) with small buckets, 400 (320) with embedded items, whatever
// the number of keys; a scan of the list of 3200 keys takes 30,000, and 15,000 in
// the mean.
const lookupWorst, lookupMean = 7000, 3000

func (e *em) sizes34() []int {
	if e.thorough {
		return []int{100, 400, 900, 1600, 2400, 3200, 6400, 12800, 25600, 51200}
	}
	return []int{400, 3200, 12800, 25600}
}
