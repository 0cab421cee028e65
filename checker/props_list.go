package main

import (
	"fmt"
	"strings"
)

var props []prop

func init() {
	props = []prop{
		{"C01", c01}, {"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C07", c07}, {"C08", c08},
		{"C09", c09}, {"C10", c10}, {"C11", c11}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16},
		{"C17", c17}, {"C18", c18}, {"C19", c19}, {"C20", c20}, {"C21", c21}, {"C22", c22}, {"C23", c23}, {"C24", c24},
		{"C25", c25}, {"C26", c26}, {"C27", c27}, {"C28", c28}, {"C29", c29}, {"C30", c30}, {"C31", c31}, {"C32", c32},
		{"C33", c33}, {"C34", c34}, {"C35", c35}, {"C36", c36}, {"CX", cx},
	}
}

const ckBasic = ckGet | ckRange

// every way of storing and searching
var cfgAll = cfgs("max=1 | max=2 | default | max=2 itemfn | max=2 mode=0 | max=2 mode=2 | max=1 mode=3 | max=2 mode=5 pool | mode=5 pool | max=2 pool | max=2 mode=4 emb | max=3 mode=4 emb | mode=4 emb")

// one of each kind
var cfgKinds = cfgs("max=1 | max=2 | max=2 mode=5 pool | max=2 mode=4 emb")

// unusual limits of items per bucket
var limitCfgs = cfgs("max=64 | max=1000 | max=100000 mode=5 pool | max=64 mode=4 emb | max=100000 mode=4 emb")

func cfgs(s string) (out []string) {
	for _, f := range strings.Split(s, "|") {
		out = append(out, strings.TrimSpace(f))
	}
	return
}

// C01: Get returns the value of the latest Set.
func c01(e *em) {
	e.seqSweep("Set", cfgAll, allKeys, "S0 S1 S2 S3 S4", 0, e.q(5, 6), nil, ckGet|ckItem)
	e.seqSweep("Set", strs("max=3", "max=4"), strs("one", "split", "edge", "coll"), "S0 S1 S2 S3 S4", 4, e.q(5, 7), nil, ckGet|ckItem)
	e.seqSweep("Set of any text", cfgKinds, strs("text:5"), "S0 S1 S2 S3 S4", 1, e.q(5, 6), nil, ckGet|ckItem|ckBytes)
	e.seqSweep("Set of any value", cfgAll, strs("one", "coll"), "S0 T0 V0 T1 S1 V2", 1, e.q(4, 6), nil, ckGet|ckItem)
	e.seqSweep("Set", limitCfgs, strs("one", "split"), "S0 S1 S2 S3", 1, e.q(5, 6), nil, ckGet|ckItem)
	e.texts(cfgAll, strs("up", "down", "bit"), func(n int) []string { return strs(fmt.Sprintf("down:S:0-%d", n)) }, ckGet|ckItem|ckBytes)
	e.again("overwriting", cfgAll, "S0", ckGet|ckItem|ckLen)
	e.ramps("overwriting after growth", cfgAll, cat2(rampSet, geoSet), strs("up", "bit"), e.gaps(rng(6, e.q(40, 60)), e.q(7, 3)),
		func(n int) []string { return strs(fmt.Sprintf("zig:S:0-%d", n)) }, ckGet|ckItem)
	e.big("overwriting", cfgKinds, func(n int) []string { return strs(fmt.Sprintf("bit:S:0-%d", n)) }, ckGet|ckItem)
}

// again: the same change of one or two keys, among others, very often.
func (e *em) again(what string, cfgs []string, w string, checks int) {
	for _, c := range cfgs {
		e.part("%s: {%s} again and again, alone, between neighbours, and in a grown map, [%s]", what, w, c)
		for _, n := range []int{17, 70, 140, 300} {
			ops := strings.TrimSpace(strings.Repeat(w+" ", n))
			for _, k := range strs("one", "edge", "split") {
				for _, init := range strs("", "S0", "S0 S1", "S1 S2", "S1 S2 S3 S4 S0", "up:S:0-5 up:D:0-5") {
					e.seq(c, k, entryOps(c, init), entryOps(c, ops), checks)
				}
				two := strings.ReplaceAll(w, "0", "1")
				e.seq(c, k, entryOps(c, "S2 S3"), entryOps(c, strings.TrimSpace(strings.Repeat(w+" "+two+" ", n))), checks)
			}
			e.seq(c, "ramp:1000000000000000,0008000000000000,40", entryOps(c, "bit:S:0-40"), entryOps(c, ops), checks)
			e.seq(c, "ramp:1000000000000000,0008000000000000,40", entryOps(c, "up:S:0-40"), entryOps(c, strings.ReplaceAll(ops, "0", "39")), checks)
		}
	}
}

func cat2(a ...[]string) (out []string) {
	for _, x := range a {
		out = append(out, x...)
	}
	return
}

// big: maps of thousands of keys, then changes.
func (e *em) big(what string, cfgs []string, tail func(n int) []string, checks int) {
	for _, n := range []int{1100, e.q(3001, 9001)} {
		e.ramps(what+" of thousands of keys", cfgs, []string{"0,0007000000000000", "1000000000000000,0000800000000000"}, strs("bit"), []int{n}, tail, checks)
		e.ramps(what+" of thousands of keys", cfgs, []string{"0123456789abcdef,0fedcba987654321"}, strs("up"), []int{n}, tail, checks)
	}
}

func bigChanges(d string) func(n int) []string {
	return func(n int) []string {
		return strs(fmt.Sprintf("bit:%[1]s:0-%[2]d up:S:%[3]d-%[2]d zig:%[1]s:%[4]d-%[2]d", d, n, n/3, n-n/4))
	}
}

// texts: keys of ordinary contents, from the empty key to long ones.
func (e *em) texts(cfgs, orders []string, tail func(n int) []string, checks int) {
	for _, c := range cfgs {
		e.part("keys of any content: fill with texts, then changes, [%s]", c)
		for _, n := range []int{1, 2, 5, 18, 40, e.q(200, 1000)} {
			for _, o := range orders {
				ts := strs("")
				if tail != nil {
					ts = tail(n)
				}
				for _, t := range ts {
					e.seq(c, fmt.Sprintf("text:%d", n), "", strings.TrimSpace(fmt.Sprintf("%s:S:0-%d %s", o, n, t)), checks)
				}
			}
		}
	}
}

// C02: a deleted key is absent until it is set again.
func c02(e *em) {
	keep := startsSet
	e.seqSweep("Set/Delete", cfgAll, strs("one", "split", "edge", "coll", "coll2", "dense"), "S0 S1 S2 D0 D1 D2", 1, e.q(5, 7), keep, ckGet|ckItem|ckSearch)
	e.seqSweep("Set/Delete", cfgKinds, strs("one", "edge2", "split2", "tail"), "S0 S1 S2 S3 D0 D1 D2 D3", 1, e.q(4, 6), keep, ckGet|ckItem|ckRange)
	e.seqSweep("Set/Delete of items", strs("max=2", "entry max=2", "max=2 itemfn"), strs("one", "edge", "split"), "I0 I1 I2 D0 D1 D2", 1, e.q(5, 7), keep, ckGet|ckItem|ckSearch)
	// delete and re-set in a grown map
	e.ramps("Delete after growth", cfgKinds, strs("1000000000000000,0080000000000000", "0,1000000000000000", "1100000000000000,1"), strs("up", "down", "bit"),
		e.gaps(rng(3, e.q(12, 16)), 1), delTails, ckGet|ckItem|ckLen)
	e.ramps("Delete after growth", cfgAll, cat2(rampSet, geoSet), strs("up", "bit"), e.gaps(rng(20, e.q(56, 58)), e.q(17, 5)), cycles("D"), ckGet|ckItem|ckLen|ckRange)
	e.ramps("Delete after growth", cfgAll, rampSet, strs("up", "bit"), []int{65, 130, e.q(260, 500)}, cycles("D"), ckGet|ckItem|ckLen|ckRange)
	e.seqSweep("Set/Delete of any values", cfgAll, strs("one", "coll"), "T0 V0 V1 T1 D0 D1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.texts(cfgKinds, strs("up", "down"), cycles("D"), ckGet|ckItem|ckBytes)
	e.texts(cfgKinds, strs("up"), func(n int) []string { return strs(fmt.Sprintf("bit:d:0-%d down:S:%d-%d", n, n/2, n)) }, ckGet|ckItem|ckBytes)
	e.seqSweep("Delete by byte slice", cfgKinds, strs("one", "coll"), "S0 S1 d0 d1 D0 d2", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.again("Set and Delete", cfgAll, "S0 D0", ckGet|ckItem|ckRange|ckLen)
	e.again("Delete and Set", cfgAll, "D0 S0", ckGet|ckItem|ckRange|ckLen)
	e.big("Delete", cfgKinds, bigChanges("D"), ckGet|ckItem|ckRange|ckLen)
}

// cycles: keys removed and stored again, again and again.
func cycles(d string) func(n int) []string {
	return func(n int) []string {
		var w []string
		for i := 0; i < n; i++ { // a moving gap
			w = append(w, fmt.Sprintf("%s%d", d, i))
			if i >= 2 {
				w = append(w, fmt.Sprintf("S%d", i-2))
			}
		}
		return strs(
			fmt.Sprintf("up:%[1]s:0-%[2]d up:S:0-%[2]d down:%[1]s:0-%[2]d bit:S:0-%[2]d", d, n),
			fmt.Sprintf("bit:%[1]s:0-%[3]d down:S:0-%[3]d zig:%[1]s:0-%[2]d", d, n, n/2),
			strings.Join(w, " "),
			strings.ReplaceAll(strings.Join(w, " "), d+"0 ", d+"0 "+d+"0 "))
	}
}

// gaps keeps every k-th element.
func (e *em) gaps(a []int, k int) (out []int) {
	for i, x := range a {
		if i%k == 0 {
			out = append(out, x)
		}
	}
	return
}

// delTails: every single key deleted; every pair deleted and the first set again.
func delTails(n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("D%d D%d", i, i), fmt.Sprintf("D%d S%d", i, i))
		for j := 0; j < n; j++ {
			if j != i {
				out = append(out, fmt.Sprintf("D%d D%d S%d D%d", i, j, i, j))
			}
		}
	}
	out = append(out, fmt.Sprintf("up:D:0-%d", n), fmt.Sprintf("down:D:0-%d", n), fmt.Sprintf("up:D:0-%d down:S:0-%d", n, n), fmt.Sprintf("zig:D:0-%d up:S:0-%d up:D:0-%d", n, n, n))
	return
}

func purgeTails(n int) (out []string) {
	for _, s := range delTails(n) {
		out = append(out, strings.NewReplacer("D", "P").Replace(s))
	}
	return
}

// C03: Purge removes a key like Delete does, and mixes with it.
func c03(e *em) {
	e.seqSweep("Set/Purge", cfgAll, strs("one", "split", "edge", "coll", "coll2"), "S0 S1 S2 P0 P1 P2", 1, e.q(5, 7), startsSet, ckGet|ckItem|ckSearch)
	e.seqSweep("Set/Delete/Purge", cfgKinds, strs("one", "edge", "coll"), "S0 S1 S2 D0 D1 P0 P1", 1, e.q(5, 7), startsSet, ckGet|ckItem|ckRange)
	e.seqSweep("Purge of items", strs("max=2", "entry max=2", "max=1 itemfn"), strs("one", "edge", "split"), "I0 I1 I2 D0 P0 P1 P2", 1, e.q(5, 7), startsSet, ckGet|ckItem|ckRange)
	e.ramps("Purge after growth", cfgKinds, strs("1000000000000000,0080000000000000", "1100000000000000,1"), strs("up", "down", "bit"),
		rng(3, e.q(12, 16)), purgeTails, ckGet|ckItem|ckLen|ckRange)
	e.ramps("Purge after growth", cfgAll, cat2(rampSet, geoSet), strs("up", "bit"), e.gaps(rng(20, e.q(56, 58)), e.q(17, 5)), cycles("P"), ckGet|ckItem|ckLen|ckRange)
	e.ramps("Purge after growth", cfgAll, rampSet, strs("up", "bit"), []int{65, 130, e.q(260, 500)}, cycles("P"), ckGet|ckItem|ckLen|ckRange)
	e.seqSweep("Set/Purge of any values", cfgAll, strs("one", "coll"), "T0 V0 V1 T1 P0 P1 D1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.texts(cfgKinds, strs("up", "down"), cycles("P"), ckGet|ckItem|ckBytes)
	e.texts(cfgKinds, strs("up"), func(n int) []string { return strs(fmt.Sprintf("bit:p:0-%d down:S:%d-%d", n, n/2, n)) }, ckGet|ckItem|ckBytes)
	e.seqSweep("Purge by byte slice", cfgKinds, strs("one", "coll"), "S0 S1 p0 p1 P0 d1 p2", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.again("Set and Purge", cfgAll, "S0 P0", ckGet|ckItem|ckRange|ckLen)
	e.again("Purge and Set", cfgAll, "P0 S0", ckGet|ckItem|ckRange|ckLen)
	e.again("Purge, Set, Delete, Set", cfgAll, "P0 S0 D0 S0", ckGet|ckItem|ckRange|ckLen)
	e.big("Purge", cfgKinds, bigChanges("P"), ckGet|ckItem|ckRange|ckLen)
}

// C04: Range visits every present key exactly once, in order, until told to stop.
func c04(e *em) {
	e.seqSweep("Range", cfgAll, strs("one", "split", "edge", "coll", "coll0", "tail"), "S0 S1 S2 D0 D1 D2 P0 P1", 0, e.q(4, 6), startsSet, ckRange|ckEarly)
	e.seqSweep("Range", cfgKinds, allKeys, "S0 S1 S2 S3 S4", 1, e.q(5, 6), nil, ckRange|ckEarly)
	for _, c := range strs("max=2 mode=5 pool", "max=2 mode=4 emb", "max=2") {
		e.seqSweep("Range", strs(c), strs("one", "split", "edge"), "S0 S1 S2 S3 D0 D1 P2", 1, e.q(5, 6), startsSet, ckRange|ckEarly)
	}
	e.seqSweep("Range over any values", cfgAll, strs("one", "edge", "coll0"), "T0 T1 V0 Y1 S2 D0 P1", 1, e.q(4, 5), startsSet, ckRange|ckEarly)
	e.seqSweep("Range over any values", strs("entry max=2"), strs("one", "edge"), "T0 T1 V0 Y1 I2 D0 P1", 1, e.q(4, 5), startsSet, ckRange|ckEarly)
	e.seqSweep("Range over any values", cfgKinds, strs("one"), "i0 i1 V2 u0 u1 D0 P1", 1, e.q(4, 5), startsSet, ckRange|ckEarly)
	e.seqSweep("Range over items", strs("entry max=1", "entry max=2", "max=2 itemfn"), strs("one", "edge", "tail"), "I0 I1 I2 I3 D0 D1 P2", 1, e.q(4, 6), startsSet, ckRange|ckEarly)
	e.ramps("Range after growth", cat2(cfgAll, strs("max=3", "max=4 mode=4 emb")), cat2(rampSet, geoSet), orderSet, e.gaps(rng(5, e.q(58, 58)), e.q(11, 5)), nil, ckRange|ckEarly)
	e.ramps("Range after growth", cat2(cfgAll, strs("max=3", "max=4 mode=4 emb")), rampSet, strs("up", "bit"), []int{100, 150, 300, e.q(700, 2000)}, nil, ckRange|ckEarly)
	e.ramps("Range after changes", cfgKinds, cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles("D"), ckRange|ckEarly)
	e.ramps("Range after changes", cfgKinds, cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles("P"), ckRange|ckEarly)
	for _, d := range strs("D", "P") {
		e.ramps("Range after changes", cfgAll, rampSet, strs("up", "bit"), []int{65, 130, e.q(260, 500)}, cycles(d), ckRange|ckEarly)
	}
	e.ramps("Range over any values after growth", cfgAll, rampSet, strs("bit"), []int{10, 40, 70, 130}, func(n int) []string {
		return strs(fmt.Sprintf("up:T:0-%d", n), fmt.Sprintf("up:V:0-%d down:T:%d-%d", n, n/2, n), fmt.Sprintf("up:P:0-%d up:V:0-%d", n, n), fmt.Sprintf("up:D:0-%d zig:T:0-%d", n, n))
	}, ckRange|ckEarly)
	e.texts(cfgKinds, strs("up", "down"), cycles("D"), ckRange|ckEarly)
	e.big("Range", cfgAll, nil, ckRange|ckEarly)
	e.big("Range", cfgKinds, bigChanges("D"), ckRange|ckEarly)
}

var rampSet = strs("1000000000000000,0008000000000000", "1100000000000000,1", "0,0123456789abcdef", "f000000000000000,0007ffffffffffff")
var orderSet = strs("up", "down", "zig", "mid", "bit", "mul7")

// keys ever closer to one position (at most 58 of them): buckets nest as deep as they can
var geoSet = strs("geo:1000000000000000,0400000000000000", "neg:2000000000000000,0400000000000000", "geo:1555555555555555,0400000000000000", "neg:0,0c00000000000000")

// C05: Len is the number of present keys.
func c05(e *em) {
	e.seqSweep("Len", cfgAll, strs("one", "edge", "coll"), "S0 S1 S2 D0 D1 P0 P2 I1", 0, e.q(4, 6), nil, ckLen)
	e.seqSweep("Len", cfgKinds, strs("one", "split"), "S0 S1 S2 D0 D1 P0 I1", 5, e.q(5, 6), startsSet, ckLen)
	e.seqSweep("Len", strs("entry max=2", "entry max=1", "entry"), strs("one", "edge"), "I0 I1 I2 D0 D1 P0 P2", 0, e.q(4, 6), nil, ckLen)
	e.ramps("Len after growth", strs("max=1", "default", "max=2 mode=5 pool", "mode=5 pool", "mode=4 emb", "max=2 mode=4 emb"), rampSet, strs("up", "down", "bit"), e.gaps(rng(4, e.q(140, 300)), e.q(8, 3)),
		func(n int) []string {
			return strs(fmt.Sprintf("up:D:0-%d", n/2), fmt.Sprintf("up:P:%d-%d", n/3, n), fmt.Sprintf("up:S:0-%d", n))
		}, ckLen)
	e.seqSweep("Len, any values", cfgAll, strs("one", "coll"), "T0 V0 V1 i1 u0 D0 P1", 1, e.q(4, 5), startsSet, ckLen)
	for _, d := range strs("D", "P") {
		e.ramps("Len after changes", cfgAll, cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles(d), ckLen|ckGet)
		e.ramps("Len after changes", cfgAll, rampSet, strs("up", "bit"), []int{65, 130, e.q(260, 500)}, cycles(d), ckLen|ckGet)
	}
	e.texts(cfgAll, strs("up", "bit"), cycles("D"), ckLen)
	e.again("Len", cfgAll, "S0 D0", ckLen)
	e.again("Len", cfgAll, "S0 P0 P0", ckLen)
	// also when operations ran concurrently before
	for _, c := range strs("max=2", "max=1 mode=0", "max=2 itemfn", "max=2 mode=5 pool", "mode=5 pool", "max=2 mode=4 emb", "entry max=2") {
		ks := strs("one", "coll")
		if c == "entry max=2" {
			ks = strs("one", "edge")
		}
		e.concs(strs(c), ks, 1, true, ckGet|ckLen, lenScens(c)...)
		e.concs(strs(c), strs("one"), 1, false, ckGet|ckLen, lenScens(c)...)
		e.growth(strs(c), growRamps[:2], strs("up", "bit"), 0, 30, e.q(2, 5), 1, true, ckGet|ckLen, "S$x | S$x", "S$x | D$l", "S$x S$n | P$f", "S$x | N")
	}
	e.big("Len", cfgKinds, bigChanges("D"), ckLen|ckGet)
	e.big("Len", cfgKinds, bigChanges("P"), ckLen|ckGet)
}

// lenScens: insertions and deletions of the same and of different keys.
func lenScens(c string) (out []string) {
	for _, s := range strs("S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; D0 | D0", "S0 S1 ; D0 | P0", "S0 S1 ; D0 | S2", "S0 S1 ; P0 S0 | D1", "S0 S1 ; D0 | S0", "S0 S1 ; N | D0", "S0 S1 ; N | S2 P1") {
		out = append(out, entryOps(c, s))
	}
	return
}

// C06: the item API agrees with the key/value API.
func c06(e *em) {
	e.seqSweep("items", strs("max=2", "max=1 itemfn", "default"), strs("one", "edge", "split", "coll"), "I0 I1 I2 U0 U1 S0 S1 D0 D2", 0, e.q(4, 6), startsSet, ckAll)
	e.seqSweep("items", strs("max=2 mode=5 pool", "max=2 mode=4 emb", "mode=5 pool", "mode=4 emb", "max=2 pool"), strs("one", "edge", "split", "coll"), "I0 I1 I2 U0 U1 S0 D0 P1", 0, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckSearch|ckLen)
	e.seqSweep("item identity", strs("max=1", "max=2"), strs("one", "split"), "I0 I1 I2 I3 S0 S1 D0 H0", 1, e.q(4, 6), startsSet, ckItem|ckIdent|ckEvery)
	e.seqSweep("items of any value", cfgAll, strs("one", "coll"), "i0 i1 u0 u1 V0 S1 D0", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.seqSweep("items of any value", strs("entry max=2", "entry=custom max=2"), strs("one"), "i0 i1 u0 u1 I0 D0", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.seqSweep("values in the field V", cat2(cfgAll, strs("entry=custom max=2")), strs("one", "split"), "r0 r1 v0 v1 i0 u1 D0 P1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.seqSweep("items stored again", strs("max=2", "max=1 itemfn", "default"), strs("one", "edge", "coll"), "I0 I1 F0 F1 S0 D0 D1 P1", 1, e.q(5, 6), startsSet, ckAll)
	e.seqSweep("items stored again", strs("entry max=2", "entry=custom max=2"), strs("one", "edge"), "I0 F0 F1 I2 D0 D1 D2", 1, e.q(5, 6), startsSet, ckAll)
	e.seqSweep("items stored again", strs("max=2 mode=5 pool", "max=2 mode=4 emb", "mode=5 pool", "mode=4 emb", "max=2 pool"), strs("one", "edge", "coll"), "I0 F0 F1 S0 S2 D0 D1 P1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckSearch|ckLen)
	for _, c := range cfgAll {
		e.part("items stored while the map grows, then updated, [%s]", c)
		for _, rp := range cat2(rampSet, geoSet) {
			for _, n := range e.gaps(rng(2, e.q(58, 58)), e.q(7, 3)) {
				for _, o := range strs("up", "down", "bit") {
					ck := ckGet | ckItem | ckRange | ckSearch | ckLen
					if !strings.Contains(c, "emb") && !strings.Contains(c, "pool") {
						ck |= ckIdent
					}
					e.seq(c, rampKeys(rp, n), "", fmt.Sprintf("%s:I:0-%d", o, n), ck)
					e.seq(c, rampKeys(rp, n), "", fmt.Sprintf("%s:I:0-%d zig:U:0-%d up:I:0-%d", o, n, n, n/2), ck)
					e.seq(c, rampKeys(rp, n), "", fmt.Sprintf("%s:S:0-%d zig:U:0-%d up:D:0-%d up:I:0-%d", o, n, n, n/2, n), ck)
					e.seq(c, rampKeys(rp, n), "", fmt.Sprintf("%s:F:0-%d up:D:0-%d zig:F:0-%d down:P:0-%d bit:F:0-%d", o, n, n, n, n/2, n), ck)
				}
			}
		}
	}
	e.big("items", cfgKinds, func(n int) []string {
		return strs(fmt.Sprintf("bit:U:0-%[1]d up:I:0-%[2]d up:D:0-%[3]d zig:F:0-%[3]d", n, n/2, n/4))
	}, ckGet|ckItem|ckRange|ckLen)
}

// rampKeys names a key set of n keys.
func rampKeys(rp string, n int) string {
	if strings.Contains(rp, ":") {
		return fmt.Sprintf("%s,%d", rp, n)
	}
	return fmt.Sprintf("ramp:%s,%d", rp, n)
}

// C07: entries of the other item type, with integer keys.
func c07(e *em) {
	const ck = ckGet | ckItem | ckRange | ckLen | ckSearch | ckTypes
	e.seqSweep("entries", strs("entry max=1", "entry max=2", "entry", "entry max=2 mode=0", "entry max=2 mode=2"), strs("one", "edge2", "split", "spread", "tail"), "I0 I1 I2 U0 D0 D1 P0", 0, e.q(4, 6), startsSet, ck)
	e.seqSweep("entries", strs("entry max=1", "entry max=2"), strs("one", "split", "dense", "edge"), "I0 I1 I2 I3 I4", 1, e.q(5, 6), nil, ckGet|ckItem|ckRange)
	for _, t := range intKinds {
		ks := strs("small")
		switch t {
		case "int32", "uint32":
			ks = strs("small", t)
		case "int", "int64", "uint64":
			ks = strs("small", "int32", "uint32", "one", "edge", "split", "tail")
		}
		for _, c := range strs("max=1", "max=2", "default") {
			e.seqSweep("keys of type "+t, strs("entry="+t+" "+c), ks, "I0 I1 I2 I3 I4 D0 D3 P1 U4", 0, e.q(3, 5), startsSet, ck|ckEnds)
		}
	}
	e.seqSweep("entries with string keys", strs("entry=string max=1", "entry=string max=2", "entry=string"), strs("one", "edge", "coll", "text:5"), "I0 I1 I2 U0 D0 D1 P0", 0, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen|ckSearch)
	cu := strs("entry=custom max=1", "entry=custom max=2", "entry=custom", "entry=custom max=2 itemfn", "entry=custom max=2 mode=0", "entry=custom max=2 mode=2")
	e.seqSweep("items of a type of the user", cu, strs("one", "edge", "coll", "text:5"), "I0 I1 I2 U0 D0 D1 P0", 0, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen|ckSearch|ckIdent|ckEnds|ckEarly)
	e.ramps("items of a type of the user, growth", cu, cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 58}, cycles("D"), ckGet|ckItem|ckRange|ckLen|ckIdent|ckEnds)
	for _, t := range intKinds {
		ks := strs("small")
		if t == "int" || t == "int64" || t == "uint64" {
			ks = strs("small", "one")
		}
		e.seqSweep("deleting by the same number of another type, "+t, strs("entry="+t+" max=2"), ks, "I0 I1 I2 d0 d1 p0 p2", 1, e.q(4, 5), startsSet, ck)
	}
	e.ramps("entries, growth", strs("entry max=1", "entry max=3", "entry", "entry=int max=2", "entry=int64 max=2"), cat2(rampSet, geoSet), strs("up", "down", "bit"), cat(e.gaps(rng(5, e.q(58, 58)), e.q(5, 3))), nil, ck)
	e.ramps("entries, growth", strs("entry max=1", "entry max=3", "entry"), rampSet, orderSet, []int{100, e.q(300, 600)}, nil, ckGet|ckItem|ckRange|ckLen)
	for _, d := range strs("D", "P") {
		e.ramps("entries, changes", strs("entry max=1", "entry max=2"), cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles(d), ck)
	}
}

// C08: keys with equal hashes stay apart.
func c08(e *em) {
	cf := strs("max=1", "max=2", "max=2 mode=5 pool", "max=2 mode=4 emb")
	e.seqSweep("collisions", cfgAll, strs("coll", "coll2", "coll0"), "S0 S1 S2 S3 D0 D1 P2", 1, e.q(5, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	e.seqSweep("collisions of items", strs("max=2", "max=1 itemfn", "entry=string max=2"), strs("coll", "coll2", "coll0"), "I0 I1 I2 I3 D0 D1 P2 U1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckLen)
	// every assignment of keys to at most three positions
	for _, c := range cf {
		e.part("collisions: every word of length 2..%d over three positions, keys stored in order, deleted in both orders, [%s]", e.q(6, 8), c)
		for n := 2; n <= e.q(6, 8); n++ {
			e.words("1800000000000000 1700000000000000 0", n, n, nil, func(w string) {
				ks := "rev:" + strings.ReplaceAll(w, " ", ",")
				e.seq(c, ks, "", fmt.Sprintf("up:S:0-%d", n), ckGet|ckRange|ckItem)
				e.seq(c, ks, "", fmt.Sprintf("down:S:0-%d up:D:0-%d", n, n/2), ckGet|ckRange|ckItem)
				e.seq(c, ks, "", fmt.Sprintf("up:S:0-%d up:P:0-%d up:S:0-%d", n, n/2, n), ckGet|ckRange|ckItem|ckLen)
			})
		}
	}
	for _, c := range cfgAll {
		e.part("collisions: very many keys of one hash, [%s]", c)
		for _, n := range []int{33, 70, 130, e.q(260, 520)} {
			ks := "rev:" + strings.TrimSuffix(strings.Repeat("1800000000000000,", n), ",")
			e.seq(c, ks, "", fmt.Sprintf("up:S:0-%d", n), ckGet|ckRange|ckItem|ckLen)
			e.seq(c, ks, "", fmt.Sprintf("bit:S:0-%[1]d down:D:0-%[2]d up:S:0-%[3]d zig:P:0-%[2]d", n, n/2, n/3), ckGet|ckRange|ckItem|ckLen)
		}
	}
	// many keys at one position, next to others, so that buckets have to be split
	for _, c := range cfgAll {
		e.part("many collisions at one position among others, [%s]", c)
		for _, p := range strs("0", "1000000000000000", "1800000000000000", "1234000000000000", "8000000000000000", "ffffffffffffffff") {
			for _, n := range []int{2, 3, 5, 8, 13, e.q(21, 40)} {
				for _, q := range strs("1000000000000000", "1c00000000000000", "0", "fffffffffffffff0") {
					var w []string
					for i := 0; i < n; i++ {
						w = append(w, p)
						if i%2 == 0 {
							w = append(w, q)
						} else {
							w = append(w, fmt.Sprintf("%x", 0x1000000000000000+uint64(i)<<54))
						}
					}
					ks, m := "rev:"+strings.Join(w, ","), 2*n
					for _, o := range strs("up", "down", "bit") {
						e.seq(c, ks, "", fmt.Sprintf("%s:S:0-%d", o, m), ckGet|ckRange|ckItem|ckLen)
						e.seq(c, ks, "", fmt.Sprintf("%s:S:0-%d zig:D:0-%d up:S:%d-%d", o, m, n, n/2, m), ckGet|ckRange|ckItem|ckLen)
						e.seq(c, ks, "", fmt.Sprintf("%s:S:0-%d zig:P:0-%d up:S:%d-%d", o, m, n, n/2, m), ckGet|ckRange|ckItem|ckLen)
					}
				}
			}
		}
	}
}

// C09: every placement of keys works, boundaries included.
func c09(e *em) {
	pos := edgePositions(e.thorough)
	for _, c := range strs("max=1", "max=2", "max=2 mode=5 pool", "max=2 mode=4 emb", "default", "mode=4 emb", "mode=5 pool", "max=1 mode=0", "max=1 mode=2") {
		e.tuples(strs(c), 2, pos, strs("S0 S1", "S0 D0 S1 S0", "S0 S1 P0 S0", "S0 S1 P1 D0 S1"), ckGet|ckRange|ckItem|ckEnds|ckLen)
	}
	for _, c := range strs("entry max=1", "entry=int max=2") {
		e.part("integer keys: all ordered pairs of %d positions, [%s]", len(pos), c)
		for _, a := range pos {
			for _, b := range pos {
				if a != b {
					for _, o := range strs("I0 I1", "I0 I1 P0 I0", "I0 I1 D1 I1 P0") {
						e.seq(c, fmt.Sprintf("rev:%x,%x", a, b), "", o, ckGet|ckRange|ckItem|ckTypes|ckLen|ckEnds)
					}
				}
			}
		}
	}
	ops := strs("S0 S1 S2", "S0 S1 P0 S2 S0")
	if e.thorough {
		ops = strs("S0 S1 S2", "S0 S1 D0 S2 S0", "S0 S1 P0 S2 S0")
	}
	for _, c := range strs("max=1", "max=2 mode=4 emb", "max=2 mode=5 pool", "max=2") {
		e.tuples(strs(c), 3, pos, ops, ckGet|ckRange)
	}
	// whole runs of keys right at, below and across the boundaries of buckets
	for _, c := range cfgAll {
		e.part("runs of neighbouring keys across boundaries, [%s]", c)
		for _, b := range strs("0", "fffffffffffffff0", "0ffffffffffffff8", "17fffffffffffff8", "13fffffffffffff8", "7ffffffffffffff8", "effffffffffffff8", "f7fffffffffffff8", "07fffffffffffff8", "10fffffffffffff8") {
			for _, n := range []int{3, 6, 9, 16} {
				for _, o := range orderSet {
					if o == "mul7" {
						continue
					}
					e.seq(c, fmt.Sprintf("ramp:%s,1,%d", b, n), "", fmt.Sprintf("%s:S:0-%d", o, n), ckGet|ckRange|ckItem|ckEnds)
					e.seq(c, fmt.Sprintf("ramp:%s,1,%d", b, n), "", fmt.Sprintf("%s:S:0-%d up:D:0-%d down:S:0-%d", o, n, n/2, n), ckGet|ckRange|ckItem|ckEnds)
				}
			}
		}
	}
	e.ramps("keys ever closer to a boundary", cfgAll, cat2(geoSet, strs("neg:1000000000000000,0800000000000000", "geo:f000000000000000,0800000000000000", "geo:0,0800000000000000", "geo:1800000000000000,0400000000000000", "neg:1800000000000000,0400000000000000")), orderSet, []int{5, 20, 41, 58}, nil, ckGet|ckRange|ckItem|ckEnds)
}

// C10: nothing is lost or misplaced while the map grows.
func c10(e *em) {
	sizes := cat(rng(1, 24), e.gaps(rng(25, e.q(200, 700)), e.q(11, 5)))
	e.ramps("growth", strs("max=1", "max=2", "max=5", "default", "max=2 mode=5 pool", "max=2 mode=4 emb"), rampSet, orderSet, sizes, nil, ckGet|ckRange|ckItem|ckLen|ckSearch)
	e.ramps("growth", cfgAll, geoSet, orderSet, cat(e.gaps(rng(3, 58), e.q(9, 2)), []int{58}), nil, ckGet|ckRange|ckItem|ckLen|ckSearch)
	e.ramps("growth, compared after every step", cat2(cfgKinds, strs("max=3")), cat2(rampSet, geoSet), orderSet, []int{e.q(40, 58)}, nil, ckGet|ckRange|ckEvery)
	e.ramps("growth", cfgAll, rampSet, strs("up", "bit", "mul7"), []int{501, e.q(1500, 6000)}, nil, ckGet|ckRange|ckLen)
	e.ramps("growth to many keys", cfgAll, strs("0,0004000000000000", "1000000000000000,0000400000000000"), strs("up", "bit"), []int{5003, e.q(16000, 60000)}, nil, ckGet|ckRange|ckLen)
	e.texts(cfgAll, strs("up", "bit"), nil, ckGet|ckRange|ckLen|ckItem)
	// every limit: small ones in every storage mode, and ones never reached
	var lims []string
	for _, l := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64, 100, 1000, 100000} {
		for _, k := range strs("", " mode=0", " mode=5 pool", " mode=4 emb") {
			lims = append(lims, fmt.Sprintf("max=%d%s", l, k))
		}
	}
	e.ramps("growth, every limit", lims, cat2(rampSet, geoSet), strs("up", "down", "bit"), []int{4, 19, 41, 58}, nil, ckGet|ckRange|ckItem|ckLen)
	e.ramps("growth, every limit", lims, rampSet[:2], strs("up", "bit"), []int{150, e.q(400, 1500)}, nil, ckGet|ckRange|ckLen)
	e.ramps("growth of a map of entries", strs("entry max=1", "entry max=2", "entry max=5", "entry", "entry=string max=2", "entry=custom max=2"), cat2(rampSet, geoSet), orderSet, []int{5, 20, 41, 58}, nil, ckGet|ckRange|ckItem|ckLen|ckSearch)
	if e.thorough {
		e.ramps("growth, compared after every step", strs("max=1", "max=2", "max=3"), rampSet, orderSet, []int{100}, nil, ckGet|ckRange|ckEvery)
	}
	e.permutations("growth", cfgKinds, e.q(6, 7), ckGet|ckRange)
}

// permutations of n keys in one bucket, in neighbouring buckets, around a split point
func (e *em) permutations(what string, cfgs []string, n int, checks int) {
	sets := map[string]string{
		"around split points":  "rev:1400000000000000,1800000000000000,17ffffffffffffff,1600000000000000,1200000000000000,1c00000000000000,1000000000000000",
		"at the end of a part": "rev:1fffffffffffffff,1ff0000000000000,1f00000000000000,2000000000000000,2000000000000001,1800000000000001,1ffffffffffffffe",
		"neighbours":           "rev:1000000000000001,1000000000000002,1000000000000003,1000000000000004,1000000000000005,1000000000000006,1000000000000007",
	}
	for _, nm := range strs("around split points", "at the end of a part", "neighbours") {
		for _, c := range cfgs {
			e.part("%s: all orders of %d keys %s, [%s]", what, n, nm, c)
			perms(n, func(p []int) {
				if e.over() {
					return
				}
				var w []string
				for _, x := range p {
					w = append(w, fmt.Sprintf("S%d", x))
				}
				e.seq(c, sets[nm], "", strings.Join(w, " "), checks)
			})
		}
	}
}

// C11: with an item pool the map behaves the same.
func c11(e *em) {
	cf := strs("max=2 mode=5 pool", "max=2 pool", "mode=5 pool", "max=1 mode=5 pool itemfn")
	e.seqSweep("pool", cf, strs("one", "split", "edge", "coll", "dense", "tail"), "S0 S1 S2 D0 D1 P2", 1, e.q(5, 6), startsSet, ckGet|ckRange|ckItem|ckLen|ckSearch)
	e.seqSweep("pool", cf, strs("one", "edge", "coll"), "S0 I0 S1 I2 U1 D0 P1 P2", 1, e.q(4, 6), startsSet, ckGet|ckRange|ckItem|ckLen|ckEnds)
	e.seqSweep("pool", cf[:1], allKeys, "S0 S1 S2 S3 S4", 1, e.q(5, 6), nil, ckGet|ckRange|ckItem)
	sizes := cat(rng(1, 10), rng(60, 70), rng(124, 132), rng(250, 260), e.gaps(rng(11, e.q(260, 600)), e.q(29, 7)))
	e.ramps("pool growth", strs("max=2 mode=5 pool", "mode=5 pool", "max=2 pool"), rampSet, strs("up", "down", "bit", "mul7"), sizes, nil, ckGet|ckRange|ckItem|ckLen)
	e.ramps("pool growth", cf, rampSet, strs("up", "bit"), []int{513, 1025, e.q(2100, 9000)}, nil, ckGet|ckRange|ckLen)
	e.ramps("pool growth", cf, geoSet, orderSet, []int{5, 20, 41, 58}, nil, ckGet|ckRange|ckItem|ckLen)
	e.ramps("pool growth, then changes", strs("max=4 mode=5 pool"), rampSet[:2], strs("up", "bit"), cat(rng(62, 67), rng(126, 130)),
		func(n int) []string {
			return strs(fmt.Sprintf("up:D:0-%d up:S:0-%d", n, n), fmt.Sprintf("down:P:0-%d up:S:0-%d", n/2, n), fmt.Sprintf("up:S:0-%d", n))
		}, ckGet|ckRange|ckItem|ckLen)
	for _, d := range strs("D", "P") {
		e.ramps("pool, changes again and again", cf, cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles(d), ckGet|ckRange|ckItem|ckLen)
		e.ramps("pool, changes again and again", cf[:1], rampSet, strs("up", "bit"), []int{63, 64, 65, 130}, cycles(d), ckGet|ckRange|ckItem|ckLen)
	}
	e.texts(cf, strs("up", "down"), cycles("D"), ckGet|ckRange|ckItem|ckLen|ckBytes)
	e.again("pool", cf, "P0 S0", ckGet|ckItem|ckRange|ckLen)
	e.seqSweep("pool, any values", cf, strs("one", "coll"), "T0 T1 V0 V1 S0 D0 P1", 1, e.q(4, 5), startsSet, ckGet|ckRange|ckItem|ckLen)
	for _, c := range cfgs("max=2 mode=0 pool | max=2 mode=1 pool | max=2 mode=2 pool | max=2 mode=3 pool | max=2 mode=4") {
		e.seqSweep("pool under another search mode", strs(c), strs("one", "edge", "coll"), "S0 S1 S2 D0 D1 P2", 1, e.q(4, 5), startsSet, ckGet|ckRange|ckItem|ckLen|ckSearch)
		e.ramps("pool under another search mode", strs(c), cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles("P"), ckGet|ckRange|ckItem|ckLen)
		e.ramps("pool under another search mode", strs(c), rampSet, strs("up", "bit"), []int{64, 65, 66, 129, e.q(300, 800)}, nil, ckGet|ckRange|ckItem|ckLen)
	}
	e.rangeInserts(cf, []int{3, 30, 62, 63, 64, 65})
	// items handed out by goroutines (which never end: only few cases)
	gp := strs("max=2 mode=5 gopool", "gopool")
	e.seqSweep("pool behind goroutines", gp, strs("one"), "S0 S1 I2 D0 P1", 1, 4, startsSet, ckGet|ckRange|ckItem|ckLen)
	e.ramps("pool behind goroutines", gp, rampSet, strs("up", "bit"), []int{30, 65, 130, 500}, func(n int) []string { return strs(fmt.Sprintf("up:D:0-%d up:S:0-%d", n/2, n)) }, ckGet|ckRange|ckItem|ckLen)
	e.big("pool", cf[:3], bigChanges("P"), ckGet|ckItem|ckRange|ckLen)
}

// C12: with items embedded in buckets the map behaves the same.
func c12(e *em) {
	cf := strs("max=2 mode=4 emb", "max=3 mode=4 emb", "mode=4 emb", "max=1 mode=4 emb")
	e.seqSweep("embedded", cf, strs("one", "split", "edge", "coll", "dense", "tail"), "S0 S1 S2 D0 D1 P2", 1, e.q(5, 6), startsSet, ckGet|ckRange|ckItem|ckLen|ckSearch)
	e.seqSweep("embedded", cf, strs("one", "edge", "coll"), "S0 I0 S1 I2 U1 D0 P1 P2", 1, e.q(4, 6), startsSet, ckGet|ckRange|ckItem|ckLen|ckEnds)
	e.seqSweep("embedded", strs("max=2 mode=4 emb", "max=1 mode=4 emb"), allKeys, "S0 S1 S2 S3 S4", 1, e.q(5, 6), nil, ckGet|ckRange|ckItem)
	e.seqSweep("embedded", strs("max=2 mode=4 emb"), strs("one", "split"), "S0 S1 S2 S3 D0 D1 P1", 4, e.q(6, 7), startsSet, ckGet|ckRange|ckItem)
	sizes := cat(rng(1, 24), e.gaps(rng(25, e.q(200, 600)), e.q(17, 5)))
	e.ramps("embedded growth", strs("max=2 mode=4 emb", "max=4 mode=4 emb", "mode=4 emb"), rampSet, orderSet, sizes, nil, ckGet|ckRange|ckItem|ckLen)
	e.ramps("embedded growth", cf, rampSet, strs("up", "bit"), []int{513, 1025, e.q(2100, 9000)}, nil, ckGet|ckRange|ckLen)
	e.ramps("embedded growth", cat2(cf, strs("max=8 mode=4 emb")), geoSet, orderSet, cat(e.gaps(rng(5, 58), 9), []int{58}), nil, ckGet|ckRange|ckItem|ckLen)
	e.ramps("embedded growth, then changes", strs("max=2 mode=4 emb", "max=8 mode=4 emb"), rampSet[:2], strs("up", "bit"), e.gaps(rng(4, e.q(40, 60)), 4),
		func(n int) []string {
			return strs(fmt.Sprintf("up:D:0-%d up:S:0-%d", n, n), fmt.Sprintf("down:P:0-%d up:S:0-%d", n/2, n), fmt.Sprintf("zig:P:0-%d mid:S:0-%d", n, n))
		}, ckGet|ckRange|ckItem|ckLen)
	for _, d := range strs("D", "P") {
		e.ramps("embedded, changes again and again", cat2(cf, strs("max=8 mode=4 emb")), cat2(rampSet, geoSet), strs("up", "bit"), []int{6, 10, 17, 30, 50}, cycles(d), ckGet|ckRange|ckItem|ckLen)
	}
	e.permutations("embedded growth", strs("max=2 mode=4 emb", "max=4 mode=4 emb"), e.q(6, 7), ckGet|ckRange)
	e.rangeInserts(cf, []int{2, 5, 12, 20, 30, 44})
	e.seqSweep("embedded, any values", cf, strs("one", "coll"), "T0 T1 V0 V1 S0 D0 P1", 1, e.q(4, 5), startsSet, ckGet|ckRange|ckItem|ckLen)
	for _, c := range cfgs("max=2 mode=0 emb | max=2 mode=1 emb | max=2 mode=2 emb | max=2 mode=3 emb | max=2 mode=5 emb | max=2 emb") {
		e.seqSweep("embedded under another search mode", strs(c), strs("one", "edge", "coll"), "S0 S1 S2 D0 D1 P2", 1, e.q(4, 5), startsSet, ckGet|ckRange|ckItem|ckLen|ckSearch)
		e.ramps("embedded under another search mode", strs(c), cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles("P"), ckGet|ckRange|ckItem|ckLen)
		e.ramps("embedded under another search mode", strs(c), rampSet, strs("up", "bit"), []int{64, 129, e.q(300, 800)}, nil, ckGet|ckRange|ckItem|ckLen)
	}
	e.texts(cf, strs("up", "down"), cycles("D"), ckGet|ckRange|ckItem|ckLen|ckBytes)
	e.big("embedded", strs("max=2 mode=4 emb", "mode=4 emb", "max=7 mode=4 emb"), bigChanges("P"), ckGet|ckItem|ckRange|ckLen)
}

// C13: every search mode finds the same.
func c13(e *em) {
	for mode := 0; mode <= 5; mode++ {
		ot := strs(fmt.Sprintf("max=2 mode=%d pool", mode), fmt.Sprintf("max=2 mode=%d emb", mode), fmt.Sprintf("max=2 mode=%d itemfn", mode), fmt.Sprintf("entry max=1 mode=%d", mode))
		e.seqSweep("search mode, other storage", ot[:3], strs("one", "split", "coll"), "S0 S1 S2 D0 P1", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckSearch)
		e.ramps("search mode, other storage, growth", ot, cat2(rampSet, geoSet), strs("up", "bit"), []int{6, 20, 41, 58}, nil, ckGet|ckItem|ckSearch)
		e.ramps("search mode, growth and deletions", cat2(ot, strs(fmt.Sprintf("max=2 mode=%d", mode))), cat2(rampSet, geoSet), strs("up", "bit"), []int{10, 30, 50}, cycles("D"), ckGet|ckItem|ckSearch)
		cf := strs(fmt.Sprintf("max=1 mode=%d", mode), fmt.Sprintf("max=2 mode=%d", mode))
		e.seqSweep("search mode", cf, strs("one", "split", "edge", "coll"), "S0 S1 S2 D0 D1", 1, e.q(5, 6), startsSet, ckGet|ckItem|ckRange|ckSearch)
		e.seqSweep("search mode", strs(fmt.Sprintf("max=2 mode=%d", mode)), strs("one", "edge2"), "S0 S1 S2 S3 P0 P1 D2", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange|ckSearch)
		e.ramps("search mode, growth", strs(fmt.Sprintf("max=1 mode=%d", mode), fmt.Sprintf("max=4 mode=%d", mode), fmt.Sprintf("mode=%d", mode), fmt.Sprintf("entry max=2 mode=%d", mode)), cat2(rampSet, geoSet), strs("up", "down", "bit"), cat(e.gaps(rng(5, 58), e.q(17, 5)), []int{58}), nil, ckGet|ckItem|ckSearch)
		e.ramps("search mode, growth", strs(fmt.Sprintf("max=1 mode=%d", mode), fmt.Sprintf("max=4 mode=%d", mode), fmt.Sprintf("mode=%d", mode)), rampSet, strs("up", "down", "bit"), []int{90, 300, e.q(900, 4000)}, nil, ckGet|ckItem|ckSearch)
	}
	e.seqSweep("mode switched while in use", strs("max=1", "max=2"), strs("one", "split"), "S0 S1 S2 S3 M0 M1 M2 M3 M4 M5", 2, e.q(4, 5), nil, ckGet|ckItem|ckSearch)
	e.seqSweep("mode switched while in use", strs("max=2 mode=5 pool", "max=2 mode=4 emb"), strs("one", "split"), "S0 S1 S2 D0 M0 M1 M2 M3 M4 M5", 2, e.q(4, 5), nil, ckGet|ckItem|ckSearch)
	var tails []string
	for mode := 0; mode <= 5; mode++ {
		tails = append(tails, fmt.Sprintf("M%d", mode))
	}
	e.ramps("mode switched after growth", strs("max=1", "max=2 mode=0", "max=2 mode=4", "max=2 mode=5 pool", "max=4 mode=4 emb", "entry max=2"), cat2(rampSet, geoSet), strs("up", "bit"), cat(e.gaps(rng(6, 58), e.q(17, 5)), []int{58}),
		func(n int) []string {
			return append(tails, fmt.Sprintf("up:D:0-%d M0 M4", n/2), fmt.Sprintf("up:P:0-%d M2", n/2))
		}, ckGet|ckItem|ckSearch)
	e.big("search", cfgAll, bigChanges("D"), ckGet|ckItem|ckSearch)
}

// C14: options can be undone.
func c14(e *em) { optionCases(e) }

// C15: maps do not influence each other.
func c15(e *em) {
	pairs := strs("max=1; max=2 mode=4", "max=2 mode=0; max=2 mode=5 pool", "max=2 mode=4 emb; max=2", "max=2 mode=4 emb; max=2 mode=4 emb", "max=2 mode=5 pool; max=2 mode=5 pool", "rmap; max=2", "rmap; rmap", "entry max=2; entry max=1", "entry max=2; max=2 mode=5 pool", "max=2; max=2", "default; default")
	for _, c := range pairs {
		for _, k := range strs("one", "edge", "coll") {
			if strings.Contains(c, "entry") && k == "coll" {
				continue
			}
			al := "S0 S1 D0 S0@1 S1@1 D0@1 S2@1 P1"
			if strings.Contains(c, "rmap") {
				al = "S0 S1 D0 S0@1 S1@1 D0@1 S2@1 G1"
			}
			e.part("two maps: all words of length 1..%d, [%s], keys %s", e.q(4, 6), c, k)
			e.words(al, 1, e.q(4, 6), nil, func(ops string) { e.seq(c, k, "", ops, ckGet|ckRange|ckLen|ckItem) })
		}
	}
	for _, c := range strs("max=2; max=2", "max=2 mode=5 pool; max=2", "max=2 mode=4 emb; max=2", "max=2; max=3 mode=5 pool") {
		for _, k := range strs("one", "split") {
			e.part("options changed on one of two maps: all words of length 2..%d, [%s], keys %s", e.q(4, 5), c, k)
			e.words("S0 S1 S2 S0@1 S1@1 M0 M4@1 X1 X8@1 Z Z@1", 2, e.q(4, 5), startsSet, func(ops string) { e.seq(c, k, "", ops, ckGet|ckRange|ckLen|ckItem) })
		}
	}
	for _, c := range strs("max=2", "max=2 mode=0", "max=2 itemfn", "max=2 mode=5 pool", "mode=5 pool", "max=2 mode=4 emb", "entry max=2", "rmap") {
		al := "S0 S1 S2 D0 O0 O1 O2 O3 O4"
		if c == "rmap" {
			al = "S0 S1 G0 D0 O0 O1 O2 O3 O5"
		}
		if strings.HasPrefix(c, "entry") {
			al = strings.ReplaceAll(al, "S", "I")
		}
		e.part("other maps made and used in between: all words of length 2..%d over {%s}, [%s]", e.q(4, 5), al, c)
		for _, k := range strs("one", "split") {
			e.words(al, 2, e.q(4, 5), startsSet, func(ops string) { e.seq(c, k, "", ops, ckGet|ckRange|ckLen|ckItem) })
		}
		for _, rp := range cat2(rampSet, geoSet) {
			for _, n := range []int{5, 17, 40, 58} {
				var w []string
				for i := 0; i < n; i++ {
					w = append(w, fmt.Sprintf("S%d", i))
					if i%3 == 2 {
						w = append(w, fmt.Sprintf("O%d", i/3))
					}
				}
				e.seq(c, rampKeys(rp, n), "", entryOps(c, strings.Join(w, " ")), ckGet|ckRange|ckLen|ckItem)
			}
		}
	}
	e.part("two maps growing in turn")
	for _, c := range strs("max=1; max=3 mode=4", "max=2 mode=5 pool; max=2 mode=5 pool", "max=2 pool; max=2 mode=5 pool", "mode=5 pool; mode=5 pool", "max=4 mode=4 emb; max=2 mode=4 emb", "max=2 mode=4 emb; max=2 mode=5 pool", "entry max=2; max=2", "default; default") {
		for _, rp := range cat2(rampSet, geoSet) {
			for _, n := range cat(rng(2, 9), e.gaps(rng(10, e.q(58, 58)), 4), []int{64, 65, 66, 90, e.q(130, 260)}) {
				if n > 58 && strings.Contains(rp, ":") {
					continue
				}
				s := "S"
				if strings.Contains(c, "entry") {
					s = "I"
				}
				var w []string
				for i := 0; i < n; i++ {
					w = append(w, fmt.Sprintf("%s%d S%d@1", s, i, n-1-i))
				}
				e.seq(c, rampKeys(rp, n), "", strings.Join(w, " "), ckGet|ckRange|ckLen|ckItem)
				e.seq(c, rampKeys(rp, n), strings.Join(w, " "), fmt.Sprintf("up:D:0-%d", n/2), ckGet|ckRange|ckLen|ckItem)
				e.seq(c, rampKeys(rp, n), strings.Join(w, " "), fmt.Sprintf("up:P:0-%d up:%s:0-%d", n/2, s, n), ckGet|ckRange|ckLen|ckItem)
			}
		}
	}
}

// C16: entries survive garbage collection.
func c16(e *em) {
	for _, c := range strs("max=1", "max=2 mode=5 pool", "max=2 mode=4 emb", "entry max=2", "max=2 itemfn", "rmap") {
		al := "S0 S1 S2 D0 C1 C0"
		if strings.HasPrefix(c, "entry") {
			al = "I0 I1 I2 D0 C1 C0"
		}
		if c == "rmap" {
			al = "S0 S1 S2 D0 G0 C1"
		}
		if c == "max=2 itemfn" {
			al = "I0 I1 I2 D0 S0 C1"
		}
		for _, k := range strs("one", "split") {
			e.part("garbage collections inserted: all words of length 2..%d over {%s}, then a collection, [%s], keys %s", e.q(3, 5), al, c, k)
			e.words(al, 2, e.q(3, 5), startsSet, func(ops string) { e.seq(c, k, "", ops+" C1 C0 C1", ckGet|ckRange|ckItem|ckLen) })
		}
	}
	for _, c := range strs("max=1", "default", "max=2 mode=5 pool", "mode=5 pool", "max=2 mode=4 emb", "mode=4 emb", "entry max=2", "rmap", "max=2 itemfn", "items max=2", "items default") {
		op := "S"
		if strings.HasPrefix(c, "entry") || strings.HasPrefix(c, "items ") {
			op = "I"
		}
		c = strings.TrimPrefix(c, "items ")
		e.part("growth with collections in between, [%s]", c)
		for _, rp := range rampSet {
			for _, n := range cat(rng(2, 9), e.gaps(rng(10, e.q(150, 400)), e.q(23, 7))) {
				for _, parts := range []int{1, 2, 5} {
					var w []string
					for i := 0; i < parts; i++ {
						if a, b := n*i/parts, n*(i+1)/parts; a < b {
							w = append(w, fmt.Sprintf("up:%s:%d-%d C1", op, a, b))
						}
					}
					e.seq(c, fmt.Sprintf("ramp:%s,%d", rp, n), "", strings.Join(w, " ")+" C1", ckGet|ckRange|ckItem|ckLen)
					e.seq(c, fmt.Sprintf("ramp:%s,%d", rp, n), strings.Join(w, " "), fmt.Sprintf("up:D:0-%d C1 up:%s:0-%d C1 C1", n/2, op, n), ckGet|ckRange|ckItem|ckLen)
				}
			}
		}
		for _, rp := range []string{"0,0007000000000000", "0123456789abcdef,0fedcba987654321"} {
			for _, n := range []int{600, 1100, e.q(4500, 9000)} {
				w := fmt.Sprintf("bit:%s:0-%d C1", op, n)
				e.seq(c, fmt.Sprintf("ramp:%s,%d", rp, n), "", w, ckGet|ckRange|ckItem|ckLen)
				e.seq(c, fmt.Sprintf("ramp:%s,%d", rp, n), w, fmt.Sprintf("up:D:%d-%d C1 up:%s:0-%d C1 C1", n/3, n, op, n), ckGet|ckRange|ckItem|ckLen)
			}
		}
	}
}

// C17: the capacity of a growing item pool.
func c17(e *em) {
	e.part("every number of items below %d", e.q(400, 4000)*1000)
	for i := 0; i < e.q(400, 4000); i++ {
		e.do(&Case{Kind: "fn", Fn: "poolcap", N: []int64{int64(i) * 1000, int64(i+1) * 1000}})
	}
	e.part("%d numbers around every power of two and every power of ten up to 2^40, and three times and five times these", 400)
	for b := int64(1); b <= 1<<40; b *= 2 {
		for _, m := range []int64{1, 3, 5} {
			if lo := b*m - 200; lo >= 0 {
				e.do(&Case{Kind: "fn", Fn: "poolcap", N: []int64{lo, b*m + 200}})
			}
		}
	}
	for b := int64(1000); b <= 1e12; b *= 10 {
		e.do(&Case{Kind: "fn", Fn: "poolcap", N: []int64{b - 200, b + 200}})
	}
}

// C18: equal keys have equal hashes.
func c18(e *em) { hashCases(e) }

// C19: First, Last and the links between entries.
func c19(e *em) {
	e.seqSweep("ends", cfgAll, strs("one", "edge", "coll0", "split", "tail"), "S0 S1 S2 S3 D0 D1 P0 P2", 0, e.q(4, 5), nil, ckEnds)
	e.seqSweep("ends", strs("entry max=2", "entry max=1", "entry", "entry=int max=2", "max=2 itemfn"), strs("one", "edge", "tail", "split"), "I0 I1 I2 I3 D0 D1 P0", 0, e.q(4, 5), nil, ckEnds)
	e.ramps("ends after growth", cat2(cfgAll, strs("max=4 mode=4 emb", "entry max=2")), cat2(rampSet, geoSet), orderSet, e.gaps(rng(5, e.q(58, 58)), e.q(7, 3)), nil, ckEnds)
	e.ramps("ends after growth", cat2(cfgAll, strs("max=4 mode=4 emb", "entry max=2")), rampSet, strs("up", "bit"), []int{77, 140, e.q(400, 1500)}, nil, ckEnds)
	for _, d := range strs("D", "P") {
		e.ramps("ends after changes", cat2(cfgAll, strs("entry max=2")), cat2(rampSet, geoSet), strs("up", "bit"), []int{6, 10, 30, 50}, cycles(d), ckEnds)
	}
	e.texts(cfgKinds, strs("up", "down"), cycles("P"), ckEnds)
	e.big("ends", cat2(cfgAll, strs("entry max=2")), bigChanges("P"), ckEnds)
}

// C20: statistics and observers change nothing.
func c20(e *em) {
	for _, c := range strs("max=1", "default", "max=2 mode=0", "max=2 mode=2", "max=2 mode=4", "max=2 itemfn", "max=2 mode=5 pool", "max=2 mode=4 emb", "entry max=2") {
		s := "S"
		if strings.HasPrefix(c, "entry") {
			s = "I"
		}
		al := strings.ReplaceAll("S0 S1 S2 D0 P1 W1 W2 E1 E0", "S", s)
		e.seqSweep("observers", strs(c), strs("one", "edge", "split"), al, 1, e.q(5, 6), startsSet, ckGet|ckRange|ckLen|ckItem|ckEnds)
		e.seqSweep("observers", strs(c), strs("one"), al, 0, e.q(4, 5), nil, ckGet|ckRange|ckLen|ckItem|ckEnds)
	}
	for _, c := range strs("max=2", "max=2 itemfn", "max=2 mode=5 pool", "max=2 mode=4 emb", "entry max=2", "max=1 mode=0") {
		for _, t := range strs("S0 S1 ; W0 | S2", "S0 S1 S2 ; W0 | D0 S0", "S0 S1 S2 ; W0 | P0 S3", "S0 S1 S2 ; B0 B2 | P1 S2", "S0 S1 ; W0 | G0 S0", "S0 S1 ; W1 | S2", "S0 S1 ; W1 | D0") {
			e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, entryOps(c, t))
		}
		for _, t := range strs("S0 S1 E1 ; G0 | G1", "S0 S1 E1 ; G1 | S2", "S0 S1 E1 ; D0 | L1", "S0 S1 ; E1 | G0 S0", "S0 S1 E1 ; E2 | G0 G1", "S0 S1 E1 ; E0 E1 | D1") {
			e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, entryOps(c, t))
		}
		e.growth(strs(c), growRamps, strs("up", "bit"), 0, 30, e.q(3, 6), 1, true, ckGet|ckRange|ckLen, "S$x | W0", "S$x | B0 W0", "P$l S$x | W0")
	}
	e.ramps("observers after growth", cat2(cfgAll, strs("max=4 mode=4 emb", "entry max=2")), cat2(rampSet, geoSet), strs("up", "bit"), e.gaps(rng(5, e.q(58, 58)), 7),
		func(n int) []string {
			return strs("W0", fmt.Sprintf("E1 up:S:0-%d W1", n), fmt.Sprintf("W2 E1 up:D:0-%d W3 E0", n/2), fmt.Sprintf("W2 up:P:0-%d W3 up:S:0-%d W1", n/2, n))
		}, ckGet|ckRange|ckLen|ckItem|ckEnds)
	e.big("observers", cfgKinds, func(n int) []string { return strs(fmt.Sprintf("W0 E1 up:D:0-%d W1 E0 bit:S:0-%d W2", n/3, n)) }, ckGet|ckRange|ckLen|ckEnds)
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.programs(strs(c), strs("one", "coll"), 1, ckConc|ckLen, []string{"S0 S1"}, "S0 S1 S2 D0 P1", 2, "B0 W0 W1", 1)
	}
}

// rangeFn is a Range or RangeItem whose function works on the map (see reenter).
func rangeFn(at, k, what int) string {
	op := "R"
	if (at+k+what)%3 == 2 {
		op = "Q" // RangeItem
	}
	return fmt.Sprintf("%s%d", op, at*100000+k*10+what)
}

// C21: the function given to Range may use the map.
func c21(e *em) {
	var rs []string
	for at := 0; at < 3; at++ {
		for k := 0; k < 4; k++ {
			for what := 0; what < 10; what++ {
				if what < 6 || k == 0 || what > 7 {
					rs = append(rs, rangeFn(at, k, what))
				}
			}
		}
	}
	for at := 0; at < 2; at++ {
		rs = append(rs, rangeFn(at, 9999, 0), rangeFn(at, 9999, 1))
	}
	for _, c := range strs("max=1", "max=2", "default", "max=2 itemfn", "max=2 mode=0", "max=2 mode=5 pool", "mode=5 pool", "max=2 mode=4 emb", "mode=4 emb", "entry max=2") {
		for _, k := range strs("one", "split", "edge", "coll") {
			if strings.HasPrefix(c, "entry") && k == "coll" {
				continue
			}
			e.part("function of Range works on the map: all words of length 1..%d, then Range with each of %d functions, [%s], keys %s", e.q(3, 4), len(rs), c, k)
			e.words("S0 S1 S2 S3 D0 P1", 1, e.q(3, 4), startsSet, func(ops string) {
				ops = entryOps(c, ops)
				for _, r := range rs {
					e.seq(c, k, "", ops+" "+r, ckGet|ckRange|ckLen)
				}
			})
		}
	}
	for _, c := range cfgKinds {
		e.part("function of Range works on the map, twice: [%s]", c)
		for _, r1 := range rs {
			for _, r2 := range rs {
				e.seq(c, "one", "", "S0 S1 S2 "+r1+" "+r2, ckGet|ckRange|ckLen)
			}
		}
	}
	for _, c := range cfgAll {
		e.seqSweep("function of Range stops it, or panics", strs(c), strs("one", "edge"), "S0 S1 S2 D0 B0 b1 A0 a1 A2", 1, e.q(4, 5), startsSet, ckGet|ckRange|ckLen|ckEarly)
		e.ramps("function of Range stops it, or panics, then the map grows", strs(c), rampSet[:3], strs("up", "bit"), e.gaps(rng(3, e.q(40, 58)), 6), func(n int) (out []string) {
			for _, o := range strs("B", "b", "A", "a") {
				out = append(out, fmt.Sprintf("up:P:0-%d %s%d bit:S:0-%d %[2]s%d up:D:1-%[1]d", n/2, o, n/4, n, n/2))
			}
			return
		}, ckGet|ckRange|ckLen)
	}
	kinds := cat2(cfgKinds, strs("max=4 mode=4 emb", "mode=4 emb", "mode=5 pool", "entry max=2"))
	e.ramps("function of Range works on a grown map", kinds, cat2(rampSet[:3], geoSet[:2]), strs("up", "bit"), e.gaps(rng(3, e.q(40, 58)), 4),
		func(n int) (out []string) {
			for _, k := range []int{0, 1, n / 2, n - 1} {
				for _, at := range []int{0, n / 3, n - 2} {
					if at < 0 {
						continue
					}
					for what := 0; what < 6; what++ {
						out = append(out, rangeFn(at, k, what))
					}
					out = append(out, fmt.Sprintf("D%d %s", k, rangeFn(at, k, 1)), fmt.Sprintf("P%d %s", k, rangeFn(at, k, 1)))
					out = append(out, rangeFn(at, 9999, k%2))
				}
			}
			return
		}, ckGet|ckRange|ckLen)
	e.rangeInserts(cat2(kinds, strs("max=2 pool", "max=1 mode=4 emb")), cat(e.gaps(rng(2, 44), e.q(7, 3)), []int{61, 62, 63, 64, 65, 126, 127, 128}))
	e.big("function of Range works on a map", cfgKinds, func(n int) []string {
		return strs(rangeFn(n/2, n/3, 1), rangeFn(n-3, n/4, 7), fmt.Sprintf("A%d S1 D2", n-2))
	}, ckGet|ckRange|ckLen)
}

// rangeInserts: the function of Range inserts, the map grows under the iteration.
func (e *em) rangeInserts(cfgs []string, sizes []int) {
	for _, c := range cfgs {
		e.part("function of Range inserts keys into a grown map, [%s]", c)
		for _, rp := range cat2(rampSet, geoSet) {
			for _, n := range sizes {
				if strings.Contains(rp, ":") && n > 44 {
					continue
				}
				const spare = 12
				keys := rampKeys(rp, n+spare)
				for _, o := range strs("up", "bit", "down") {
					old := order(o, 0, n+spare)
					var w []string
					for _, k := range old[:n] {
						w = append(w, fmt.Sprintf("S%d", k))
					}
					pre := entryOps(c, strings.Join(w, " "))
					for _, at := range []int{0, n / 2, n - 1} {
						// one new key; several; one at every visit; and with the visited ones purged
						e.seq(c, keys, pre, rangeFn(at, old[n], 1), ckGet|ckRange|ckLen)
						for _, what := range []int{7, 8, 9} {
							e.seq(c, keys, pre, rangeFn(at, old[n], what), ckGet|ckRange|ckLen)
							e.seq(c, keys, pre, rangeFn(at, 0, what), ckGet|ckRange|ckLen)
						}
					}
				}
			}
		}
	}
}

// C22: a key's value may be of any type, and change its type.
func c22(e *em) {
	e.seqSweep("values of changing type", strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb", "max=2 itemfn", "rmap", "default", "max=2 pool"), strs("one", "coll"), "T0 T1 Y0 Y1 V0 S0 D0 P1", 1, e.q(5, 6), nil, ckGet|ckRange|ckItem)
	e.seqSweep("values of changing type", strs("max=2 mode=4 emb", "max=2 mode=5 pool"), strs("one", "split"), "T0 T1 T2 T3 P1", 1, e.q(5, 6), nil, ckGet|ckRange|ckItem)
	e.seqSweep("values of changing type", strs("entry max=2"), strs("one", "edge"), "T0 T1 Y0 Y1 V0 S0 D0 P1", 1, e.q(5, 6), nil, ckGet|ckRange)
	e.seqSweep("values in the field V", cfgAll, strs("one"), "r0 v0 S0 T0 V0 S1 v1 D0", 1, e.q(4, 6), startsSet, ckGet|ckItem|ckRange)
	for _, c := range strs("max=2", "max=2 mode=4 emb", "max=2 mode=5 pool", "entry max=2", "rmap") {
		ck := ckGet | ckLen
		if c != "rmap" {
			ck |= ckRange
			e.concs(strs(c), strs("one"), 1, false, ck, "S0 ; T0 | L0", "S0 S1 ; T0 T1 | R")
		}
		e.concs(strs(c), strs("one"), 1, false, ck, "S0 ; T0 | G0 G0", "S0 ; T0 | S0 G0", "T0 S1 ; S0 | D0 T0", "S0 ; T1 | G1 S1")
		if e.thorough {
			e.concs(strs(c), strs("one"), 2, false, ck, "S0 ; T0 | G0 G0", "S0 ; T0 | S0 G0")
			e.concs(strs(c), strs("one"), 1, false, ck, "S0 ; T0 | S0 | G0 G0")
		}
	}
}

// ---- schedules -------------------------------------------------------------

// ramps on which a bucket splits, on which all buckets fill, and on which the levels get deep
var growRamps = strs("1000000000000000,0008000000000000", "0,0800000000000000", "1100000000000000,1")

const ckConc = ckGet | ckRange | ckItem | ckEnds

// C23: concurrent Get, Set and Delete of present keys are linearizable.
func c23(e *em) {
	cf := strs("max=2")
	e.concs(cf, concKeys, 1, false, ckConc,
		"S0 ; S0 | G0", "S0 ; D0 | G0", "S0 ; S0 | S0", "S0 ; S0 | D0 ; S0", "S0 ; D0 S0 | G0 G0", "S0 S1 ; D0 S0 | S0 ; D0", "S0 S1 S2 ; D1 S1 | D1 G1", "S0 S1 ; S0 G1 | S1 G0", "S0 S1 ; D0 G1 | D1 G0",
		"S0 S1 ; S0 | L0", "S0 S1 ; D0 S0 | K0", "S0 S1 ; S0 D0 | H0 H1")
	e.concs(cf, strs("one"), 2, false, ckConc, "S0 ; S0 | G0", "S0 ; D0 | G0", "S0 ; S0 | S0", "S0 ; S0 | L0 G0")
	e.concs(cf, strs("one"), 1, false, ckConc, "S0 S1 ; S2 | S3 G2", "S0 S1 ; S2 | G2 G0 G1", "S0 S1 ; S2 | D0 G1")
	e.concs(strs("entry max=2"), strs("one"), 1, false, ckConc, "I0 ; I0 | G0", "I0 ; D0 | G0 L0", "I0 ; I0 | D0 ; I0", "I0 ; D0 I0 | G0", "I0 I1 ; D0 | I0 ; D1", "I0 I1 ; I2 | G2 G0")
	e.concs(strs("max=2", "entry max=2"), strs("one", "edge"), 1, false, ckConc|ckLen, "F0 F1 ; D0 F0 | G0 G1", "F0 F1 D0 ; F0 | F0", "F0 F1 D0 ; F0 | I0 G1", "F0 D0 ; F0 | D0 G0 ; F0", "F0 F1 D0 ; F0 | R")
	e.concs(strs("max=2", "entry max=2"), strs("one"), e.q(1, 2), true, ckConc|ckLen, "F0 F1 ; D0 F0 | I0 G1", "F0 F1 ; D0 F0 | D1 F1 | L0 G1")
	e.concs(strs("entry=custom max=2"), strs("one"), 1, false, ckConc, "I0 ; I0 | G0", "I0 ; D0 | G0 L0", "I0 ; D0 I0 | G0", "I0 I1 ; I2 | G2 G0")
	e.concs(strs("max=2", "entry max=2", "max=2 itemfn"), strs("one"), 1, false, ckConc, "I0 ; U0 | I0 G0", "I0 I1 ; U0 U1 | G0 G1 L0", "I0 ; U0 | U0 | G0", "I0 I1 ; U0 | I2 G0")
	e.concs(strs("max=1 mode=2", "max=2 itemfn"), strs("one"), 1, false, ckConc, "S0 ; S0 | G0", "S0 ; D0 | G0 L0", "S0 ; S0 | D0 ; S0", "S0 ; D0 S0 | G0")
	e.concs(cf, strs("one", "spread"), e.q(1, 2), false, ckConc, "S0 ; S0 | S0 | G0", "S0 ; S0 | D0 | G0", "S0 ; D0 S0 | G0 | G0")
	e.concs(cf, strs("one", "spread"), 2, true, ckConc, "S0 ; S0 | D0", "S0 ; D0 S0 | G0", "S0 ; D0 S0 | S0")
	// in every storage mode
	for _, c := range strs("max=2 pool", "max=2 mode=5 pool", "max=2 mode=4 emb", "mode=4 emb", "default") {
		e.concs(strs(c), strs("one", "coll"), 1, false, ckConc|ckLen, "S0 ; S0 | G0", "S0 ; D0 | G0 L0", "S0 ; S0 | D0 ; S0", "S0 ; D0 S0 | G0 G0", "S0 S1 ; D0 S0 | S0 ; D0")
		e.concs(strs(c), strs("one", "spread"), 2, true, ckConc|ckLen, "S0 ; S0 | D0", "S0 S1 ; D0 S0 | G0", "S0 ; D0 S0 | S0")
		e.concs(strs(c), strs("one"), 1, true, ckConc|ckLen, "S0 ; S0 | D0 | G0", "S0 S1 ; D0 S0 | G0 | D1", "S0 S1 ; D0 N | N D1", "S0 S1 ; D0 | D1 | N", "S0 S1 ; P0 S0 N | G0 N")
	}
	e.concs(cf, strs("one", "spread"), 1, false, ckConc|ckLen, "S0 S1 ; D0 N | N D1", "S0 ; D0 S0 | N N", "S0 S1 ; D0 | D1 | N")
	// while the map grows
	e.growth(strs("max=2", "max=1 mode=2", "entry max=2"), growRamps, strs("up", "bit"), 0, 30, e.q(3, 6), 1, true, ckGet|ckRange, "S$x G$l | D$l G$x", "S$x | S$l G$l", "S$x | D$f S$f")
	e.growth(strs("max=2"), growRamps[:1], strs("up"), 0, 30, e.q(1, 4), 1, false, ckGet|ckRange, "S$x | D$l G$x")
	e.programs(cf, strs("one"), 1, ckConc|ckLen, []string{"S0 S1"}, "S0 S1 D0 D1", 2, "S0 S1 D0 D1 G0 G1", 2)
	e.programs(cf, strs("one", "coll"), 1, ckConc|ckLen, []string{"S0 S1", "S0 S1 D0"}, "S0 S1 S2 D0 D1", 2, "G0 G1 G2 L0 K1 R", 1)
	if e.thorough {
		e.programs(strs("max=1", "max=2", "default", "max=2 mode=0", "max=2 itemfn"), strs("one", "coll", "coll2", "split"), 1, ckConc|ckLen, []string{"S0", "S0 S1", "S0 S1 D0"}, "S0 S1 D0 D1", 2, "S0 S1 D0 D1 G0 G1", 2)
		e.programs(strs("max=2", "max=1"), strs("one"), 2, ckConc|ckLen, []string{"S0 S1"}, "S0 S1 S2 D0 D1 P2", 1, "S0 S2 D0 D1 R G0 G2", 1)
		e.programs(strs("entry max=1", "entry max=2"), strs("one"), 1, ckConc|ckLen, []string{"I0 I1"}, "I0 I1 I2 D0 D1", 2, "I0 I1 I2 D0 G0 G1", 2)
		e.trios(strs("max=1", "max=2"), strs("one"), 1, ckConc|ckLen, []string{"S0 S1"}, "S0 S2 D0 P1 G0 G2 R")
		e.concs(strs("max=2", "default", "max=1"), strs("one", "spread", "coll", "edge"), 2, true, ckConc, "S0 ; S0 | D0", "S0 ; D0 S0 | G0 G0", "S0 S1 ; D0 S0 | S0 G1", "S0 S1 ; D0 S1 | D1 S0")
		e.concs(cf, strs("one"), 3, true, ckConc, "S0 ; S0 | D0 | G0", "S0 ; D0 S0 | S0", "S0 ; D0 S0 | D0 S0")
		e.concs(cf, concKeys, 2, false, ckConc, "S0 ; S0 | D0", "S0 ; D0 S0 | G0", "S0 S1 ; D0 | D1 G0")
	}
}

// C24: concurrent deletes of one key: exactly one succeeds.
func c24(e *em) {
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.concs(strs(c), strs("one", "coll"), 1, false, ckConc|ckLen, "S0 ; D0 | D0", "S0 S1 ; D0 | P0", "S0 S1 ; P0 | P0", "S0 S1 ; D0 D1 | D1 D0", "S0 ; D0 S0 | D0 ; S1")
		e.concs(strs(c), strs("one"), 2, true, ckConc|ckLen, "S0 ; D0 | D0", "S0 ; D0 | P0", "S0 S1 ; P0 | P0 ; S0")
		e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, "S0 ; D0 | D0 | D0", "S0 S1 ; D0 | P0 | D1", "S0 ; D0 | S0 | D0")
		e.concs(strs(c), strs("one", "edge"), 2, true, ckConc|ckLen, "S0 ; D0 | D0 | D0", "S0 ; D0 | S0 | D0", "S0 ; D0 S0 | D0 S0", "S0 S1 ; P0 S0 | D0 P1", "S0 S1 ; P0 P1 | P1 P0", "S0 S1 ; P0 S2 | D0 G1", "S0 S1 ; P0 S0 | P0 S0")
		e.concs(strs(c), strs("one"), 3, true, ckConc|ckLen, "S0 ; D0 | D0", "S0 S1 ; P0 | D0 ; S0")
		e.growth(strs(c), growRamps[:2], strs("up", "down"), 0, 30, e.q(2, 5), 1, true, ckGet|ckRange|ckLen, "S$x D$l | D$l", "S$x | P$f P$x")
		if c == "max=2" {
			e.concs(c24kinds, strs("one", "split"), 1, true, ckConc|ckLen, "S0 ; D0 | D0", "S0 S1 ; D0 | P0", "S0 S1 S2 ; P1 | P1 ; S1", "S0 S1 ; D0 P1 | D1 P0 ; S0")
			e.concs(strs("entry max=2", "entry=custom max=2", "entry=int max=1"), strs("one", "edge"), 1, true, ckConc|ckLen, "I0 ; D0 | D0", "I0 I1 ; D0 | P0", "I0 I1 I2 ; P1 | P1 ; I1", "I0 I1 ; D0 P1 | D1 P0 ; I0")
		}
		if e.thorough {
			e.concs(strs(c), concKeys, 2, false, ckConc|ckLen, "S0 ; D0 | D0", "S0 S1 ; D0 | P0")
			e.concs(strs(c), strs("one", "edge"), 3, true, ckConc|ckLen, "S0 ; D0 | D0", "S0 ; D0 S0 | D0", "S0 S1 ; P0 | D0 ; S0")
			e.concs(strs(c), strs("one"), 2, true, ckConc|ckLen, "S0 ; D0 | D0 | D0", "S0 ; D0 | S0 | D0", "S0 ; D0 S0 | D0 S0")
		}
	}
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.programs(strs(c), strs("one"), 1, ckConc|ckLen, []string{"S0 S1"}, "D0 P0 S0 D1", 2, "D0 P0 S0 D1", 2)
	}
	if e.thorough {
		for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
			e.programs(strs(c), strs("coll", "coll2", "split"), 1, ckConc|ckLen, []string{"S0", "S0 S1", "S0 S1 D0"}, "D0 P0 S0 D1", 2, "D0 P0 S0 D1", 2)
			e.programs(strs(c), strs("one"), 1, ckConc|ckLen, []string{"S0 S1"}, "D0 P0 S0 D1", 3, "D0 P0 S0 D1", 2)
			e.trios(strs(c), strs("one"), 1, ckConc|ckLen, []string{"S0 S1"}, "S0 D0 P0 D1 G0")
		}
	}
}

var c24kinds = strs("default", "max=1 mode=0", "max=2 itemfn", "max=2 pool", "max=4 mode=4 emb")

// C25: iteration concurrent with updates.
func c25(e *em) {
	e.concs(strs("default", "mode=5"), strs("one"), 1, false, ckConc, "; S0 | R", "; S0 S1 | R Q", "; S0 | G0 R")
	e.concs(strs("entry max=2", "entry"), strs("one"), 1, false, ckConc, "; I0 | R", "I0 I1 ; I2 | R", "I0 I1 ; D0 | R", "I0 I1 ; I0 | R")
	e.growth(strs("max=1", "entry max=1"), growRamps, strs("up", "bit"), 0, 30, e.q(3, 6), 1, true, ckGet|ckRange, "S$x | R")
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		it := "R"
		e.concs(strs(c), strs("one", "spread"), 1, false, ckConc, "S0 S1 ; S0 | "+it, "S0 S1 ; D0 | "+it, "S0 S1 S3 ; D0 S0 | "+it, "S0 S1 ; S2 | "+it)
		e.concs(strs(c), strs("dense", "split"), 1, true, ckConc, "S0 S1 ; S2 | R", "S0 S1 ; S2 S3 | R", "S0 S1 S2 ; D1 S3 | R", "S0 S1 S2 ; P1 S3 | R ; S1")
		if c != "max=2 mode=4 emb" {
			e.concs(strs(c), strs("one"), 1, false, ckConc, "S0 S1 ; S0 | Q", "S0 S1 ; D0 | Q", "S0 S1 ; S2 | Q")
		}
		e.concs(strs(c), strs("one"), 2, true, ckConc, "S0 S1 ; S0 | R", "S0 S1 ; D0 | R")
		e.concs(strs(c), strs("one"), 1, true, ckConc, "S0 S1 ; S2 | R | D0", "S0 S1 ; S2 | R | R")
		e.concs(strs(c), strs("one"), 1, false, ckConc, "; S0 | R", "; S0 S1 | R", "; S0 | G0")
		e.growth(strs(c), growRamps, strs("up", "bit", "down"), 0, 30, e.q(3, 6), 1, true, ckGet|ckRange, "S$x | R", "S$x D$l | R")
		e.concs(strs(c), strs("split"), 2, true, ckConc, "S0 S1 ; S2 | R", "S0 S1 S2 ; P1 | R")
		e.concs(strs(c), strs("one"), 2, true, ckConc, "S0 S1 S2 ; P1 | R")
		e.growth(strs(c), growRamps[:1], strs("up"), 0, 30, 1, 2, true, ckGet|ckRange, "S$x | R")
		if e.thorough {
			e.concs(strs(c), strs("one", "split", "edge"), 2, true, ckConc, "S0 S1 ; S2 | R", "S0 S1 S2 ; D1 S1 | R", "S0 S1 ; D0 S0 | R")
			e.concs(strs(c), strs("one", "edge", "split", "dense"), 1, false, ckConc, "S0 S1 ; S2 S3 | R", "S0 S1 S2 ; P0 P1 | R", "S0 S1 S2 ; D1 S3 | R R")
		}
	}
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		e.programs(strs(c), strs("one"), 1, ckConc, []string{"S0 S1", "S0 S1 D0"}, "S0 S1 S2 D0 D1 P2", e.q(2, 3), "R", 1)
		e.programs(strs(c), strs("coll", "coll2"), 1, ckConc, []string{"S0 S1", "S0 S1 S2 D1"}, "S0 S1 S2 D0 D1", e.q(2, 3), "R", 1)
	}
	if e.thorough {
		e.programs(strs("max=1", "default", "max=2 mode=0", "max=2 itemfn"), strs("one", "coll", "coll2", "split"), 1, ckConc, []string{"S0 S1", "S0 S1 S2 D1"}, "S0 S1 S2 D0 D1 P2", 3, "R Q", 1)
		e.programs(strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb"), strs("one", "coll2"), 2, ckConc, []string{"S0 S1"}, "S0 S2 D0 D1", 2, "R", 1)
	}
}

// C26: concurrent insertions lose nothing and store nothing twice.
func c26(e *em) {
	cf := strs("max=2", "max=1")
	e.concs(cf, strs("one", "spread"), 1, false, ckConc|ckLen, " ; S0 | S0", "; S0 | S1", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3")
	e.concs(cf, concKeys, 1, true, ckConc|ckLen, "S0 S1 ; S2 | G2 G0", "S0 S1 ; I2 | S2", "S0 S1 ; I2 | I2", "S0 S1 ; S2 S3 | S3 S2", "S0 S1 ; S2 | D0", "S0 S1 ; D0 S2 | S0", "S0 S1 ; S2 | G0 G1", "S0 S1 S2 ; S3 | D1 S1 ; S4")
	e.concs(strs("max=2"), strs("one"), 2, true, ckConc|ckLen, "S0 S1 ; S2 | G0")
	e.concs(strs("max=2"), strs("one", "dense"), 1, true, ckConc|ckLen, "S0 ; S1 | S2 | S3", "S0 ; S1 | S1 | S1", "S0 S1 ; S2 | S2 | G2", "S0 S1 ; S2 | D0 | G1")
	e.concs(strs("default", "mode=5", "max=2", "entry"), strs("one"), 1, true, ckConc|ckLen, "; I0 | G0", "; I0 I1 | G0 G1", "; I0 | I1 | G0", "; I0 | I0 | G0")
	e.concs(strs("default", "mode=5"), strs("one"), 1, false, ckConc|ckLen, "; S0 | G0", "; S0 | S1")
	for mode := 0; mode <= 4; mode++ {
		e.growth(strs(fmt.Sprintf("max=2 mode=%d", mode)), growRamps, strs("up", "bit", "down"), 0, 30, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | $G")
	}
	e.growth(strs("max=1", "max=3", "entry max=2"), growRamps, strs("up", "bit", "down"), 0, 30, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | $G")
	e.growth(strs("max=2", "max=1"), growRamps, strs("up", "bit", "down"), 0, 30, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | S$n", "S$x G$n | S$n G$x", "S$x | S$x G$l")
	e.growth(strs("max=2", "max=1"), growRamps[:1], strs("up", "bit"), 0, 30, e.q(2, 4), 1, false, ckGet|ckRange|ckLen, "S$x | G$f G$l")
	e.concs(strs("max=2 pool", "max=2 mode=5 pool", "max=2 mode=4 emb"), strs("one", "dense"), 1, true, ckConc|ckLen, "; S0 | S0", "; S0 | S1 G0", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; S2 | G2 G0", "S0 S1 ; S2 | S3 | N", "S0 S1 ; S2 N | S3 N")
	e.concs(cf, strs("one", "edge"), 1, true, ckConc|ckLen, "; S0 N | S1 N", "S0 S1 ; S2 N | S3 N", "S0 S1 ; S2 | S2 N", "S0 ; S1 | S2 | N N")
	e.concs(cf[:1], strs("split"), 2, true, ckConc|ckLen, "; S0 | S0", "S0 S1 ; S2 | G2", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; S2 | D0", "S0 S1 ; S2 | P0")
	e.concs(cf[1:], strs("one"), 2, true, ckConc|ckLen, "; S0 | S0", "S0 S1 ; S2 | G2", "S0 S1 ; S2 | P0")
	e.growth(strs("max=2"), growRamps[1:2], strs("up", "down"), 0, 30, 1, 2, true, ckGet|ckRange|ckLen, "S$x | $G", "S$x | S$n")
	e.growth(strs("max=1 mode=0"), growRamps[:1], strs("up"), 0, 30, 1, 2, true, ckGet|ckRange|ckLen, "S$x | $G")
	e.programs(strs("max=1"), strs("one"), 1, ckConc|ckLen, []string{"", "S0 S1"}, "S0 S1 S2 S3", 2, "S0 S2 S3 G0 G3", 2)
	if e.thorough {
		e.programs(strs("max=1", "max=2", "default", "max=1 mode=0", "max=1 mode=2", "max=1 mode=3"), strs("one", "split", "dense"), 1, ckConc|ckLen, []string{"", "S0", "S0 S1"}, "S0 S1 S2 S3", 2, "S0 S1 S2 S3 G0 G3", 2)
		e.programs(strs("entry max=1"), strs("one", "split"), 1, ckConc|ckLen, []string{"", "I0 I1"}, "I0 I1 I2 I3", 2, "I0 I2 I3 G0 G3", 2)
		e.trios(cf, strs("one", "split"), 1, ckConc|ckLen, []string{"", "S0 S1"}, "S0 S1 S2 S3 G2")
		e.concs(cf, strs("one", "edge", "coll", "split"), 2, true, ckConc|ckLen, "; S0 | S0", "S0 S1 ; S2 | G2", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; S2 | G2 G0", "S0 S1 ; S2 | D0")
		e.concs(cf, strs("one", "split", "dense", "edge"), 1, false, ckConc|ckLen, "S0 S1 ; S2 S3 | S3 S4", "S0 S1 ; S2 | G0 G1 G2", "S0 S1 ; I2 | S2", "S0 S1 ; D0 S2 | S0 ; S3 S4")
		e.concs(strs("max=2"), strs("one", "split"), 2, true, ckConc|ckLen, "S0 ; S1 | S2 | S3", "S0 S1 ; S2 | S2 | G2")
	}
}

// C27: with an item pool, concurrent operations are linearizable, also while the pool grows.
func c27(e *em) {
	cf := strs("max=2 mode=5 pool")
	e.concs(cf, strs("one", "spread"), 1, false, ckConc|ckLen, "S0 ; S0 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; S2 | D0 G1")
	e.concs(cf, concKeys, 1, true, ckConc|ckLen, "S0 S1 ; S2 | G2 G0", "S0 S1 ; I2 | S2", "S0 S1 ; S2 S3 | S3 D0", "S0 S1 ; S2 | S2 | G2", "S0 S1 ; D0 S2 | D1 S0")
	e.concs(strs("max=2 mode=5 pool", "mode=5"), strs("one"), 1, true, ckConc|ckLen, "; S0 | G0 S1", "; S0 | S0 | G0", "; S0 D0 | S1 G0")
	e.growth(cf, growRamps, strs("up", "bit", "down"), 0, 30, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | $G", "S$x | S$n", "S$x G$l | D$l G$x")
	// the pool of a shard has room for 64 items and then grows
	for _, n := range []int{63, 64} {
		pre := fmt.Sprintf("up:S:0-%d", n)
		k := strs("ramp:1000000000000000,0008000000000000,68")
		cx := strs("mode=5 pool")
		e.concs(cx, k, 1, true, ckGet|ckRange|ckLen, pre+" ; S64 | S0", pre+" ; S64 | G0 G63", pre+" ; S64 | D0", pre+" ; S64 | R", pre+" ; S64 S65 | S66", pre+" ; S64 | S64")
		if e.thorough {
			e.concs(strs("mode=5 pool", "max=4 mode=5 pool"), k, 1, false, ckGet|ckRange|ckLen, pre+" ; S64 | S0", pre+" ; S64 | G0 G63", pre+" ; S64 | D0 S0", pre+" ; S64 | R", pre+" ; S64 | L0")
			e.concs(cx, k, 2, true, ckGet|ckRange|ckLen, pre+" ; S64 | S0", pre+" ; S64 | G0")
		}
	}
	e.concs(cf, concKeys, 1, true, ckConc|ckLen, "S0 S1 ; S2 | R", "S0 S1 S2 ; D1 S3 | R", "S0 S1 S2 ; P1 S1 | R", "S0 S1 ; S2 | Q")
	e.growth(strs("max=2 mode=5 pool", "max=1 pool"), growRamps, strs("up", "bit"), 0, 30, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | R", "S$x D$l | R")
	e.concs(cf, strs("one", "split"), 2, true, ckConc|ckLen, "S0 S1 ; S2 | S2", "S0 S1 ; S2 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | G2", "S0 S1 ; P0 S2 | D0 S1")
	e.concs(cf, strs("one"), 1, true, ckConc|ckLen, "S0 S1 ; S2 | S3 | G2 G0", "S0 S1 ; S2 | D0 | R", "S0 S1 ; S2 | S2 | D2")
	e.growth(cf, growRamps, strs("up", "down"), 0, 30, 1, 2, true, ckGet|ckRange|ckLen, "S$x | $G", "S$x | S$n")
	ins := []string{"S0 S1", "S0 S1 D0"}
	e.programs(cf, strs("one", "coll2"), 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 2, "R G0 G1 G2 H0", 1)
	if e.thorough {
		e.programs(cf, concKeys, 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 3, "R G0 G1 G2 H0", 1)
		e.programs(cf, strs("one", "coll2", "split"), 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1", 2, "S0 S1 S2 D0 D1 G0 G1 G2", 2)
		e.programs(cf, strs("one"), 2, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 1, "S0 S2 D0 D1 R G0 G2", 1)
		e.trios(cf, strs("one"), 1, ckConc|ckLen, ins, "S0 S2 D0 P1 G0 G2 R")
		e.concs(cf, strs("one", "edge", "split"), 2, true, ckConc|ckLen, "S0 S1 ; S2 | S2", "S0 S1 ; S2 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | G2")
	}
}

// C28: with embedded items, concurrent operations are linearizable, also while buckets grow and split.
func c28(e *em) {
	cf := strs("max=2 mode=4 emb")
	e.concs(cf, strs("one", "spread"), 1, false, ckConc|ckLen, "S0 ; S0 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | S2", "S0 S1 ; S2 | S3", "S0 S1 ; S2 | G0 G1", "S0 S1 ; S2 | D0 G1")
	e.concs(cf, concKeys, 1, true, ckConc|ckLen, "S0 S1 ; S2 | G2 G0", "S0 S1 ; I2 | S2", "S0 S1 ; S2 S3 | S3 D0", "S0 S1 ; S2 | S2 | G2", "S0 S1 ; D0 S2 | D1 S0", "S0 S1 S2 ; P1 S3 | G2 G0", "S0 S1 ; S2 | S0 G0")
	e.concs(strs("max=2 mode=4 emb", "mode=4 emb"), strs("one"), 1, true, ckConc|ckLen, "; S0 | G0 S1", "; S0 | S0 | G0", "; S0 D0 | S1 G0")
	e.growth(strs("max=2 mode=4 emb", "max=4 mode=4 emb"), growRamps, strs("up", "bit", "down"), 0, 40, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | $G", "S$x | S$n", "S$x G$l | D$l G$x")
	for n := 3; n <= e.q(8, 14); n++ { // growing and splitting pools of buckets
		for _, c := range strs("max=4 mode=4 emb", "max=2 mode=4 emb") {
			k := strs("ramp:1000000000000000,0080000000000000,16")
			pre := fmt.Sprintf("bit:S:0-%d", n)
			e.concs(strs(c), k, 1, true, ckGet|ckRange|ckLen, fmt.Sprintf("%s ; S%d | S0 G%d", pre, n, n-1), fmt.Sprintf("%s ; S%d | D0 G1", pre, n))
		}
	}
	e.concs(cf, strs("one", "split"), 2, true, ckConc|ckLen, "S0 S1 ; S2 | S2", "S0 S1 ; S2 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | G2", "S0 S1 ; S2 | S0", "S0 S1 ; P0 S2 | D0 S1")
	e.concs(cf, strs("one"), 1, true, ckConc|ckLen, "S0 S1 ; S2 | S3 | G2 G0", "S0 S1 ; S2 | D0 | R", "S0 S1 ; S2 | S2 | D2", "S0 S1 ; S2 | S0 | G0 G1")
	e.growth(cf, growRamps, strs("up", "down"), 0, 30, 1, 2, true, ckGet|ckRange|ckLen, "S$x | $G", "S$x | S$n", "S$x | S$f")
	e.concs(cf, concKeys, 1, true, ckConc|ckLen, "S0 S1 ; S2 | R", "S0 S1 ; S2 S3 | R", "S0 S1 S2 ; D1 S3 | R", "S0 S1 S2 ; P1 S1 | R", "S0 S1 ; S2 | Q")
	e.growth(strs("max=2 mode=4 emb", "max=4 mode=4 emb"), growRamps, strs("up", "bit", "down"), 0, 40, e.q(3, 8), 1, true, ckGet|ckRange|ckLen, "S$x | R", "S$x S$n | R", "S$x D$l | R", "S$x | L$f L$l")
	ins := []string{"S0", "S0 S1", "S0 S1 D0", "S0 S1 S2 D1"}
	e.programs(cf, strs("one", "coll", "coll2", "split"), 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 2, "R G0 G1 G2 H0", 1)
	e.programs(cf, strs("one"), 1, ckConc|ckLen, ins[1:3], "S0 S1 S2 D0 D1", 2, "S0 S1 S2 D0 D1 G0 G1 G2", 2)
	if e.thorough {
		e.programs(cf, concKeys, 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 3, "R G0 G1 G2 H0", 1)
		e.programs(cf, strs("coll", "coll2", "split", "dense"), 1, ckConc|ckLen, ins, "S0 S1 S2 D0 D1", 2, "S0 S1 S2 D0 D1 G0 G1 G2", 2)
		e.programs(cf, strs("one"), 2, ckConc|ckLen, ins, "S0 S1 S2 D0 D1 P2", 1, "S0 S2 D0 D1 R G0 G2", 1)
		e.trios(cf, strs("one"), 1, ckConc|ckLen, ins[1:3], "S0 S2 D0 P1 G0 G2 R")
		e.concs(cf, strs("one", "edge", "split"), 2, true, ckConc|ckLen, "S0 S1 ; S2 | S2", "S0 S1 ; S2 | D0", "S0 S1 ; D0 S0 | G0", "S0 S1 ; S2 | G2", "S0 S1 ; S2 | S0")
		e.concs(cf, strs("one", "edge", "split", "dense"), 1, false, ckConc|ckLen, "S0 S1 ; S2 S3 | S0 G1", "S0 S1 S2 ; P1 S3 | G2 G0", "S0 S1 ; D0 S2 | D1 S0")
	}
}

// C29: every operation comes to an end, whatever the others do.
func c29(e *em) {
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb", "max=1 mode=4", "max=1 mode=0") {
		e.concs(strs(c), strs("one"), 1, true, ckGet, "S0 S1 S2 ; P0 | P1", "S0 S1 S2 ; P0 | R", "S0 S1 S2 ; P1 S1 | S3", "S0 S1 ; S2 | P0", "S0 S1 ; S2 | P0 | R", "S0 S1 ; S2 B0 | N P1 N")
		e.concs(strs(c), strs("dense", "edge"), 1, true, ckGet, "S0 S1 S2 ; P0 S3 | P1 G2", "S0 S1 S2 ; S3 | S4 | P0")
		e.growth(strs(c), growRamps, strs("up", "down"), 0, 30, e.q(2, 5), 1, true, ckGet, "S$x | P$l", "S$x | S$n | P$f")
		e.concs(strs(c), strs("one"), 2, true, ckGet, "S0 S1 S2 ; P0 | P1", "S0 S1 ; S2 | P0", "S0 S1 S2 ; P0 | R")
		e.concs(strs(c), strs("one"), 1, true, ckGet, "S0 S1 ; P0 | P1 | S2 | G0")
		if e.thorough {
			e.concs(strs(c), strs("one", "split"), 2, true, ckGet, "S0 S1 S2 ; P0 | P1", "S0 S1 ; S2 | P0", "S0 S1 S2 ; P0 | R")
			e.concs(strs(c), strs("one", "split", "edge"), 1, false, ckGet, "S0 S1 S2 ; P0 | P1", "S0 S1 ; S2 | P0 G1", "S0 S1 S2 ; P0 S0 | R", "S0 S1 ; S2 B0 | N P1 N")
			e.concs(strs(c), strs("one"), 1, true, ckGet, "S0 S1 ; S2 | S3 | P0 | G1", "S0 S1 ; P0 | P1 | S2 | R")
		}
	}
	// alone, too: no operation keeps a lock or loops
	for _, c := range strs("max=1", "max=2 mode=0", "max=2 mode=2", "max=2 itemfn", "max=2 mode=5 pool", "max=2 mode=4 emb") {
		for _, k := range strs("one", "edge", "coll") {
			e.part("every kind of operation, alone: all words of length 1..4, [%s], keys %s", c, k)
			e.words("S0 S1 D0 D2 P0 P2 I1 I2 U0 U2 R0 W1 H2 M0 X1 E1", 1, e.q(4, 5), nil, func(ops string) { e.seq(c, k, "", ops, ckGet|ckItem|ckLen) })
		}
	}
	e.seqSweep("every kind of operation, alone", strs("rmap"), strs("one", "coll"), "S0 S1 D0 D2 G0 G2 H0 H2", 1, e.q(4, 5), nil, ckGet|ckLen)
	e.seqSweep("every kind of operation, alone", strs("entry max=1", "entry"), strs("one", "edge"), "I0 I1 I2 D0 D2 P0 P2 U0 U2 R0 W1", 1, e.q(4, 5), nil, ckGet|ckItem|ckLen)
	// keys with the largest and smallest positions, and deep structures, end too
	for _, c := range strs("max=1", "max=1 mode=0", "max=1 mode=4", "max=1 mode=5 pool", "max=1 mode=4 emb", "max=2 mode=4 emb") {
		e.part("growth at the ends of the key space, [%s]", c)
		for _, rp := range strs("0,1", "fffffffffffffe00,1", "1000000000000000,1", "0fffffffffffff80,1", "7fffffffffffffc0,1", "8000000000000000,1", "f000000000000000,1") {
			for _, o := range strs("up", "down", "bit") {
				for n := 2; n <= e.q(80, 256); n += 6 {
					e.seq(c, fmt.Sprintf("ramp:%s,%d", rp, n), "", fmt.Sprintf("%s:S:0-%d", o, n), ckGet|ckRange)
				}
			}
		}
	}
}

// C35: lookups wait for nobody: they end wherever the others were stopped.
func c35(e *em) {
	const ck = ckGet | ckNoWait
	e.concs(strs("entry max=2"), strs("one", "edge"), 1, false, ck, "I0 I1 ; I0 | G0 G1", "I0 I1 ; I2 | G2 G0 N", "I0 I1 ; D0 | G0 L1", "I0 I1 ; P0 | G0 H1 K0", "I0 D0 ; I0 | L0 H0")
	for _, c := range c35cfgs {
		e.concs(strs(c), strs("one", "edge", "coll"), 1, false, ck, "S0 S1 ; S0 | G0 G1", "S0 S1 ; S2 | G2 G0 N", "S0 S1 ; D0 | G0 L1", "S0 S1 ; P0 | G0 H1 K0", "S0 S1 S2 ; P1 S1 | G0 L1 H2 N", "S0 S1 ; I2 | L2 K0 N", "S0 D0 ; S0 | L0 H0", "; S0 | G0 L1 N", "S0 S1 ; U0 | L0 G0")
		e.growth(strs(c), growRamps, strs("up", "bit", "down"), 0, 40, e.q(3, 8), 1, true, ck, "S$x | $G G$x", "S$x | N H$x K$l", "P$l S$x | L$f H$x L$l")
		e.growth(strs(c), growRamps[:2], strs("up"), 0, 40, e.q(1, 4), 1, false, ck, "S$x | L$f H$x G$l")
		e.concs(strs(c), strs("one", "split"), e.q(1, 2), true, ck, "S0 S1 ; S2 | P0 | G0 G2 N", "S0 S1 S2 ; P1 | S3 | L1 L3", "S0 S1 ; S0 D0 | P1 | L0 H1")
		if e.thorough {
			e.concs(strs(c), concKeys, 2, false, ck, "S0 S1 ; S0 | G0 G1", "S0 S1 ; P0 | S2 | G0 L2")
			e.concs(strs(c), strs("one", "dense"), 2, true, ck, "S0 S1 ; S2 S3 | P0 | G0 G2 N | L3 H1", "S0 S1 S2 ; P1 S1 | S3 D3 | L1 L3")
			e.growth(strs(c), growRamps, strs("up", "bit"), 0, 40, 3, 2, true, ck, "S$x | P$l | G$x L$f")
		}
	}
}

// C36: a call that panics changes nothing.
func c36(e *em) {
	const ck = ckGet | ckRange | ckLen | ckItem | ckEnds | ckSearch
	cs := cat2(cfgAll, strs("entry max=2", "entry=string max=2", "entry=custom max=2"))
	for _, c := range cs {
		whats := rng(0, 9)
		keys := strs("one", "edge", "split")
		s := "S"
		if strings.HasPrefix(c, "entry") {
			whats, s = rng(2, 9), "I"
			keys = strs("one", "edge")
		}
		for _, w := range whats {
			al := fmt.Sprintf("%s0 %s1 %s2 D0 P1 x%d x%d", s, s, s, w, w+10)
			for _, k := range keys {
				e.part("calls that panic: all words of length 1..%d over {%s}, [%s], keys %s", e.q(4, 5), al, c, k)
				e.words(al, 1, e.q(4, 5), func(w []string) bool { return strings.Contains(strings.Join(w, " "), "x") }, func(ops string) { e.seq(c, k, "", ops, ck) })
			}
		}
		var mix []string
		for _, w := range whats {
			mix = append(mix, fmt.Sprintf("x%d", w+20))
		}
		// many in a row, and in maps that grow
		for _, w := range append(mix, "A0", "a1") {
			e.again("calls that panic", strs(c), w, ck)
			e.again("calls that panic", strs(c), w+" "+s+"0", ck)
		}
		e.ramps("calls that panic, growth", strs(c), rampSet, strs("up", "bit"), cat(rng(1, 12), e.gaps(rng(13, 60), e.q(11, 3))), func(n int) []string {
			x, half := []string{}, []string{}
			for k := 0; k < n; k++ {
				w := whats[k%len(whats)]
				x = append(x, fmt.Sprintf("x%d x%d", k*10+w, k*10+whats[0]))
				half = append(half, fmt.Sprintf("D%d x%d", k, k*10+w), fmt.Sprintf("%s%d x%d", s, k, k*10+whats[0]))
			}
			return strs(strings.Join(x, " ")+fmt.Sprintf(" up:P:0-%d up:%s:0-%d", n/2, s, n), strings.Join(half, " "), strings.Join(x[:n/2], " ")+fmt.Sprintf(" A%d a0 bit:%s:0-%d", n/3, s, n))
		}, ck)
	}
	// others go on
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb", "max=1 itemfn") {
		for w := 0; w <= 9; w++ {
			e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, fmt.Sprintf("S0 S1 ; x%d | S2", w), fmt.Sprintf("S0 S1 ; x%d D0 | P1", w+20), fmt.Sprintf("S0 ; x%d | x%d G0", w+10, w))
			e.concs(strs(c), strs("one", "split"), e.q(1, 2), true, ckConc|ckLen, fmt.Sprintf("S0 S1 ; x%d | S2 | D0 L1", w), fmt.Sprintf("S0 S1 ; x%d S3 | S2 | x%d P1", w+10, w))
		}
	}
}

var c35cfgs = strs("max=2", "max=1 mode=0", "max=2 itemfn", "max=1 mode=2", "default", "max=2 pool", "max=2 mode=5 pool")

// C30: the read-mostly map: Get returns the latest Set.
func c30(e *em) {
	for _, k := range strs("one", "spread", "edge", "coll") {
		e.seqSweep("read-mostly map", strs("rmap"), strs(k), "S0 S1 S2 G0 G1 G2", 1, e.q(5, 7), nil, ckGet|ckItem)
	}
	e.seqSweep("read-mostly map", strs("rmap"), strs("one", "coll"), "S0 S1 S2 S3 G0 G3 H1", 1, e.q(4, 6), nil, ckGet|ckEvery)
	e.seqSweep("read-mostly map, by hash", strs("rmap"), strs("one", "coll"), "J0 J1 S0 S2 H0 H1 D0", 1, e.q(5, 6), nil, ckGet|ckItem|ckLen)
	e.texts(strs("rmap"), strs("up", "bit"), func(n int) []string {
		return strs("", fmt.Sprintf("up:G:0-%d up:S:0-%d", n, n/2), fmt.Sprintf("up:H:0-%d down:J:0-%d up:G:0-%d", n, n, n))
	}, ckGet|ckItem|ckLen)
	e.again("read-mostly map", strs("rmap"), "S0", ckGet|ckLen)
	e.again("read-mostly map", strs("rmap"), "S0 G0", ckGet|ckLen)
	e.again("read-mostly map", strs("rmap"), "G0 G1 S1", ckGet|ckLen)
	e.seqSweep("read-mostly map, any values", strs("rmap"), strs("one", "coll"), "T0 V0 T1 V1 G0 G1", 1, e.q(5, 7), nil, ckGet|ckItem)
	rmapRamps(e)
	for _, n := range []int{300, 1100, e.q(2500, 9000)} {
		e.part("read-mostly map of %d keys", n)
		k := fmt.Sprintf("ramp:0123456789abcdef,0fedcba987654321,%d", n)
		for _, t := range strs("", "up:G:0-%[1]d bit:S:0-%[2]d up:S:%[2]d-%[1]d", "bit:G:0-%[2]d up:S:0-%[1]d bit:S:0-%[2]d up:G:0-%[1]d zig:D:0-%[2]d") {
			if t != "" {
				t = fmt.Sprintf(t, n, n/3)
			}
			e.seq("rmap", k, "", strings.TrimSpace(fmt.Sprintf("up:S:0-%d %s", n, t)), ckGet|ckLen)
		}
	}
}

func rmapRamps(e *em) {
	e.part("read-mostly map, growth with reads in between")
	for _, rp := range rampSet {
		for n := 2; n <= e.q(60, 200); n += 3 {
			for _, every := range []int{1, 3, 7, 1000} {
				var w []string
				for i := 0; i < n; i++ {
					w = append(w, fmt.Sprintf("S%d", i))
					if i%every == every-1 {
						w = append(w, fmt.Sprintf("G%d G%d", i/2, i))
					}
				}
				e.seq("rmap", fmt.Sprintf("ramp:%s,%d", rp, n), "", strings.Join(w, " "), ckGet|ckLen)
				e.seq("rmap", fmt.Sprintf("ramp:%s,%d", rp, n), strings.Join(w, " "), fmt.Sprintf("up:D:0-%d up:G:0-%d up:S:%d-%d", n/2, n, n/3, n), ckGet|ckLen)
			}
		}
	}
}

// C31: the read-mostly map: Delete and Len.
func c31(e *em) {
	for _, k := range strs("one", "spread", "edge", "coll") {
		e.seqSweep("read-mostly map", strs("rmap"), strs(k), "S0 S1 D0 D1 G0 G1 G2", 1, e.q(5, 7), nil, ckGet|ckLen)
		e.seqSweep("read-mostly map, counted after every step", strs("rmap"), strs(k), "S0 S1 S2 D0 D1 G2", 1, e.q(5, 7), startsSet, ckLen|ckEvery)
	}
	e.seqSweep("read-mostly map, any values", strs("rmap"), strs("one", "coll"), "T0 V0 V1 D0 D1 G0 G1", 1, e.q(5, 6), nil, ckGet|ckLen)
	rmapRamps(e)
	e.again("read-mostly map", strs("rmap"), "D0 S0", ckGet|ckLen)
	e.again("read-mostly map", strs("rmap"), "S0 D0 G0", ckGet|ckLen)
	e.again("read-mostly map", strs("rmap"), "S0 G0 D0 G1", ckGet|ckLen)
	e.texts(strs("rmap"), strs("up", "bit"), func(n int) []string {
		return strs(fmt.Sprintf("up:D:0-%d", n/2), fmt.Sprintf("up:G:0-%d up:D:0-%d up:S:0-%d", n, n, n/2), fmt.Sprintf("up:D:0-%d up:G:0-%d up:J:0-%d up:D:0-%d", n, n, n, n/3))
	}, ckGet|ckLen)
	e.seqSweep("read-mostly map", strs("rmap"), strs("one"), "S0 S1 S2 D0 D1 D2 G0 G2", 3, e.q(5, 6), startsSet, ckGet|ckLen)
	for _, n := range []int{300, 1100, e.q(2500, 9000)} {
		e.part("read-mostly map of %d keys", n)
		k := fmt.Sprintf("ramp:0123456789abcdef,0fedcba987654321,%d", n)
		for _, t := range strs("", "up:G:0-%[1]d bit:D:0-%[2]d up:S:%[2]d-%[1]d", "bit:G:0-%[2]d up:D:0-%[1]d bit:S:0-%[2]d up:G:0-%[1]d zig:D:0-%[2]d") {
			if t != "" {
				t = fmt.Sprintf(t, n, n/3)
			}
			e.seq("rmap", k, "", strings.TrimSpace(fmt.Sprintf("up:S:0-%d %s", n, t)), ckGet|ckLen)
		}
	}
}

// C32: the read-mostly map, concurrently.
func c32(e *em) {
	cf := strs("rmap")
	e.concs(cf, strs("one"), 1, false, ckGet|ckLen, "S0 ; S0 | G0", "S0 ; D0 | G0", "S0 ; S0 | S0", "S0 ; S0 | D0", "S0 G0 G0 ; S0 | D0", "S0 S1 ; D0 | D0", "S0 ; S1 | G0", "S0 ; S1 | S1", "S0 G0 ; S1 | S2", "S0 G0 G0 S1 ; G1 | S1", "S0 G0 G0 S1 ; G1 G1 | S1 S0", "S0 G0 S1 ; G1 G1 | D0 D1", "S0 S1 G0 G1 G0 ; D0 | S0")
	e.concs(cf, strs("one", "coll"), 1, true, ckGet|ckLen, "S0 G0 S1 ; G1 S1 | G0 D1", "S0 G0 S1 ; G1 | D1 | S1", "S0 ; S1 | S1 | G1", "S0 G0 S1 ; G1 G2 | N D1", "S0 ; D0 S0 | D0 G0", "; S0 | S0", "; S0 | G0 | D0")
	e.concs(cf, strs("one"), 1, false, ckGet|ckLen, "S0 ; J0 | H0", "S0 G0 S1 ; J1 | G1 G1", "S0 ; J1 | D1 H1")
	for _, n := range []int{5, 20, 40} {
		k := strs(fmt.Sprintf("ramp:1000000000000000,0008000000000000,%d", n+2), fmt.Sprintf("ramp:0123456789abcdef,0fedcba987654321,%d", n+2))
		pre := fmt.Sprintf("up:S:0-%d ; ", n)
		e.concs(cf, k, 1, true, ckGet|ckLen, pre+fmt.Sprintf("S%d | G0 G%d", n, n-1), pre+fmt.Sprintf("S%d | S%d", n, n+1), pre+fmt.Sprintf("G%d D0 | S%d G0", n-1, n), pre+fmt.Sprintf("S%d D%d | G%d", n, n-1, n-1))
		pre = fmt.Sprintf("up:S:0-%d up:G:0-%d ; ", n, n)
		e.concs(cf, k, 1, true, ckGet|ckLen, pre+fmt.Sprintf("S%d | G0 G%d", n, n), pre+fmt.Sprintf("D0 S%d | G0 S0", n))
	}
	e.concs(cf, strs("one"), 2, true, ckGet|ckLen, "S0 ; S0 | D0", "S0 ; S1 | G1", "S0 G0 S1 ; G1 | S1")
	e.concs(cf, strs("one"), 2, true, ckGet|ckLen, "S0 G0 S1 ; G1 | D1", "S0 ; D0 S0 | D0", "; S0 | S0", "S0 S1 ; G0 G1 | S0", "S0 G0 S1 S2 ; G2 G1 | S2 D1")
	e.concs(cf, strs("one", "coll"), 1, true, ckGet|ckLen, "S0 G0 S1 ; D0 N | D1 N", "S0 ; S1 N | S2 N", "S0 G0 S1 ; G1 N | S2 N", "S0 G0 S1 ; D1 | S2 | N")
	e.concs(cf, strs("one", "coll"), 1, true, ckGet|ckLen, "S0 G0 S1 ; G1 | S1 | D1", "S0 S1 ; S0 | G0 G1 | D1", "S0 G0 S1 ; G1 G0 | S2 | S0 D0")
	e.programs(cf, strs("one"), 1, ckGet|ckLen, []string{"S0", "S0 G0 S1"}, "S0 S1 D0 D1", 2, "S0 S1 D0 D1 G0 G1", 2)
	e.programs(cf, strs("one"), 2, ckGet|ckLen, []string{"S0", "S0 G0 S1"}, "S0 S1 S2 D0 D1 G0", 1, "S0 S1 D0 D1 G0 G1 H1", 1)
	if e.thorough {
		e.programs(cf, strs("one", "coll"), 1, ckGet|ckLen, []string{"", "S0", "S0 G0 S1", "S0 G0 S1 D0"}, "S0 S1 S2 D0 D1 G0", 2, "S0 S1 D0 D1 G0 G1", 2)
		e.trios(cf, strs("one"), 1, ckGet|ckLen, []string{"S0", "S0 G0 S1"}, "S0 S1 D0 D1 G0 G1")
		e.concs(cf, strs("one", "spread"), 2, true, ckGet|ckLen, "S0 G0 S1 ; G1 | D1", "S0 G0 S1 ; G1 G1 | S1 S0", "S0 ; D0 S0 | D0", "; S0 | S0", "S0 G0 S1 ; G1 | S1 | D1")
		e.concs(cf, strs("one"), 2, false, ckGet|ckLen, "S0 G0 G0 ; S0 | D0", "S0 G0 G0 S1 ; G1 | S1")
	}
}

// C33: maps used concurrently do not influence each other.
func c33(e *em) {
	c33pools(e)
	// with statistics, which all maps share
	for _, c := range strs("max=2; max=2", "max=2 mode=0; max=2 mode=4", "max=2 mode=5 pool; max=2", "max=2 mode=4 emb; max=2 mode=4 emb") {
		e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, "S0 S1 S0@1 S1@1 E1 ; G0 | G1@1", "S0 S1 S0@1 S1@1 E1 ; S2 | G1@1", "S0 S1 S0@1 S1@1 E1 ; S0 | D1@1", "S0 S1 S0@1 S1@1 E1 ; S2 | S2@1")
	}
	// a map is made while another one is used
	for _, c := range strs("max=2", "max=2 mode=5 pool", "max=2 mode=4 emb", "max=1 mode=0") {
		for o := 0; o < 5; o++ {
			e.concs(strs(c), strs("one"), 1, true, ckConc|ckLen, fmt.Sprintf("S0 S1 ; S2 | O%d", o), fmt.Sprintf("S0 S1 ; D0 S0 G1 | O%d", o), fmt.Sprintf("S0 S1 ; R | O%d", o))
			e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, fmt.Sprintf("S0 S1 ; G0 | O%d", o))
		}
	}
	e.concs(strs("max=2"), strs("one"), 1, false, ckConc|ckLen, "S0 S1 ; S2 | O0", "; O1 | S0", "; O2 | S0", "; O4 | O1")
	e.concs(strs("rmap"), strs("one"), 1, true, ckGet|ckLen, "S0 G0 S1 ; G1 S0 | O3", "; S0 | O3", "; O3 | O3")
	e.concs(strs("max=2 mode=0; max=2 mode=2", "rmap; max=2"), strs("one"), 1, false, ckGet|ckLen, "S0 S0@1 ; S0 D0 | G0@1 S0@1")
	e.concs(strs("max=2 mode=0; max=2 mode=2"), strs("one"), 1, false, ckGet|ckLen, "; S0 | S1@1")
	e.concs(strs("entry max=2; max=2"), strs("one"), 1, false, ckGet|ckLen, "; I0 | S1@1", "I0 S0@1 ; I0 D0 | G0@1 S0@1")
	e.concs(strs("rmap; rmap"), strs("one"), 1, true, ckGet|ckLen, "S0 S0@1 ; S0 D0 | G0@1 S0@1")
	for _, c := range strs("max=2; max=2 mode=4", "max=2 mode=5 pool; max=2 mode=5 pool", "max=2 mode=4 emb; max=2 mode=4 emb", "max=2 mode=4 emb; max=2", "default; mode=5 pool") {
		e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, "S0 S1 S0@1 S1@1 ; S2 | S2@1", "S0 S1 S0@1 S1@1 ; D0 S0 | G1@1 D1@1", "S0 S1 S0@1 S1@1 ; L0 | I0@1", "; S0 | S1@1")
		if strings.Contains(c, "emb") || strings.Contains(c, "pool") || e.thorough {
			e.concs(strs(c), strs("one"), 1, false, ckConc|ckLen, "S0 S1 S2 S0@1 S1@1 ; P1 | S2@1", "S0 S1 S0@1 S1@1 ; S2 | R@1")
		}
		e.concs(strs(c), strs("one"), 1, true, ckConc, "S0 S1 S0@1 S1@1 ; G0 | G1@1", "S0 S1 S0@1 S1@1 ; S2 | G1@1", "S0 S1 S0@1 S1@1 ; S2 | S2@1", "S0 S1 S0@1 S1@1 ; D0 | R@1", "S0 S1 S2 S0@1 S1@1 ; P1 | S2@1", "S0 S1 S2 S0@1 S1@1 S2@1 ; P1 | P0@1", "S0 S1 S2 S0@1 S1@1 S2@1 ; R | P0@1")
		e.concs(strs(c), strs("one"), 1, false, ckConc, "S0 S1 S0@1 S1@1 ; G0 | G1@1", "S0 S1 S0@1 S1@1 ; G1 | S0@1", "S0 S1 S0@1 S1@1 ; B0 | G1@1")
		if e.thorough {
			e.concs(strs(c), strs("one", "edge"), 1, false, ckConc, "S0 S1 S0@1 S1@1 ; S2 | S2@1", "S0 S1 S2 S0@1 S1@1 ; P1 | S2@1", "S0 S1 S0@1 S1@1 ; S2 | R@1")
			e.concs(strs(c), strs("one"), 2, true, ckConc, "S0 S1 S0@1 S1@1 ; G0 | G1@1", "S0 S1 S0@1 S1@1 ; S2 | G1@1", "S0 S1 S2 S0@1 S1@1 ; P1 | G1@1")
		}
	}
}

// nearly full pools in two maps: together they would be full
func c33pools(e *em) {
	for _, n := range []int{31, 32, 33, 63} {
		var init []string
		for i := 0; i < n; i++ {
			init = append(init, fmt.Sprintf("S%d S%d@1", i, i))
		}
		pre := strings.Join(init, " ")
		k := strs("ramp:1000000000000000,0008000000000000,68")
		for _, c := range strs("mode=5 pool; mode=5 pool", "max=2 pool; mode=5 pool") {
			e.concs(strs(c), k, 1, true, ckGet|ckRange|ckLen,
				fmt.Sprintf("%s ; S%d S%d | G0@1 G%d@1", pre, n, n+1, n-1), fmt.Sprintf("%s ; S%d | S%d@1 S%d@1", pre, n, n, n+1), fmt.Sprintf("%s ; S%d S%d | D0@1 S0@1", pre, n, n+1))
		}
	}
}

// C34: looking a key up does not degrade to a scan of the whole map.
func c34(e *em) { lookupCases(e) }
