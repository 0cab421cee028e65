package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	smap "github.com/kazu/skiplistmap"

	v "verif/vsched"
)

// fnExec runs a case of a stateless function: all values of a range.
func fnExec(c *Case) (msg string, st stats) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("panic: %v @ %s", x, v.Where(string(debug.Stack())))
		}
		v.RealHash = false
	}()
	v.Begin(1 << 40)
	resetGlobals()
	switch c.Fn {
	case "poolcap":
		return poolCapRange(int(c.N[0]), int(c.N[1]))
	case "hashbytes":
		return hashBytes(c.N)
	case "hashints":
		return hashInts(c.N[0])
	case "options":
		return optionsExec(c)
	case "lookup":
		return lookupCost(c)
	}
	panic("bad function " + c.Fn)
}

// poolCapRange: the capacity for n items has room for more than n items, and
// never shrinks when n grows.
func poolCapRange(lo, hi int) (string, stats) {
	st := stats{}
	prev := 0
	if lo > 0 {
		prev = smap.PoolCap(lo - 1)
	}
	for n := lo; n < hi; n++ {
		x := smap.PoolCap(n)
		st.trans++
		st.state = st.state*31 + uint64(x)
		if x <= n {
			return fmt.Sprintf("PoolCap(%d) = %d has no room for another item", n, x), st
		}
		if x < prev {
			return fmt.Sprintf("PoolCap(%d) = %d is less than PoolCap(%d) = %d", n, x, n-1, prev), st
		}
		prev = x
	}
	return "", st
}

// hashBytes: the hash of a key depends on its content only, not on the type that
// carries it (string or []byte), nor on where it lies in memory; different
// contents have different hashes.
func hashBytes(n []int64) (string, stats) {
	v.RealHash = true
	st := stats{}
	type hc struct{ h, c uint64 }
	seen := map[hc]string{}
	h1 := map[uint64]string{}
	h2 := map[uint64]string{}
	check := func(key string, distinct bool) string {
		h, c := smap.KeyToHash(key)
		for al := 0; al < 17; al++ {
			if len(key) > 5000 && al&(al-1) != 0 {
				continue
			}
			for _, fill := range []byte{0xa5, 0, 0xff} {
				if len(key) > 5000 && fill != 0xa5 {
					break
				}
				buf := make([]byte, al+len(key)+19)
				for i := range buf {
					buf[i] = fill
				}
				b := buf[al : al+len(key) : al+len(key)]
				copy(b, key)
				st.trans++
				if x, y := smap.KeyToHash(b); x != h || y != c {
					return fmt.Sprintf("[]byte and string of length %d (offset %d) hash differently", len(key), al)
				}
				if x, y := smap.KeyToHash(string(buf)[al : al+len(key)]); x != h || y != c {
					return fmt.Sprintf("equal strings of length %d at different addresses hash differently", len(key))
				}
				if smap.MemHash(b) != h || smap.MemHashString(key) != h {
					return fmt.Sprintf("MemHash of length %d differs from KeyToHash", len(key))
				}
			}
		}
		it := smap.NewSampleItem(key, 1)
		if x, y := it.KeyHash(); x != h || y != c {
			return "KeyHash of an item differs from the hash of its key"
		}
		it.Setup()
		if it.KeyInHmap() != h || it.ConflictInHamp() != c {
			return "an item set up for its key carries another hash"
		}
		if x, y := smap.NewEntryMap(key, 1).KeyHash(); x != h || y != c {
			return "KeyHash of an entry differs from the hash of its key"
		}
		if distinct {
			if o, ok := seen[hc{h, c}]; ok && o != key {
				return fmt.Sprintf("%q and %q have equal hashes", o, key)
			}
			if o, ok := h1[h]; ok && o != key {
				return fmt.Sprintf("%q and %q have equal first hashes", o, key)
			}
			if o, ok := h2[c]; ok && o != key {
				return fmt.Sprintf("%q and %q have equal second hashes", o, key)
			}
			seen[hc{h, c}], h1[h], h2[c] = key, key, key
		}
		return ""
	}
	switch n[0] {
	case 0: // all words of length up to n[1] over four bytes
		al := []byte{0, 1, 'a', 0xff}
		for l := 0; l <= int(n[1]); l++ {
			w := make([]byte, l)
			total := 1
			for i := 0; i < l; i++ {
				total *= len(al)
			}
			for x := 0; x < total; x++ {
				y := x
				for i := range w {
					w[i] = al[y%len(al)]
					y /= len(al)
				}
				if m := check(string(w), true); m != "" {
					return m, st
				}
			}
		}
	case 1: // length n[1]: every single byte matters
		w := make([]byte, n[1])
		for i := range w {
			w[i] = byte('a' + i%23)
		}
		if m := check(string(w), true); m != "" {
			return m, st
		}
		for i := range w {
			for _, d := range []byte{1, 0x80} {
				w[i] ^= d
				if m := check(string(w), true); m != "" {
					return m, st
				}
				w[i] ^= d
			}
		}
	}
	if n[0] == 2 { // long keys: the length and some bytes of every part matter
		w := make([]byte, n[1])
		for i := range w {
			w[i] = byte('a' + i%23)
		}
		if m := check(string(w), true); m != "" {
			return m, st
		}
		parts := 64
		if len(w) > 200000 {
			parts = 12
		}
		for i := 0; i < len(w); i += 1 + len(w)/parts {
			for _, j := range []int{i, len(w) - 1 - i} {
				w[j] ^= 0x80
				if m := check(string(w), true); m != "" {
					return m, st
				}
				w[j] ^= 0x80
			}
		}
	}
	st.state = uint64(st.trans)*131 + uint64(n[1])
	return "", st
}

// hashInts: equal integers of any supported type are the same key; different
// ones are not.
func hashInts(n int64) (string, stats) {
	st := stats{}
	type hc struct{ h, c uint64 }
	seen := map[hc]uint64{}
	vals := []int64{}
	add := func(x int64) {
		for d := int64(-3); d <= 3; d++ {
			vals = append(vals, x+d)
		}
	}
	for i := uint(0); i < 64; i++ {
		add(1 << i)
		add(-(1 << i))
	}
	for i := int64(-n); i <= n; i++ {
		vals = append(vals, i)
	}
	for _, x := range vals {
		h, c := smap.KeyToHash(x)
		same := func(k interface{}) bool {
			st.trans++
			a, b := smap.KeyToHash(k)
			return a == h && b == c
		}
		if !same(uint64(x)) || !same(int(x)) {
			return fmt.Sprintf("%d: int64, uint64 and int hash differently", x), st
		}
		if int64(int32(x)) == x && !same(int32(x)) {
			return fmt.Sprintf("%d: int32 hashes differently", x), st
		}
		if int64(uint32(x)) == x && !same(uint32(x)) {
			return fmt.Sprintf("%d: uint32 hashes differently", x), st
		}
		if int64(byte(x)) == x && !same(byte(x)) {
			return fmt.Sprintf("%d: byte hashes differently", x), st
		}
		if o, ok := seen[hc{h, c}]; ok && o != uint64(x) {
			return fmt.Sprintf("%d and %d have equal hashes", int64(o), x), st
		}
		seen[hc{h, c}] = uint64(x)
		if a, b := smap.NewEntryMap(x, 1).KeyHash(); a != h || b != c {
			return "KeyHash of an entry differs from the hash of its key", st
		}
	}
	st.state = uint64(len(seen))
	return "", st
}

// lookupCost: N = n, limit: with n keys in the map, no lookup takes more steps
// than the limit.
func lookupCost(c *Case) (string, stats) {
	st := stats{}
	ks := keysOf(c.Keys)
	s := newSubject(c.Cfg)
	for _, k := range order(c.Ops, 0, len(ks.Keys)) {
		if s.entry {
			s.m.StoreItem(s.newItem(ks, k, k))
		} else {
			s.set(ks, k, k)
		}
		st.trans++
	}
	// the ways to look a key up: with some keys deleted or purged, too
	gone := map[int]bool{}
	if strings.Contains(c.Pre, "D") || strings.Contains(c.Pre, "P") {
		for k := 0; k < len(ks.Keys); k += 3 {
			s.del(ks, k, strings.Contains(c.Pre, "P"))
			gone[k] = true
		}
	}
	worst, sum := 0, 0
	way := strings.Trim(c.Pre, "DP")
	for k := range ks.Keys {
		v.Begin(1 << 40)
		h, cf := s.hash(ks, k)
		ok := false
		switch way {
		case "":
			_, ok = s.get(ks, k)
		case "absent": // a key close to k
			_, ok = s.m.GetByHash(h^1<<63>>56, cf)
			ok = !ok && !gone[k]
		case "hash":
			_, ok = s.m.GetByHash(h, cf)
		case "item":
			_, ok = s.m.LoadItem(s.key(ks, k))
		case "itemhash":
			_, ok = s.m.LoadItemByHash(h, cf)
		case "search":
			e := s.m.SearchKey(h)
			ok = e != nil && e.PtrMapHead().KeyInHmap() == h
		case "set":
			if ok = !gone[k]; ok {
				s.set(ks, k, -k)
			}
		default:
			panic("bad way to look up " + c.Pre)
		}
		n := v.Steps()
		if ok == gone[k] {
			return fmt.Sprintf("lookup (%s) of key %d: found=%v", c.Pre, k, ok), st
		}
		if n > worst {
			worst = n
		}
		sum += n
		st.trans++
	}
	st.state = s.shape()
	if len(c.N) == 1 {
		return fmt.Sprintf("worst %d avg %d", worst, sum/len(ks.Keys)), st
	}
	if int64(worst) > c.N[1] {
		return fmt.Sprintf("a lookup among %d keys takes %d steps", len(ks.Keys), worst), st
	}
	if mean := int64(sum / len(ks.Keys)); mean > c.N[2] {
		return fmt.Sprintf("a lookup among %d keys takes %d steps in the mean", len(ks.Keys), mean), st
	}
	return "", st
}
