package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"

	"github.com/kazu/elist_head"
	smap "github.com/kazu/skiplistmap"

	v "verif/vsched"
)

// what to compare after a step
const (
	ckGet    = 1 << iota // Get of every key: presence and value
	ckRange              // Range: order, exactly once, values
	ckLen                // Len
	ckItem               // LoadItem, GetByHash, LoadItemByHash agree with Get
	ckEarly              // Range and RangeItem stop when told to
	ckEnds               // First and Last
	ckIdent              // an item keeps its identity while it is in the map
	ckSearch             // SearchKey finds the entry of every present key
	ckBytes              // a []byte key with the same content finds the same entry
	ckEvery              // compare after every step, not only after the last
	ckTypes              // integer keys of other types with the same value find the same entry
	ckNoWait             // threads that only read never wait for another thread

	ckAll = ckGet | ckRange | ckLen | ckItem | ckEarly | ckEnds | ckIdent | ckSearch | ckBytes | ckTypes
)

// seqRun is one map with its reference model.
type seqRun struct {
	*subject
	ks     *keySet
	ref    map[int]interface{}
	items  map[int]smap.MapItem // items the map must contain (same object)
	cnt    *int
	undo   []smap.OptHMap
	checks int
	over   bool // the rest of the case is not decided
}

func newSeqRun(cfg string, ks *keySet, checks int, cnt *int) *seqRun {
	r := &seqRun{ks: ks, ref: map[int]interface{}{}, items: map[int]smap.MapItem{}, cnt: cnt, checks: checks}
	r.subject = newSubject(cfg)
	return r
}

func (r *seqRun) val(k int) int { *r.cnt++; return *r.cnt*1000 + k }

type point struct{ X, Y int }

// same tells whether two values are the same, of whatever type.
func same(x, y interface{}) bool {
	switch x.(type) {
	case nil, int, string, float64, point, *point:
		switch y.(type) {
		case nil, int, string, float64, point, *point:
			return x == y
		}
	}
	return reflect.DeepEqual(x, y)
}

// valueOf makes the value an operation stores.
func (r *seqRun) valueOf(o Op) (x interface{}) {
	n := r.val(o.A)
	switch o.K {
	case 'V':
		return nil
	case 'Y':
		return []int{n}
	case 'T', 'i', 'u', 'r', 'v':
		switch (n/1000*2 + 4*o.A) % 9 {
		case 0:
			return fmt.Sprint("v", n)
		case 1:
			return &point{n, o.A}
		case 2:
			return point{n, o.A}
		case 3:
			return float64(n)
		case 4:
			return nil
		case 5:
			return []int{n}
		case 6:
			return map[string]int{"n": n}
		case 7:
			return (*point)(nil)
		case 8:
			return [2]interface{}{n, []byte{1}}
		}
	}
	return n
}

// fieldV is the field V of an item.
func fieldV(it smap.MapItem) interface {
	Load() interface{}
	Store(interface{})
} {
	switch x := it.(type) {
	case *smap.SampleItem:
		return &x.V
	case *customItem:
		return &x.V
	}
	panic("no field V")
}

// apply performs one operation and compares its result with the model's.
func (r *seqRun) apply(o Op) string {
	m, ks := r.m, r.ks
	_, had := r.ref[o.A]
	switch o.K {
	case 'S', 'T', 'V', 'Y', 'J': // Set (T: of a value of changing type, V: nil, Y: a slice, J: by hash)
		x := r.valueOf(o)
		ok := false
		if o.K == 'J' && r.r != nil {
			h, c := r.hash(ks, o.A)
			ok = r.r.Set2(h, c, ks.Keys[o.A], x)
		} else {
			ok = r.set(ks, o.A, x)
		}
		if !ok {
			return "Set returned false"
		}
		if !had {
			delete(r.items, o.A)
		}
		r.ref[o.A] = x
	case 'D', 'P':
		got := r.del(ks, o.A, o.K == 'P')
		delete(r.ref, o.A)
		delete(r.items, o.A)
		if got != had {
			return fmt.Sprintf("%c returned %v, want %v", o.K, got, had)
		}
	case 'd', 'p': // Delete, Purge with a key of another type
		got := r.delAlt(ks, o.A, o.K == 'p')
		delete(r.ref, o.A)
		delete(r.items, o.A)
		if got != had {
			return fmt.Sprintf("%c returned %v, want %v", o.K, got, had)
		}
	case 'I', 'i', 'F': // StoreItem of a fresh item (i: with a value of changing type, F: of the object first stored for the key)
		x := r.valueOf(o)
		it := r.itemFor(ks, o.A, x, o.K == 'F')
		if !m.StoreItem(it) {
			return "StoreItem returned false"
		}
		if !had && !r.emb {
			r.items[o.A] = it
		}
		r.ref[o.A] = x
	case 'r': // StoreItem of an item whose value was stored in its field V
		x := r.valueOf(o)
		var it smap.MapItem = &smap.SampleItem{K: ks.Keys[o.A]}
		if r.entry {
			it = r.newItem(ks, o.A, x)
		}
		fieldV(it).Store(x)
		if !m.StoreItem(it) {
			return "StoreItem returned false"
		}
		if !had && !r.emb {
			r.items[o.A] = it
		}
		r.ref[o.A] = x
	case 'v': // the field V of the loaded item is read and set
		it, ok := m.LoadItem(r.key(ks, o.A))
		if ok != had {
			return fmt.Sprintf("LoadItem ok=%v, want %v", ok, had)
		}
		if ok {
			if !same(fieldV(it).Load(), r.ref[o.A]) {
				return "Load of the item's field V: wrong value"
			}
			x := r.valueOf(o)
			fieldV(it).Store(x)
			r.ref[o.A] = x
		}
	case 'U', 'u': // update through the loaded item
		it, ok := m.LoadItem(r.key(ks, o.A))
		if ok != had {
			return fmt.Sprintf("LoadItem ok=%v, want %v", ok, had)
		}
		if ok {
			x := r.valueOf(o)
			if !it.SetValue(x) {
				return "SetValue returned false"
			}
			r.ref[o.A] = x
		}
	case 'G': // Get (it may reorganise a map that promotes on read)
		x, ok := r.get(ks, o.A)
		if w := r.ref[o.A]; ok != had || ok && !same(x, w) {
			return fmt.Sprintf("Get: ok=%v, want %v (or wrong value)", ok, had)
		}
	case 'H':
		x, ok := r.getByHash(ks, o.A)
		if w := r.ref[o.A]; ok != had || ok && !same(x, w) {
			return fmt.Sprintf("Get by hash: ok=%v, want %v (or wrong value)", ok, had)
		}
	case 'M': // switch the search mode
		r.undo = append(r.undo, m.Options(smap.BucketMode(smap.SearchMode(o.A)))...)
	case 'X': // switch the bucket size
		r.undo = append(r.undo, m.Options(smap.MaxPefBucket(o.A))...)
	case 'Z': // undo the latest option
		if n := len(r.undo); n > 0 {
			m.Options(r.undo[n-1])
			r.undo = r.undo[:n-1]
		}
	case 'E':
		smap.EnableStats = o.A != 0
	case 'C': // garbage collection, and reuse of what was freed
		runtime.GC()
		if o.A != 0 {
			churn()
		}
	case 'W': // observers
		var w io.Writer = io.Discard
		o1 := &observer{}
		switch o.A {
		case 1:
			w = nil // the standard output
		case 2, 3: // the writer uses the map
			o1.f = func() {
				for k, d := 0, len(r.ks.Keys)/16+1; k < len(r.ks.Keys); k += d {
					x, ok := r.get(r.ks, k)
					if y, has := r.ref[k]; ok != has || ok && !same(x, y) {
						o1.bad = "Get in the writer: wrong result"
					}
				}
				if m.Len() != len(r.ref) {
					o1.bad = "Len in the writer: wrong result"
				}
			}
			w = o1
		}
		m.DumpBucket(w)
		m.DumpEntry(w)
		m.DumpBucketPerLevel(w)
		if o1.bad != "" {
			return o1.bad
		}
		m.BackBucket()
		m.FindBucket(ks.Rev[o.A])
		m.First()
		m.Last()
		m.SearchKey(^uint64(0))
		m.Len()
	case 'R', 'Q': // Range, RangeItem whose function works on the map it iterates
		return r.reenter(o.A, o.K == 'Q')
	case 'B', 'b', 'A', 'a': // Range, RangeItem stopped by the function (A, a: by a panic) at the visit
		return r.stopped(o.A, o.K == 'b' || o.K == 'a', o.K == 'A' || o.K == 'a')
	case 'x': // a call the map cannot carry out; tens: the key
		key, taken := r.refused(ks, o.A/10, o.A%10)
		if taken {
			if w := o.A % 10; w >= 3 && w <= 6 {
				return fmt.Sprintf("key %v of a type never put is found", key)
			}
			r.over = true // it could: what it means is not said
			return ""
		}
		if o.A%10 < 2 && key != nil {
			if _, ok := m.Get(key); ok {
				return "Get finds the key of a Set that panicked"
			}
			if _, ok := m.LoadItem(key); ok {
				return "LoadItem finds the key of a Set that panicked"
			}
			if m.Delete(key) {
				return "Delete of the key of a Set that panicked returned true"
			}
		}
	case 'N':
	case 'O': // another map is made and used
		return r.bystander(o.A)
	default:
		panic("bad op " + o.String())
	}
	return ""
}

// observer is a writer that looks at the map while the map is written to it.
type observer struct {
	f   func()
	n   int
	bad string
}

func (o *observer) Write(b []byte) (int, error) {
	if o.n++; o.n < 4 {
		o.f()
	}
	return len(b), nil
}

// stopped iterates the map until the given visit, where the function returns
// false or panics. What comes after must not be affected.
func (r *seqRun) stopped(at int, item, panics bool) (msg string) {
	want := r.sorted()
	n := 0
	visit := func(key, x interface{}) bool {
		switch i := r.index(r.ks, key); {
		case n > at:
			msg = "Range goes on after its function stopped it"
		case i < 0 || n >= len(want) || r.ks.Rev[i] != r.ks.Rev[want[n]]:
			msg = "Range: wrong key at its place in the order"
		case !same(x, r.ref[i]):
			msg = "Range: wrong value"
		}
		if n++; n == at+1 && panics {
			panic("stopped")
		}
		return n != at+1
	}
	defer func() {
		if x := recover(); x != nil && x != "stopped" {
			panic(x)
		}
		if lim := at + 1; msg == "" && n != lim && n != len(want) || n > lim {
			msg = "Range: wrong number of visits"
		}
	}()
	if item {
		r.m.RangeItem(func(it smap.MapItem) bool { return visit(it.Key(), it.Value()) })
	} else {
		r.m.Range(visit)
	}
	return
}

// bystander makes another map, of the a-th kind, and uses it.
func (r *seqRun) bystander(a int) string {
	c := bystanders[a%len(bystanders)]
	s := newSubject(c)
	for k := range r.ks.Keys {
		if k < 3 && !s.set(r.ks, k, -1-k) {
			return "Set on another map returned false"
		}
	}
	for k := range r.ks.Keys {
		x, ok := s.get(r.ks, k)
		if ok != (k < 3) || ok && x != -1-k {
			return "another map: wrong result of Get"
		}
	}
	if len(r.ks.Keys) > 0 {
		s.del(r.ks, 0, false)
	}
	return ""
}

var bystanders = []string{"max=1", "max=3 mode=5 pool", "max=2 mode=4 emb", "rmap", "max=2 itemfn", "max=3 mode=0"}

// reenter iterates the map (item: with RangeItem) and works on it from inside
// the function: a = visit*100000 + key*10 + what. Keys that are present all the
// time must be visited exactly once, a key deleted before its visit must not be.
//
//	what = 0..5: Delete, Set, Purge, and pairs of these, of the key at the visit
//	6: Range inside Range
//	7: Set of the key and the five after it, and Delete of another key
//	8: from the visit on, at every visit, Set of the next key
//	9: from the visit on, at every visit, Purge of the visited key and Set of the next key
//	10, 11 (key 9999, what 0 and 1): from the visit on, at every visit, Delete or Purge of the visited key and Set of it
func (r *seqRun) reenter(a int, item bool) string {
	what, k, at := a%10, a/10%10000, a/100000
	if k == 9999 {
		what, k = what+10, 0
	}
	before := map[int]bool{}
	for i := range r.ref {
		before[i] = true
	}
	seen, gone, touched := map[int]int{}, map[int]bool{}, map[int]bool{}
	n := 0
	msg := ""
	bad := func(s string) {
		if msg == "" {
			msg = s
		}
	}
	change := func(o byte, k int) {
		if k >= len(r.ks.Keys) {
			return
		}
		if o == 'S' && r.entry {
			o = 'I'
		}
		_, had := r.ref[k]
		if s := r.apply(Op{K: o, A: k}); s != "" {
			bad("inside Range: " + s)
		}
		gone[k] = o == 'D' || o == 'P'
		if gone[k] || !had {
			touched[k] = true
		}
	}
	lo := -1
	inside := func(visited int) {
		if k >= len(r.ks.Keys) {
			return
		}
		ck := ckGet | ckLen
		switch what {
		case 6:
			ck = ckGet | ckRange | ckItem // Range inside Range
		case 7:
			for i := 0; i < 6; i++ {
				change('S', k+i)
			}
			for i := range before { // and one of the others removed
				if i < k || i > k+5 {
					if lo < 0 || i < lo {
						lo = i
					}
				}
			}
			if lo >= 0 {
				change('D', lo)
			}
		case 8:
			change('S', k+n-at-1)
		case 9:
			change('P', visited)
			change('S', k+n-at-1)
		case 10, 11: // the visited key removed and stored again, at every visit
			change("DP"[what-10], visited)
			change('S', visited)
		default:
			for _, o := range []string{"D", "S", "P", "DS", "PS", "SD"}[what] {
				change(byte(o), k)
			}
		}
		if s := r.compare(ck, false); s != "" {
			bad("inside Range: " + s)
		}
	}
	var last uint64
	limit := 3*len(r.ks.Keys) + 10
	visit := func(key, x interface{}) bool {
		i := r.index(r.ks, key)
		if i < 0 {
			bad("Range: visited an entry that is no key")
			return false
		}
		if gone[i] {
			bad("Range whose function works on the map: visited a key deleted before")
		}
		if n > 0 && r.ks.Rev[i] < last {
			bad("Range: out of order")
		}
		if w, ok := r.ref[i]; ok && !same(x, w) {
			bad("Range whose function works on the map: wrong value")
		}
		last = r.ks.Rev[i]
		seen[i]++
		if n++; n == at+1 || n > at && what >= 8 {
			inside(i)
		}
		return n < limit
	}
	if item {
		r.m.RangeItem(func(it smap.MapItem) bool { return visit(it.Key(), it.Value()) })
	} else {
		r.m.Range(visit)
	}
	if msg != "" {
		return msg
	}
	if n >= limit {
		return "Range whose function works on the map: far more visits than keys"
	}
	for i := range r.ks.Keys {
		_, now := r.ref[i]
		switch {
		case before[i] && now && !touched[i] && seen[i] != 1:
			return fmt.Sprintf("Range whose function works on the map: a present key was visited %d times", seen[i])
		case !before[i] && !now && !touched[i] && seen[i] != 0:
			return "Range whose function works on the map: visited an absent key"
		case seen[i] > 1:
			return "Range whose function works on the map: visited a key twice"
		}
	}
	return ""
}

func (r *seqRun) sorted() []int {
	ks := make([]int, 0, len(r.ref))
	for k := range r.ref {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool {
		x, y := r.ks.Rev[ks[a]], r.ks.Rev[ks[b]]
		return x < y || x == y && ks[a] < ks[b]
	})
	return ks
}

// rangeItems: RangeItem visits the same keys in the same order, with their items.
func (r *seqRun) rangeItems(want []int) (msg string) {
	v.Begin(seqLimit + 1000*len(want))
	i := 0
	seen := map[int]bool{}
	r.m.RangeItem(func(it smap.MapItem) bool {
		if i >= len(want) {
			msg = "RangeItem: more items than present"
			return false
		}
		k := r.index(r.ks, it.Key())
		switch {
		case k < 0:
			msg = "RangeItem: visited an item that is no key"
		case seen[k]:
			msg = "RangeItem: visited a key twice"
		case r.ks.Rev[k] != r.ks.Rev[want[i]]:
			msg = "RangeItem: wrong key at its place in the order"
		default:
			w, ok := r.ref[k]
			if !ok {
				msg = "RangeItem: visited an absent key"
			} else if !same(it.Value(), w) {
				msg = "RangeItem: wrong value"
			}
			if c, ok := it.(*customItem); ok != (r.kind == "custom") || ok && c.more != r.ks.Keys[k] {
				msg = "RangeItem: the item is not the one that was stored"
			}
		}
		seen[k] = true
		i++
		return msg == ""
	})
	if msg == "" && i != len(want) {
		msg = "RangeItem: items missing"
	}
	return
}

// compare everything observable with the model.
func (r *seqRun) compare(checks int, deep bool) string {
	m, ks := r.m, r.ks
	if checks&ckLen != 0 {
		// before anything else: reading may reorganise the map
		if n := r.length(); n != len(r.ref) {
			return fmt.Sprintf("Len: off by %+d", n-len(r.ref))
		}
	}
	if checks&ckGet != 0 {
		for k := range ks.Keys {
			v.Begin(seqLimit)
			x, ok := r.get(ks, k)
			w, wok := r.ref[k]
			if ok != wok {
				return fmt.Sprintf("Get: ok=%v, want %v", ok, wok)
			}
			if ok && !same(x, w) {
				return "Get: wrong value"
			}
			if !ok && x != nil {
				return "Get: absent with a value"
			}
		}
	}
	if checks&ckItem != 0 {
		for k := range ks.Keys {
			w, wok := r.ref[k]
			v.Begin(seqLimit)
			if x, ok := r.getByHash(ks, k); ok != wok || ok && !same(x, w) {
				return fmt.Sprintf("Get by hash: ok=%v, want %v (or wrong value)", ok, wok)
			}
			if m == nil {
				continue
			}
			key := r.key(ks, k)
			h, c := smap.KeyToHash(key)
			v.Begin(seqLimit)
			it, ok := m.LoadItem(key)
			if ok != wok {
				return fmt.Sprintf("LoadItem: ok=%v, want %v", ok, wok)
			}
			v.Begin(seqLimit)
			it2, ok2 := m.LoadItemByHash(h, c)
			if ok2 != wok {
				return fmt.Sprintf("LoadItemByHash: ok=%v, want %v", ok2, wok)
			}
			if !ok {
				continue
			}
			if it.Key() != key || it2.Key() != key {
				return "loaded item has another key"
			}
			if c, ok := it.(*customItem); ok != (r.kind == "custom") || ok && (c.more != key || c.note[1] != uint64(k)) {
				return "loaded item is not the one that was stored"
			}
			if !same(it.Value(), w) || !same(it2.Value(), w) {
				return "loaded item has another value"
			}
			if it != it2 {
				return "LoadItem and LoadItemByHash return different items"
			}
			hd := it.PtrMapHead()
			if hd.KeyInHmap() != h || hd.ConflictInHamp() != c || hd.IsDeleted() || hd.IsDummy() {
				return "loaded item carries another hash or state"
			}
			if checks&ckIdent != 0 {
				if old, ok := r.items[k]; ok && old != it {
					return "the item in the map is not the item that was stored"
				}
			}
		}
	}
	if checks&ckSearch != 0 && m != nil {
		for k := range ks.Keys {
			_, wok := r.ref[k]
			h, c := r.hash(ks, k)
			v.Begin(seqLimit)
			e := m.SearchKey(h)
			if wok {
				if e == nil || e.PtrMapHead().KeyInHmap() != h {
					return "SearchKey: present key not found"
				}
				if e.PtrMapHead().IsDummy() || e.PtrMapHead().IsDeleted() {
					return "SearchKey: found an entry that is no item"
				}
			} else if e != nil && e.PtrMapHead().KeyInHmap() == h && e.PtrMapHead().ConflictInHamp() == c {
				return "SearchKey: absent key found"
			}
		}
	}
	if checks&ckTypes != 0 && r.intKeys() {
		for k := range ks.Keys {
			w, wok := r.ref[k]
			for _, t := range intKinds {
				key := intKey(t, bitsrev(ks.Rev[k]))
				if key == nil {
					continue
				}
				v.Begin(seqLimit)
				if x, ok := m.Get(key); ok != wok || ok && !same(x, w) {
					return fmt.Sprintf("Get of the same number as %s: ok=%v, want %v (or wrong value)", t, ok, wok)
				}
				v.Begin(seqLimit)
				if _, ok := m.LoadItem(key); ok != wok {
					return fmt.Sprintf("LoadItem of the same number as %s: ok=%v, want %v", t, ok, wok)
				}
			}
		}
	}
	if checks&ckBytes != 0 && !r.entry {
		for k, key := range ks.Keys {
			w, wok := r.ref[k]
			if m == nil {
				break
			}
			v.Begin(seqLimit)
			if x, ok := m.Get([]byte(key)); ok != wok || ok && !same(x, w) {
				return "Get of a []byte key differs from Get of the string"
			}
		}
	}
	if checks&ckRange != 0 && m != nil {
		want := r.sorted()
		i := 0
		msg := ""
		v.Begin(seqLimit + 1000*len(want))
		seen := map[int]bool{}
		m.Range(func(key, x interface{}) bool {
			if i >= len(want) {
				msg = "Range: more entries than present"
				return false
			}
			pos := ks.Rev[want[i]]
			i++
			k := r.index(ks, key)
			switch {
			case k < 0:
				msg = "Range: visited an entry that is no key"
			case seen[k]:
				msg = "Range: visited a key twice"
			case ks.Rev[k] != pos:
				msg = "Range: wrong key at its place in the order"
			default:
				w, ok := r.ref[k]
				if !ok {
					msg = "Range: visited an absent key"
				} else if !same(x, w) {
					msg = "Range: wrong value"
				}
			}
			seen[k] = true
			return msg == ""
		})
		if msg != "" {
			return msg
		}
		if i != len(want) {
			return "Range: entries missing"
		}
		if checks&(ckEarly|ckItem) != 0 {
			if s := r.rangeItems(want); s != "" {
				return s
			}
		}
	}
	if checks&ckEarly != 0 && m != nil {
		n := len(r.ref)
		for stop := 1; stop <= n; stop++ {
			i := 0
			v.Begin(seqLimit)
			m.RangeItem(func(it smap.MapItem) bool { i++; return i < stop })
			if i != stop {
				return fmt.Sprintf("RangeItem told to stop at call %d made %d calls", stop, i)
			}
			i = 0
			m.Range(func(_, _ interface{}) bool { i++; return i < stop })
			if i != stop {
				return fmt.Sprintf("Range told to stop at call %d made %d calls", stop, i)
			}
			if stop == 3 && !deep {
				break
			}
		}
	}
	if checks&ckLen != 0 {
		if n := r.length(); n != len(r.ref) {
			return fmt.Sprintf("Len after reading: off by %+d", n-len(r.ref))
		}
	}
	if checks&ckEnds != 0 && m != nil {
		f, l := m.First(), m.Last()
		if f == nil || l == nil {
			return "First or Last is nil"
		}
		lo, hi := ^uint64(0), uint64(0)
		for k := range r.ref {
			if x := ks.Rev[k]; x < lo {
				lo = x
			}
			if x := ks.Rev[k]; x > hi {
				hi = x
			}
		}
		if len(r.ref) > 0 {
			if x := bitsrev(f.PtrMapHead().KeyInHmap()); x > lo {
				return "First is behind an entry of the map"
			}
			if x := bitsrev(l.PtrMapHead().KeyInHmap()); x < hi {
				return "Last is before an entry of the map"
			}
		}
		// walking from First visits every entry up to Last in order
		n, last, c := 0, uint64(0), f.PtrMapHead()
		for steps := 0; steps < 100000; steps++ {
			x := bitsrev(c.KeyInHmap())
			if x < last {
				return "walk from First: out of order"
			}
			last = x
			if !c.IsIgnored() {
				n++
			}
			nx := c.Next()
			if nx == &c.ListHead || nx.Empty() {
				break
			}
			c = smap.EmptyMapHead.FromListHead(nx).(*smap.MapHead)
		}
		if c != l.PtrMapHead() {
			return "walk from First does not end at Last"
		}
		if n != len(r.ref) {
			return "walk from First: entries missing or too many"
		}
		if s := r.walk(f, l); s != "" {
			return s
		}
	}
	return ""
}

// walk follows Next from First and Prev from Last, through the entries'
// interface: both meet exactly the present keys, in order and reverse order.
func (r *seqRun) walk(first, last smap.HMapEntry) string {
	want := r.sorted()
	pos := func(i int) uint64 { return r.ks.Rev[want[i]] }
	e := first
	for i, steps := 0, 0; ; steps++ {
		h := e.PtrMapHead()
		if !h.IsIgnored() {
			if i == len(want) || bitsrev(h.KeyInHmap()) != pos(i) {
				return "following Next from First: wrong entry at its place in the order"
			}
			i++
		}
		if h == last.PtrMapHead() {
			if i != len(want) {
				return "following Next from First: entries missing"
			}
			break
		}
		if steps > 100000 {
			return "following Next from First does not lead to Last"
		}
		e = e.Next()
		if e.PtrListHead().Empty() {
			return "following Next from First leaves the list before Last"
		}
	}
	e = last
	for i, steps := len(want), 0; ; steps++ {
		h := e.PtrMapHead()
		if !h.IsIgnored() {
			if i--; i < 0 || bitsrev(h.KeyInHmap()) != pos(i) {
				return "following Prev from Last: wrong entry at its place in the order"
			}
		}
		if h == first.PtrMapHead() {
			if i != 0 {
				return "following Prev from Last: entries missing"
			}
			return ""
		}
		if steps > 100000 {
			return "following Prev from Last does not lead to First"
		}
		e = e.Prev()
		if e.PtrListHead().Empty() {
			return "following Prev from Last leaves the list before First"
		}
	}
}

// churn allocates objects of the sizes the map uses, so that memory the
// collector took is overwritten.
var churned []interface{}

func churn() {
	churned = churned[:0]
	for i := 0; i < 300; i++ {
		x := &smap.SampleItem{K: "churn"}
		x.SetValue(-i)
		x.Init()
		churned = append(churned, x)
		e := smap.NewEntryMap("churn", -i)
		churned = append(churned, e, &elist_head.ListHead{}, make([]smap.SampleItem, 3, 4))
	}
}

func bitsrev(x uint64) uint64 {
	var r uint64
	for i := 0; i < 64; i++ {
		r = r<<1 | x>>uint(i)&1
	}
	return r
}

// seqExec runs a sequential case on fresh maps.
func seqExec(c *Case) (msg string, st stats) {
	ops := parseOps(c.Pre)
	npre := len(ops)
	ops = append(ops, parseOps(c.Ops)...)
	ks := keysOf(c.Keys)
	at := -1
	checks := c.Checks
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case v.StepLimitError:
				msg = "no termination (endless loop or recursion)"
			case v.DeadlockError:
				msg = "deadlock: " + e.Error()
			default:
				msg = fmt.Sprintf("panic: %v @ %s", x, v.Where(string(debug.Stack())))
			}
		}
		if msg != "" && at >= 0 && at < len(ops) {
			msg = fmt.Sprintf("step %d (%s): %s", at+1-npre, ops[at], msg)
		}
		smap.EnableStats = false
	}()
	v.Begin(seqLimit)
	resetGlobals()
	cnt := 0
	var runs []*seqRun
	for _, cfg := range splitCfg(c.Cfg) {
		runs = append(runs, newSeqRun(cfg, ks, checks, &cnt))
	}
	st.trans = len(ops)
	all := func(deep bool) string {
		for i, r := range runs {
			if s := r.compare(checks, deep); s != "" {
				if i > 0 || len(runs) > 1 {
					s = fmt.Sprintf("map %d: %s", i, s)
				}
				return s
			}
		}
		return ""
	}
	if len(ops) == 0 {
		if s := all(true); s != "" {
			return s, st
		}
	}
	for i, o := range ops {
		at = i
		v.Begin(seqLimit)
		if s := runs[o.M].apply(o); s != "" {
			return s, st
		}
		if runs[o.M].over {
			return "", st
		}
		if i == len(ops)-1 || checks&ckEvery != 0 && i >= npre-1 {
			v.Begin(seqLimit)
			if s := all(i == len(ops)-1); s != "" {
				return s, st
			}
		}
	}
	at = -1
	for _, r := range runs {
		st.state = st.state*31 + r.shape()
	}
	for k := range ks.Keys {
		for _, r := range runs {
			if _, ok := r.ref[k]; ok {
				st.state = st.state*31 + uint64(k) + 1
			}
		}
	}
	return "", st
}
