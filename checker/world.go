package main

import (
	"fmt"
	"math/bits"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/kazu/elist_head"
	list_head "github.com/kazu/loncha/lista_encabezado"
	smap "github.com/kazu/skiplistmap"
	"github.com/kazu/skiplistmap/rmap"

	v "verif/vsched"
)

// ---- the map under test ---------------------------------------------------

// A subject is one map built from a textual configuration:
//
//	default | max=N | mode=N | pool | gopool | emb | itemfn | entry[=TYPE] | rmap
//
// "entry" stores entries with keys of the integer type (uint64 by default, or
// strings) through StoreItem, or items of a type of our own (entry=custom), "rmap" is the read-mostly map of package rmap.
type subject struct {
	cfg   string
	m     *smap.Map
	r     *rmap.RMap
	emb   bool
	entry bool
	kind  string               // type of the keys of entries
	objs  map[int]smap.MapItem // the object first stored by StoreItem, per key
}

func newSubject(cfg string) *subject {
	s := &subject{cfg: cfg, objs: map[int]smap.MapItem{}}
	var opts []smap.OptHMap
	for _, f := range strings.Fields(cfg) {
		kv := strings.SplitN(f, "=", 2)
		n := 0
		if len(kv) == 2 {
			n, _ = strconv.Atoi(kv[1])
		}
		switch kv[0] {
		case "max":
			opts = append(opts, smap.MaxPefBucket(n))
		case "mode":
			opts = append(opts, smap.BucketMode(smap.SearchMode(n)))
		case "pool":
			opts = append(opts, smap.UsePool(true))
		case "gopool": // items are taken from the pool by goroutines
			smap.UseGoroutineInPool = true
			opts = append(opts, smap.UsePool(true))
		case "emb":
			opts = append(opts, smap.UseEmbeddedPool(true))
			s.emb = true
		case "itemfn":
			opts = append(opts, smap.ItemFn(func() smap.MapItem {
				if s.kind == "custom" {
					return emptyCustom
				}
				return smap.EmptySampleHMapEntry
			}))
		case "entry":
			s.entry, s.kind = true, "uint64"
			if len(kv) == 2 {
				s.kind = kv[1]
			}
		case "rmap":
			s.r = rmap.New()
			return s
		case "default":
		default:
			panic("bad configuration " + cfg)
		}
	}
	s.m = smap.New(opts...)
	return s
}

func (s *subject) key(ks *keySet, k int) interface{} {
	if s.intKeys() {
		return intKey(s.kind, bits.Reverse64(ks.Rev[k]))
	}
	return ks.Keys[k]
}

// intKey is the key of an integer type whose hash is h.
func intKey(kind string, h uint64) (k interface{}) {
	ok := true
	switch kind {
	case "uint64":
		k = h
	case "int64":
		k = int64(h)
	case "int":
		k = int(h)
	case "int32":
		k, ok = int32(h), uint64(int32(h)) == h
	case "uint32":
		k, ok = uint32(h), uint64(uint32(h)) == h
	case "byte":
		k, ok = byte(h), uint64(byte(h)) == h
	default:
		panic("bad kind of key " + kind)
	}
	if !ok {
		return nil
	}
	return k
}

var intKinds = []string{"uint64", "int64", "int", "int32", "uint32", "byte"}

// customItem is an item of a type the user of the map defines.
type customItem struct {
	note [3]uint64
	smap.SampleItem
	more string
}

var emptyCustom *customItem

const customOffset = unsafe.Offsetof(emptyCustom.SampleItem) + smap.SampleItemOffsetOf

func (c *customItem) Offset() uintptr { return customOffset }
func (c *customItem) HmapEntryFromListHead(l *elist_head.ListHead) smap.HMapEntry {
	return (*customItem)(smap.ElementOf(unsafe.Pointer(l), customOffset))
}
func (c *customItem) Next() smap.HMapEntry {
	return c.HmapEntryFromListHead(c.PtrListHead().DirectNext())
}
func (c *customItem) Prev() smap.HMapEntry {
	return c.HmapEntryFromListHead(c.PtrListHead().DirectPrev())
}

func (s *subject) intKeys() bool { return s.entry && s.kind != "string" && s.kind != "custom" }

func (s *subject) newItem(ks *keySet, k int, x interface{}) smap.MapItem {
	if s.kind == "custom" {
		c := &customItem{note: [3]uint64{^uint64(0), uint64(k), ^uint64(0)}, more: ks.Keys[k]}
		c.K = ks.Keys[k]
		c.SetValue(x)
		return c
	}
	if s.entry {
		return smap.NewEntryMap(s.key(ks, k), x)
	}
	return smap.NewSampleItem(ks.Keys[k], x)
}

// itemFor is a fresh item, or (again) the object first stored for the key, with the value.
func (s *subject) itemFor(ks *keySet, k int, x interface{}, again bool) smap.MapItem {
	it := s.objs[k]
	if it != nil && again {
		it.SetValue(x)
		return it
	}
	fresh := s.newItem(ks, k, x)
	if it == nil {
		s.objs[k] = fresh
	}
	return fresh
}

// badKeys are keys of types maps do not support.
var badKeys = []interface{}{3.5, struct{}{}, true, [2]int{1, 2}, int16(7)}

type badItem struct{ smap.SampleItem }

func (b *badItem) KeyHash() (uint64, uint64) { panic("no hash") }
func (b *badItem) Key() interface{}          { return badKeys[0] }

// refused makes a call the map cannot carry out. It reports the key it used,
// and whether the map took it nevertheless.
func (s *subject) refused(ks *keySet, k, what int) (key interface{}, taken bool) {
	defer func() {
		if x := recover(); x != nil {
			taken = false
			switch x.(type) {
			case string, runtime.Error:
			default:
				panic(x)
			}
		}
	}()
	m := s.m
	switch key = badKeys[k%len(badKeys)]; what {
	case 0, 1: // a new key that is not a string
		h := bits.Reverse64(ks.Rev[k%len(ks.Rev)])
		if key = interface{}(h); what == 1 {
			key = int64(h)
		}
		if _, ok := m.Get(key); ok {
			return key, true // not new
		}
		taken = m.Set(key, "refused")
	case 2:
		taken = m.Set(key, "refused")
	case 3:
		_, taken = m.Get(key)
	case 4:
		taken = m.Delete(key)
	case 5:
		taken = m.Purge(key)
	case 6:
		_, taken = m.LoadItem(key)
	case 7:
		taken = m.StoreItem(&badItem{})
	case 8:
		taken = m.StoreItem(nil)
	case 9:
		taken = m.Set(nil, "refused")
	}
	return
}

func (s *subject) set(ks *keySet, k int, x interface{}) bool {
	switch {
	case s.r != nil:
		return s.r.Set(ks.Keys[k], x)
	case s.entry:
		return s.m.StoreItem(s.newItem(ks, k, x))
	}
	return s.m.Set(ks.Keys[k], x)
}

func (s *subject) get(ks *keySet, k int) (interface{}, bool) {
	if s.r != nil {
		return s.r.Get(ks.Keys[k])
	}
	return s.m.Get(s.key(ks, k))
}

func (s *subject) hash(ks *keySet, k int) (uint64, uint64) { return smap.KeyToHash(s.key(ks, k)) }

func (s *subject) getByHash(ks *keySet, k int) (interface{}, bool) {
	h, c := s.hash(ks, k)
	if s.r != nil {
		return s.r.Get2(h, c)
	}
	return s.m.GetByHash(h, c)
}

func (s *subject) del(ks *keySet, k int, purge bool) bool {
	switch {
	case s.r != nil:
		return s.r.Delete(ks.Keys[k])
	case purge:
		return s.m.Purge(s.key(ks, k))
	}
	return s.m.Delete(s.key(ks, k))
}

// altKey is the same key given as another type.
func (s *subject) altKey(ks *keySet, k int) interface{} {
	if !s.intKeys() {
		return append(make([]byte, 0, len(ks.Keys[k])+7), ks.Keys[k]...)
	}
	h := bits.Reverse64(ks.Rev[k])
	for _, t := range []string{"byte", "uint32", "int32", "int", "uint64"} {
		if x := intKey(t, h); x != nil && t != s.kind {
			return x
		}
	}
	return int64(h)
}

// delAlt deletes with a key of another type.
func (s *subject) delAlt(ks *keySet, k int, purge bool) bool {
	switch {
	case s.r != nil:
		return s.r.Delete(ks.Keys[k])
	case purge:
		return s.m.Purge(s.altKey(ks, k))
	}
	return s.m.Delete(s.altKey(ks, k))
}

func (s *subject) length() int {
	if s.r != nil {
		return s.r.Len()
	}
	return s.m.Len()
}

func resetGlobals() {
	smap.VerifReset()
	elist_head.VerifReset()
	list_head.VerifReset()
	rmap.VerifReset()
}

// shape is a hash of the physical structure: every linked entry in order, with
// its state (bucket heads and deleted entries included).
func (s *subject) shape() uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	if s.m == nil {
		return h
	}
	c := s.m.First().PtrMapHead()
	for n := 0; n < 20000; n++ {
		mix(c.KeyInHmap())
		mix(c.ConflictInHamp())
		if c.IsDummy() {
			mix(3)
		}
		if c.IsDeleted() {
			mix(5)
		}
		nx := c.Next()
		if nx == &c.ListHead || nx.Empty() {
			break
		}
		c = smap.EmptyMapHead.FromListHead(nx).(*smap.MapHead)
	}
	return h
}

// ---- keys -----------------------------------------------------------------

// A key set is a list of positions (bit-reversed hashes); keys that share a
// position have equal hashes and differ in the secondary hash only.
type keySet struct {
	Name string
	Keys []string
	Rev  []uint64
	Idx  map[string]int

	byHash map[uint64]int
}

// texts are keys with ordinary contents.
var texts = []string{"", "a", "\x00", "a\x00", "b", "aa", "\xff\xfe", "\u00fc\u4e16", strings.Repeat("long ", 80), "0", "1", "10", "A", " ", "a ", "\x00\x00", strings.Repeat("x", 64), strings.Repeat("x", 65)}

func textKeys(name string, n int) *keySet {
	ks := &keySet{Name: name, Idx: map[string]int{}}
	for i := 0; i < n; i++ {
		k := fmt.Sprint("key", i)
		if i < len(texts) {
			k = texts[i]
		}
		h, _ := smap.KeyToHash(k)
		ks.Keys = append(ks.Keys, k)
		ks.Rev = append(ks.Rev, bits.Reverse64(h))
		ks.Idx[k] = i
	}
	return ks
}

func mkKeys(name string, revs ...uint64) *keySet {
	ks := &keySet{Name: name, Idx: map[string]int{}}
	seen := map[uint64]int{}
	for i, r := range revs {
		t := string(rune('a' + seen[r]))
		seen[r]++
		k := v.Key(r, t)
		ks.Keys = append(ks.Keys, k)
		ks.Rev = append(ks.Rev, r)
		ks.Idx[k] = i
	}
	return ks
}

var namedKeys = map[string][]uint64{
	"dense":  {0x1000000000000001, 0x1000000000000002, 0x1000000000000003, 0x1000000000000004, 0x1000000000000005},
	"spread": {0x1111000000000000, 0x3111000000000000, 0x5511000000000000, 0x8811000000000000, 0xf811000000000000},
	"one":    {0x1111000000000000, 0x1311000000000000, 0x1711000000000000, 0x1c11000000000000, 0x1f11000000000000},
	"edge":   {0, 1, ^uint64(0), 0x1000000000000000, 0x8000000000000000},
	"edge2":  {0x8000000000000000, 0x1000000000000000, 0x1800000000000000, 0x0fffffffffffffff, 0x8000000000000001},
	"zero":   {0x0111000000000000, 0x0311000000000000, 0x0711000000000000, 0x0c11000000000000, 0x0f11000000000000},
	"last":   {0xf111000000000000, 0xf311000000000000, 0xf711000000000000, 0xfc11000000000000, 0xff11000000000000},
	"coll":   {0x1111000000000000, 0x1111000000000000, 0x1111000000000000, 0x1c11000000000000, 0x1011000000000000},
	"coll2":  {0x1800000000000000, 0x1800000000000000, 0x1400000000000000, 0x1400000000000000, 0x1c00000000000000},
	"coll0":  {0, 0, ^uint64(0), ^uint64(0), 0x8000000000000000},
	"split":  {0x1800000000000000, 0x1400000000000000, 0x1200000000000000, 0x1c00000000000000, 0x1900000000000000},
	"split2": {0x17ffffffffffffff, 0x1800000000000000, 0x1800000000000001, 0x13ffffffffffffff, 0x1400000000000001},
	"tail":   {0xffffffffffffffff, 0xfffffffffffffffe, 0xf800000000000000, 0xf000000000000000, 0xfc00000000000000},
	"small":  {0, 0x8000000000000000, 0x4000000000000000, 0x0100000000000000, 0xff00000000000000},
	"int32":  {0, 0x8000000000000000, 0xffffffffffffffff, 0x00000001ffffffff, 0xfffffffe00000000},
	"uint32": {0, 0x8000000000000000, 0x0000000100000000, 0xffffffff00000000, 0xfffffffe00000000},
	"deep":   {0x1010000000000000, 0x1018000000000000, 0x1008000000000000, 0x1080000000000000, 0x1001000000000000},
}

var keyCache = map[string]*keySet{}

// keysOf resolves a key-set description: a name, "rev:h,h,...",
// "ramp:start,step,n" (equal distances), "geo:start,mult,n" and "neg:start,mult,n"
// (ever closer to the start, from above or below), "text:n" (ordinary contents).
func keysOf(spec string) *keySet {
	if ks := keyCache[spec]; ks != nil {
		return ks
	}
	var revs []uint64
	switch {
	case strings.HasPrefix(spec, "rev:"):
		for _, f := range strings.Split(spec[4:], ",") {
			x, err := strconv.ParseUint(f, 16, 64)
			if err != nil {
				panic(err)
			}
			revs = append(revs, x)
		}
	case strings.HasPrefix(spec, "ramp:"):
		f := strings.Split(spec[5:], ",")
		start, _ := strconv.ParseUint(f[0], 16, 64)
		step, _ := strconv.ParseUint(f[1], 16, 64)
		n, _ := strconv.Atoi(f[2])
		for i := 0; i < n; i++ {
			revs = append(revs, start+uint64(i)*step)
		}
	case strings.HasPrefix(spec, "geo:"), strings.HasPrefix(spec, "neg:"):
		f := strings.Split(spec[4:], ",")
		start, _ := strconv.ParseUint(f[0], 16, 64)
		mult, _ := strconv.ParseUint(f[1], 16, 64)
		n, _ := strconv.Atoi(f[2])
		for i := 0; i < n; i++ {
			d := mult >> uint(i)
			if d == 0 {
				panic("key set too long: " + spec)
			}
			if spec[0] == 'n' {
				d = -d
			}
			revs = append(revs, start+d)
		}
	case strings.HasPrefix(spec, "text:"):
		n, _ := strconv.Atoi(spec[5:])
		ks := textKeys(spec, n)
		keyCache[spec] = ks
		return ks
	default:
		revs = namedKeys[spec]
		if revs == nil {
			panic("no key set " + spec)
		}
	}
	ks := mkKeys(spec, revs...)
	if len(keyCache) > 2000 {
		keyCache = map[string]*keySet{}
	}
	keyCache[spec] = ks
	return ks
}

func (s *subject) index(ks *keySet, k interface{}) int {
	if s.intKeys() {
		if h, ok := k.(uint64); ok {
			if ks.byHash == nil {
				ks.byHash = map[uint64]int{}
				for i, r := range ks.Rev {
					ks.byHash[bits.Reverse64(r)] = i
				}
			}
			if i, ok := ks.byHash[h]; ok && s.kind == "uint64" {
				return i
			}
			return -1
		}
		for i := range ks.Keys {
			if k == s.key(ks, i) {
				return i
			}
		}
		return -1
	}
	str, ok := k.(string)
	if !ok {
		return -1
	}
	if i, ok := ks.Idx[str]; ok {
		return i
	}
	return -1
}

// ---- operations -----------------------------------------------------------

// Op is an operation kind, an argument (mostly a key index) and a map.
type Op struct {
	K byte
	A int
	M int
}

func (o Op) String() string {
	if o.M != 0 {
		return fmt.Sprintf("%c%d@%d", o.K, o.A, o.M)
	}
	return fmt.Sprintf("%c%d", o.K, o.A)
}

func opsString(ops []Op) string {
	var b strings.Builder
	for i, o := range ops {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(o.String())
	}
	return b.String()
}

// parseOps reads "S0 D1@1 R" and the bulk forms "up:K:a-b", "down:K:a-b",
// "zig:K:a-b" (operation K on keys a..b-1 in that order).
func parseOps(s string) (ops []Op) {
	for _, f := range strings.Fields(s) {
		if i := strings.IndexByte(f, ':'); i > 0 {
			p := strings.Split(f, ":")
			var a, b int
			if n, _ := fmt.Sscanf(p[2], "%d-%d", &a, &b); n != 2 {
				panic("bad bulk " + f)
			}
			for _, x := range order(p[0], a, b) {
				ops = append(ops, Op{K: p[1][0], A: x})
			}
			continue
		}
		o := Op{K: f[0]}
		f = f[1:]
		if i := strings.IndexByte(f, '@'); i >= 0 {
			o.M, _ = strconv.Atoi(f[i+1:])
			f = f[:i]
		}
		if f != "" {
			n, err := strconv.Atoi(f)
			if err != nil {
				panic("bad op " + s)
			}
			o.A = n
		}
		ops = append(ops, o)
	}
	return
}

// order enumerates a..b-1 in a given pattern.
func order(pat string, a, b int) (out []int) {
	n := b - a
	for i := 0; i < n; i++ {
		out = append(out, a+i)
	}
	switch pat {
	case "up":
	case "down":
		for i := range out {
			out[i] = b - 1 - i
		}
	case "zig": // outside in
		for i := range out {
			if i%2 == 0 {
				out[i] = a + i/2
			} else {
				out[i] = b - 1 - i/2
			}
		}
	case "mid": // inside out
		for i := range out {
			if i%2 == 0 {
				out[n-1-i] = a + i/2
			} else {
				out[n-1-i] = b - 1 - i/2
			}
		}
	case "bit": // bit-reversed indices: always splitting the widest gap
		sort.Slice(out, func(i, j int) bool {
			return bits.Reverse64(uint64(out[i]-a)) < bits.Reverse64(uint64(out[j]-a))
		})
	default:
		if strings.HasPrefix(pat, "mul") { // multiples of a number coprime to n
			k, _ := strconv.Atoi(pat[3:])
			for i := range out {
				out[i] = a + (i*k)%n
			}
			return
		}
		panic("bad order " + pat)
	}
	return
}
