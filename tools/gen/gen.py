#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
I, P, H, S, C = "inputs", "programs", "histories", "schedules", "configurations"

# anchor: description, and the functions; their lines are looked up in /repo
M = {
 "set": ("Map.Set, _set: find the position by reversed hash, update or insert", "map.go:_set,Set"),
 "get": ("Map.Get, getWithBucket, searchKey: search by reversed hash, then second hash", "map.go:get,_get,findConflict,getWithBucket,Get,searchKey,_searchBybucket"),
 "del": ("Map.Delete: mark the item deleted", "map.go:Delete"),
 "purge": ("Map.Purge, purgeInEmbedded: unlink the item", "map.go:Purge,purgeInEmbedded"),
 "range": ("Map.Range, rangeItem: walk the list of items", "map.go:RangeItem,rangeItem,currentItem,Range"),
 "len": ("Map.Len, AddLen: counter", "map.go:Len,AddLen"),
 "ends": ("First, Last, Next, Prev", "map.go:nextAsE,prevAsE,First,Last maphead.go:NextWithNil,PrevtWithNil item.go:Next,Prev sample_hmap_entry.go:Next,Prev"),
 "item": ("StoreItem, LoadItem, LoadItemByHash, RangeItem", "map.go:LoadItem,LoadItemByHash,loadItem,_loadItem,StoreItem,RangeItem"),
 "grow": ("makeBucket, add2, bucketFromPool, setLevel: split crowded buckets, level lists", "map.go:makeBucket,add2,addBucket,setLevel,bucketFromPool"),
 "levels": ("bucketSlice, down levels: tree of buckets over levels", "bucket.go:ptrDownLevels,at,_at,store map.go:initLevels,_findBucket,bucketFromPool"),
 "search": ("searchBucket, searchBucket4update, searchBybucket: one per search mode", "map.go:searchBucket,searchKey,searchBucket4update,searchBucket4Key4,nearBucketFromCache,_searchBybucket bucket.go:largestDown"),
 "pool": ("Pool, samepleItemPool: items by shard, growing arrays", "pool2.go:Get,_expand,init map.go:UsePool"),
 "emb": ("samepleItemPool in buckets: insert in order, expand, split, free list", "map_embedded.go:bsearchBybucket,makeBucket2,bucketFromPoolEmbedded,state4get,appendLast,insertToPool,getWithFn,expand,_split"),
 "opt": ("MaxPefBucket, BucketMode, ItemFn, UsePool, UseEmbeddedPool, Options", "map.go:MaxPefBucket,BucketMode,ItemFn,UsePool,UseEmbeddedPool,Options,New,NewHMap"),
 "hash": ("KeyToHash, MemHash, MemHashString, KeyHash", "hashfn.go:MemHash,MemHashString,KeyToHash sample_hmap_entry.go:KeyHash,NewSampleItem item.go:KeyHash"),
 "lock": ("muUpdate, lockLookup, bucket locks: serialise insertion and removal", "map.go:lockLookup,Set,StoreItem,Delete,Purge"),
 "rget": ("RMap.Get2: read map first, then dirty map", "rmap/rmap.go:Get,Get2,load"),
 "rset": ("RMap.Set2, store2: read map first, then dirty map", "rmap/rmap.go:Set,Set2,store2"),
 "rdel": ("RMap.Delete, Len", "rmap/rmap.go:Delete,Len"),
 "rprom": ("missLocked, storeReadFromDirty, initDirty: promotion of the dirty map", "rmap/rmap.go:isNotRestoreRead,missLocked,storeReadFromDirty,initDirty"),
 "gc": ("keepItem; pools: memory of items is referenced while they are linked", "map.go:keepItem pool2.go:Get,_expand map_embedded.go:expand"),
 "dump": ("DumpBucket, DumpBucketPerLevel, DumpEntry", "map.go:DumpBucket,DumpBucketPerLevel,DumpEntry maphead.go:dump"),
 "conf": ("findConflict: items of the same first hash told apart by the second", "map.go:findConflict,_set"),
 "bpos": ("dummy entries of buckets ordered against items of the same position", "map.go:initBeforeSet,_InsertBefore,addBucket bucket.go:entry"),
 "cap": ("PoolCap", "util.go:PoolCap,calcCap,intPow"),
}
_lines = {}
def funcs(f):
    if f not in _lines:
        d, name, start = {}, None, 0
        for n, l in enumerate(open("/repo/"+f), 1):
            m = re.match(r"func (?:\([^)]*\) )?(\w+)", l)
            if m: name, start = m.group(1), n
            if name and l.startswith("}") or m and l.rstrip().endswith("}"):
                d.setdefault(name, []).append((start, n)); name = None
        _lines[f] = d
    return _lines[f]
def where(s):
    out = []
    for part in s.split():
        f, names = part.split(":")
        rs = sorted(set(r for n in names.split(",") for r in funcs(f)[n]))
        out.append(f + ":" + ",".join("%d-%d" % r for r in rs))
    return ", ".join(out)
def w(*ks): return [{"name": M[k][0], "where": where(M[k][1])} for k in ks]
SEQ = "Bounded exhaustive enumeration of operation sequences on the real code (all words / permutations / placements / growth sizes within the stated bounds), each compared with a reference model"
CON = "Stateless model checking of the real code under a controlled scheduler: all schedules up to a preemption bound, histories checked for linearizability against the sequential model"
FUN = "Exhaustive enumeration of the inputs of a bounded domain on the real code"
T_seq = "The tests insert one fixed or random set of keys in one order and look it up; they never delete and set again, and sample one of the many interactions of order, position, bucket size and structure this must hold for."
T_con = "The tests run goroutines under the Go scheduler, which shows a handful of the possible interleavings, and check little of what they return; the guarantee is for every schedule."
props = []
def p(id, title, st, over, qt, why, files, mech, tech): props.append(dict(id=id, title=title, statement=st, over=over, qt=qt, why=why, files=files, mech=mech, tech=tech))

MAP = ["map.go", "bucket.go", "maphead.go"]
p("C01","Get returns the value of the latest Set",
  "For every sequence of Set calls with string keys, Get of a key that was set returns the value of its latest Set and true, and Get of any other key returns false. This does not depend on the order of the calls, the hashes of the keys, or how often keys are overwritten.",
  [P,I,C],"every sequence of Set calls over keys at any positions of the key space, for every bucket size and search mode",T_seq,MAP,w("set","get","search"),SEQ)
p("C02","A deleted key is absent until it is set again",
  "Delete of a present key returns true and afterwards Get, LoadItem and iteration do not show the key; Delete of an absent key returns false and changes nothing. Setting the key again makes it present with the new value, and other keys are unaffected throughout.",
  [P,H,I],"every sequence of Set and Delete over every placement of keys",T_seq,MAP,w("del","set","get"),SEQ)
p("C03","Purge removes a key like Delete does",
  "Purge of a present key returns true and removes it from Get, LoadItem and iteration; Purge of an absent (or already deleted) key returns false. Purge, Delete and Set in any order on any keys leave the map with the keys and values of an ordinary map.",
  [P,H,I],"every sequence of Set, Delete and Purge, in every storage mode",T_seq,MAP+["map_embedded.go"],w("purge","del","emb"),SEQ)
p("C04","Range visits every present key once, in order, until told to stop",
  "When nothing else runs, Range and RangeItem call the function exactly once for every present key with its current value, and never for a deleted or absent one, in increasing order of the bit-reversed hash. If the function returns false no further call is made.",
  [P,I,C],"every history of Set, Delete and Purge; every position at which the function stops",T_seq,MAP,w("range","bpos"),SEQ)
p("C05","Len is the number of present keys",
  "When no operation is running, Len equals the number of keys that are present: it grows by one for an insertion, is unchanged by overwriting or by a failing Delete or Purge, and shrinks by one for a successful Delete or Purge.",
  [P,H],"every sequence of insertions, overwrites, deletions and purges, in every storage mode and item type",T_seq,MAP+["map_embedded.go"],w("len","set","del","purge"),SEQ)
p("C06","The item API agrees with the key/value API",
  "An item stored with StoreItem is found by Get, LoadItem, LoadItemByHash, GetByHash, RangeItem with its key and value, and LoadItem returns the item of a key stored by Set. Changing an item's value is seen by Get; storing an item for a present key replaces its value; without an item pool a loaded item stays the same object as long as the key stays.",
  [P,H,C],"every mixture of StoreItem, LoadItem, SetValue, Set and Delete",T_seq,MAP+["item.go","sample_hmap_entry.go"],w("item","set","get"),SEQ)
p("C07","Entries with other types of keys or items work like string keys",
  "A map whose items are the general entry type (with integer or string keys) or a type the user defines stores and finds entries by StoreItem, Get, LoadItem, Delete, Purge, Range and Len exactly as an ordinary map would. This holds for the smallest and largest hash values and through growth.",
  [P,I,C],"every sequence of the operations over integer keys at every position",T_seq,MAP+["item.go"],w("item","get","hash"),SEQ)
p("C08","Different keys whose first hash is equal do not get mixed up",
  "Two different keys with the same (first) hash are two separate entries: setting, deleting or purging one does not change what Get, LoadItem, Delete, Range or Len say about the other. This holds for any number of such keys, in any storage mode, also when their position is also the position of a bucket.",
  [P,I,C],"every assignment of keys to few hash values, every order of operations on them","The real hash never collides in a test run, so the tests never reach these paths; here the hash is replaced so that they collide.",MAP+["map_embedded.go"],w("conf","get","set","emb"),SEQ)
p("C09","Keys work at every position of the key space, boundaries included",
  "Keys whose hash is zero, all ones, or next to or exactly on a position where buckets are or will be split are set, found, deleted and iterated like all others. No combination of such keys hides, duplicates or disorders another key.",
  [I,P,C],"every pair and triple of positions around bucket boundaries of all levels","A random hash never falls on such a position in a test run.",MAP+["map_embedded.go"],w("bpos","search","grow"),SEQ)
p("C10","Nothing is lost or misplaced while the map grows",
  "However many keys are inserted, in whatever order and however close their hashes are, after every insertion all keys inserted so far are found with their values, iterated once in order, and counted. This holds for every positive limit of items per bucket.",
  [I,P,C],"every size up to the bound, several orders and densities of keys, all permutations of small sets",T_seq,MAP,w("grow","levels","search"),SEQ)
p("C11","With an item pool the map behaves the same",
  "A map that takes its items from an item pool gives the same results for every sequence of operations as a map without one, also when a part of the pool becomes full and grows.",
  [P,C,I],"every sequence of operations; sizes around each growth of the pool",T_seq,["pool2.go","map.go","bucket.go"],w("pool","grow","set"),SEQ)
p("C12","With items embedded in buckets the map behaves the same",
  "A map that stores its items inside the buckets gives the same results for every sequence of operations as a map without, also when these stores grow, split, contain deleted items, or receive keys in any order.",
  [P,C,I],"every sequence of operations; every order of insertion; sizes around growth and split",T_seq,["map_embedded.go","pool2.go","map.go","bucket.go"],w("emb","grow","get"),SEQ)
p("C13","Every search mode finds the same",
  "For every state of a map, Get, LoadItem and SearchKey give the same result under each search mode, whichever mode was in use when the keys were inserted.",
  [C,P,I],"all search modes, switched at any point of any sequence of operations",T_seq,MAP,w("search","levels"),SEQ)
p("C14","An option can be undone",
  "The options returned by applying options to a map (bucket size, search mode, item function, item pool, embedded items) restore the settings from before when applied in reverse order, and applying what that returns sets them again. Setting and undoing bucket size and search mode on a map in use loses nothing.",
  [C,P],"every sequence of options up to the bound, on every base configuration; every placement between operations","The tests only set options when creating a map, one combination each.",["map.go"],w("opt"),SEQ)
p("C15","Maps are independent of each other",
  "Operations on one map, of any kind and configuration, do not change what any operation on another map returns.",
  [P,C],"every interleaving of operations on two maps in every pair of storage modes","The tests use one map at a time.",["map.go","pool2.go","map_embedded.go","rmap/rmap.go"],w("opt","pool","search"),SEQ)
p("C16","Stored items survive garbage collection",
  "Keys and values stored in a map stay readable and unchanged for as long as they are in the map, whenever and however often the garbage collector runs and whatever else is allocated meanwhile.",
  [H,P,C],"a collection (with freed memory overwritten) at every point of every sequence of operations, in every storage mode","Whether the collector runs at a point where an item is only reachable through a hidden reference is a matter of chance in a test.",["map.go","pool2.go","map_embedded.go","bucket.go"],w("gc","pool","emb"),SEQ)
p("C17","The capacity computed for a pool always leaves room",
  "For every number of items n, the capacity PoolCap computes is larger than n, and never becomes smaller for a larger n.",
  [I],"all n up to the bound","The test samples ten values.",["pool2.go","util.go"],w("cap"),FUN)
p("C18","Equal keys have equal hashes, different keys different ones",
  "The hash of a key depends only on its content: a string and a byte slice of the same bytes at any address, or the same integer in different integer types, hash alike, and items report the same hash as their key. Keys of different content have different hashes.",
  [I],"all short byte strings over an alphabet, all single-byte changes of longer ones, all small integers and those around powers of two","The tests hash a handful of keys.",["hashfn.go","sample_hmap_entry.go","item.go"],w("hash"),FUN)
p("C19","First, Last and the links between entries describe the same sequence",
  "First is the first and Last the last entry Range visits (or neither is a present key when the map is empty), and following Next from First or Prev from Last meets exactly the present keys, in order and reverse order. This holds after any history of insertions, deletions and purges.",
  [P,H,C],"every sequence of operations in every storage mode",T_seq,MAP+["item.go","sample_hmap_entry.go"],w("ends","bpos"),SEQ)
p("C20","Observing a map does not change it",
  "Writing out buckets and entries, and other observers, neither fail nor change what other operations return, at any point of any history, also while other goroutines change the map, and when the writer they write to reads the map itself.",
  [P,H,S],"every placement of the observers in every sequence of operations, every schedule of observers and updates","The tests call the dump functions only when something failed.",MAP,w("dump"),SEQ)
p("C21","The function given to Range may use the map",
  "While Range runs, its function may call Get, Set, Delete, Purge and Range on the same map, for the visited and for other keys: every call returns what it would outside Range, keys present throughout are still visited with their current value, a key that it removes before its visit is not visited, no key is visited twice, even when it is removed and stored again, and Range ends.",
  [P,C],"every such operation from inside Range, in every small state of the map","The tests only collect values in Range.",MAP,w("range","lock"),SEQ)
p("C22","A value may be of any type, and change its type",
  "Set accepts values of any type, nil included, also another type than the key had before, and Get returns the latest value with its type. A reader that runs concurrently gets the old or the new value, never a mixture.",
  [I,P,S],"every sequence of values of different types on the same keys, in every storage mode; every schedule of a writer and a reader up to a preemption bound","The tests always store the same type.",["sample_hmap_entry.go","item.go","map.go","rmap/rmap.go"],w("set"),SEQ)
p("C23","Concurrent Get, Set and Delete are linearizable",
  "When several goroutines call Get, Set, LoadItem and Delete concurrently on keys of one map, there is a sequential order of the calls, consistent with their real-time order, in which an ordinary map would have returned the same results, and which explains the state of the map afterwards.",
  [S,P],"every schedule of two or three goroutines up to a preemption bound",T_con,MAP,w("lock","set","get","del"),CON)
p("C24","Of concurrent deletions of a key exactly one succeeds",
  "When several goroutines Delete or Purge the same present key, exactly one call returns true per insertion of the key, and afterwards the key is absent, other keys are untouched and Len is right.",
  [S,P,C],"every schedule up to a preemption bound, in every storage mode",T_con,MAP+["map_embedded.go"],w("del","purge","lock"),CON)
p("C25","Range concurrent with updates visits every stable key",
  "A Range that runs concurrently with Set, Delete and Purge visits every key that is present during all of it, pairs keys only with values they had during it, keeps the order, shows no key that was absent during all of it and no key twice, and ends.",
  [S,P,C],"every schedule up to a preemption bound, in every storage mode",T_con,MAP+["map_embedded.go"],w("range","lock"),CON)
p("C26","Concurrent insertions lose nothing and store nothing twice",
  "When several goroutines insert keys, the same or different ones, also while buckets are being split, all keys are present afterwards exactly once with one of the last values written, Len is right, and no key that is present is ever missed by a concurrent Get.",
  [S,P,C],"every schedule up to a preemption bound",T_con,MAP,w("lock","grow","set"),CON)
p("C27","With an item pool, concurrent use is linearizable, growth included",
  "The guarantees for concurrent Get, Set, Delete and Range hold for a map with an item pool, also while a part of the pool is full and is moved to a larger one.",
  [S,P],"every schedule up to a preemption bound, with the pool almost full and full",T_con,["pool2.go","map.go","bucket.go"],w("pool","lock"),CON)
p("C28","With embedded items, concurrent use is linearizable, splits included",
  "The guarantees for concurrent Get, Set, Delete and Range hold for a map whose items are embedded in its buckets, also while these stores grow, are split, or shift items to make room.",
  [S,P],"every schedule up to a preemption bound, at several fill levels",T_con,["map_embedded.go","pool2.go","map.go","bucket.go"],w("emb","lock"),CON)
p("C29","Every operation comes to an end",
  "No operation blocks or runs for ever: whatever other goroutines do in between, and wherever the keys lie, each call returns once it and the others get to run.",
  [S,P,I],"every schedule up to a preemption bound (deadlock and livelock are reported); growth at the ends of the key space in every mode","A rare deadlock or endless loop shows in a test only when the schedule or the hashes happen to hit it.",["map.go","bucket.go","map_embedded.go","pool2.go"],w("lock","grow","search"),CON)
p("C30","The read-mostly map returns the value of the latest Set",
  "For every sequence of Set and Get on a read-mostly map, Get returns the value of the key's latest Set, or false if there was none, through all the moves of entries from its write part to its read part.",
  [P,H],"every sequence of Set and Get; growth with reads at several intervals",T_seq,["rmap/rmap.go"],w("rget","rset","rprom"),SEQ)
p("C31","The read-mostly map deletes and counts correctly",
  "On a read-mostly map Delete returns true exactly for present keys, deleted keys are absent until set again, and Len is the number of present keys, whichever part of the map holds them.",
  [P,H],"every sequence of Set, Get, Delete and Len","The only test sets and gets one key.",["rmap/rmap.go"],w("rdel","rprom"),SEQ)
p("C32","The read-mostly map is linearizable under concurrent use",
  "Concurrent Set, Get and Delete on a read-mostly map return what they would in some sequential order consistent with real time; no update is lost while entries move between its parts, and every call ends.",
  [S,P],"every schedule up to a preemption bound","There is no concurrent test of the read-mostly map.",["rmap/rmap.go"],w("rget","rset","rdel","rprom"),CON)
p("C33","Maps used concurrently do not influence each other",
  "When one goroutine uses one map and another goroutine another map, each sees exactly what it would see if it were alone, under every schedule, with statistics (EnableStats) on or off.",
  [S,P,C],"every schedule up to a preemption bound, for pairs of configurations","The tests use one map at a time.",["map.go","pool2.go","map_embedded.go"],w("search","pool","opt"),CON)
p("C34","Looking up a key does not degrade to scanning the map",
  "With keys spread over the key space, finding a key in a map of thousands of keys takes a number of steps bounded by the depth of the bucket structure and the bucket size, not one that grows with the number of keys: whatever the order of insertion and in every storage mode.",
  [I,C,P],"every key of maps of up to thousands of spread keys, several orders of insertion and configurations","The tests check what is found, not what it costs; a map whose buckets never split still passes them.",MAP+["map_embedded.go"],w("grow","levels","search"),SEQ)

p("C35","Lookups do not wait for other goroutines",
  "On a map without embedded items, a goroutine that calls Get, GetByHash, LoadItem, LoadItemByHash or Len gets its answer however long other goroutines are held up in the middle of their own calls (Set, StoreItem, Delete, Purge, SetValue, lookups, splits of buckets included): it takes no lock they hold and does not poll for a state only they can bring about (statistics, EnableStats, being off).",
  [S,P,C],"every point at which one other goroutine (in the thorough tier, two) can be stopped for good during an update, before each lookup","A test's goroutines always go on at once; waiting for a goroutine that the operating system stopped in the middle shows only as rare latency.",MAP,w("get","search","item","len","grow"),CON)
p("C36","A call that panics changes nothing",
  "A call that ends in a panic - Set of a new key that is not a string, an operation with a key of an unsupported type or an item whose key cannot be hashed, Range with a function that panics - leaves all keys, values, their number and order as they were, holds no lock afterwards, and the map works on for this and all other goroutines.",
  [P,I,S],"every sequence of operations with one or more such calls, of each kind, at any place; many in a row; between the steps of growth; every schedule up to a preemption bound next to updates","The tests make no call that panics.",MAP+["map_embedded.go","pool2.go","hashfn.go"],w("set","get","del","pool"),SEQ)

with open(V+"/properties.jsonl","w") as f:
    for x in props:
        assert len(x["title"])<=80, x["title"]
        f.write(json.dumps({"id":x["id"],"title":x["title"],"statement":x["statement"],"quantifier":{"over":x["over"],"text":x["qt"]},"why_tests_cant":x["why"],"anchors":{"files":x["files"],"mechanism":x["mech"]}})+"\n")
base = "The real code of /repo's working tree runs, instrumented at source level; dependencies (elist_head, loncha) are the real ones, instrumented too. Trusted: the instrumentation, the reference model and the replacement of the hash by chosen positions (C18: real hash). "
notes = {
 SEQ: "Every execution within the enumerated bounds (listed in the evidence file's parts) was run and agreed with the reference model; nothing is claimed beyond the bounds.",
 CON: "Every schedule of the listed programs within the preemption bound (at accesses to shared memory, or at synchronisation operations where the part says so) was run; sequential consistency is assumed, weaker memory orders and more preemptions are not covered.",
 FUN: "Every input of the listed finite domain was evaluated.",
}
json.dump({"version":1,"setup_cmd":"./run.sh setup","checks":[
  {"property":x["id"],"quick_cmd":f"./run.sh {x['id']} quick","thorough_cmd":f"./run.sh {x['id']} thorough","technique":x["tech"],"level":"model_checking","level_note":base+notes[x["tech"]]} for x in props],
  "not_applicable":[],"notes":"No hooks in /repo: instrumentation happens on a copy made at check time (tools/mkws)."},open(V+"/MANIFEST.json","w"),indent=1)
open(V+"/MANIFEST.json","a").write("\n")
