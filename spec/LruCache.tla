------------------------------- MODULE LruCache -------------------------------
(* The memoising decorator lru_cache(maxsize, typed, use_memory_up_to) under concurrent callers.

   A call is looked up while the lock is held, computed without the lock, and stored with the lock
   held again, so other calls may run in between.  Calls are the call forms of the table Forms:
   positional arguments and keyword arguments, each a <<type, value>>; numerically equal values
   share the value string.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS LimitIds,  \* possible limits, see LimitOf
          Change,    \* BOOLEAN: limits change while the cache is in use (which starts a new cache)
          Arrays,    \* BOOLEAN: the decorator for functions of arrays
          Typed,     \* BOOLEAN
          Threads, FormIds, Depth, Record
LimitOf(n) == CASE n = 0 -> <<"none", 0>> [] n = 100 -> <<"unbounded", 0>> [] n = 101 -> <<"memory", 2>> [] n = 102 -> <<"memory", 5>> [] OTHER -> <<"lru", n>>
Limits == {LimitOf(n) : n \in LimitIds}
Forms == <<
  [args |-> << <<"int", "1">> >>, kw |-> {}],
  [args |-> << <<"float", "1">> >>, kw |-> {}],
  [args |-> << <<"bool", "1">> >>, kw |-> {}],
  [args |-> << <<"int", "2">> >>, kw |-> {}],
  [args |-> << <<"str", "s1">> >>, kw |-> {}],
  [args |-> << <<"str", "s2">> >>, kw |-> {}],
  [args |-> << <<"int", "1">>, <<"int", "2">> >>, kw |-> {}],
  [args |-> << <<"int", "2">>, <<"int", "1">> >>, kw |-> {}],
  [args |-> << <<"tuple", "(1,2)">> >>, kw |-> {}],
  [args |-> << <<"int", "1">> >>, kw |-> {<<"b", "int", "2">>}],
  [args |-> << >>, kw |-> {<<"a", "int", "1">>, <<"b", "int", "2">>}],
  [args |-> << >>, kw |-> {<<"b", "int", "1">>, <<"a", "int", "2">>}],
  [args |-> << >>, kw |-> {<<"a", "float", "1">>, <<"b", "int", "2">>}],
  [args |-> << >>, kw |-> {}],
  [args |-> << <<"NoneType", "None">> >>, kw |-> {}],
  [args |-> << <<"float", "2">>, <<"int", "1">> >>, kw |-> {}] >>
Fast == {"int", "str", "frozenset", "NoneType"}
Values(s) == [k \in 1..Len(s) |-> s[k][2]]
\* the key under which a call is stored: values, keywords and, if asked for, types
CallKey(f) ==
  LET a == Forms[f].args  w == Forms[f].kw IN
  IF Typed THEN <<"typed", a, w>>
  ELSE IF w = {} /\ Len(a) = 1 /\ a[1][1] \in Fast THEN <<"one", a[1][2]>>
  ELSE <<"seq", Values(a), {<<p[1], p[3]>> : p \in w}>>

\* the decorator for arrays: two arrays (values, shape), a list of lists and a plain argument
ArrayForms == <<
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<4>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<4,1>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1","2">>, <<"3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s2"],
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"6">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4.5">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"4","3","2","1">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3">>, da |-> <<3>>, b |-> <<"4","5">>, db |-> <<2>>, l |-> << <<>> >>, p |-> "1"],
  [a |-> <<"1","2">>, da |-> <<2>>, b |-> <<"3","4","5">>, db |-> <<3>>, l |-> << <<>> >>, p |-> "1"],
  [a |-> <<"1","2">>, da |-> <<2>>, b |-> <<"3","4","5">>, db |-> <<3>>, l |-> << >>, p |-> "1"],
  [a |-> <<"1","2">>, da |-> <<2,1,1>>, b |-> <<"3","4","5">>, db |-> <<3>>, l |-> << >>, p |-> "2"],
  \* arrays that hardly differ
  [a |-> <<"1","2","3","4.000000000000001">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","3.9999999">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","1e-9">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","2e-9">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","1e300">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","-4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3000000001">> >>, p |-> "s1"],
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3000000002">> >>, p |-> "s1"],
  \* arrays without elements
  [a |-> <<"1","2","3","4">>, da |-> <<2,2>>, b |-> <<>>, db |-> <<0>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<>>, da |-> <<0,2>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"],
  [a |-> <<>>, da |-> <<2,0>>, b |-> <<"5">>, db |-> <<1>>, l |-> << <<"1">>, <<"2","3">> >>, p |-> "s1"] >>

Key(f) == IF Arrays THEN ArrayForms[f] ELSE CallKey(f)

VARIABLES
  mode, max, \* the limits in force: max entries, or, in mode "memory", GB to leave free
  order,    \* keys stored, least recently used first
  born,     \* key -> number of the computation that stored its value
  comps,    \* number of computations started so far
  hits, misses,
  full,     \* mode "memory": the cache was full when the last entry was added
  avail,    \* memory available, in GB (1 and 4: one byte less than 2 and 5)
  run,      \* thread -> [s |-> "idle"] or [s |-> "busy", f |-> form, n |-> number of the computation]
  hist
vars == <<mode, max, order, born, comps, hits, misses, full, avail, run, hist>>
Idle == [s |-> "idle", f |-> 0, n |-> 0]
Init == /\ \E l \in Limits : mode = l[1] /\ max = l[2]
        /\ order = <<>> /\ born = <<>> /\ comps = 0 /\ hits = 0 /\ misses = 0 /\ full = FALSE /\ avail = 5
        /\ run = [t \in Threads |-> Idle] 
        /\ hist = IF Record THEN <<[op |-> "limit", t |-> 0, f |-> 0, n |-> 0, mode |-> mode, max |-> max, hits |-> 0, misses |-> 0, size |-> 0]>> ELSE <<>>
Stored(k) == \E j \in 1..Len(order) : order[j] = k
Remove(k) == SelectSeq(order, LAMBDA y : y # k)
Log(e) == hist' = IF Record THEN Append(hist, e @@ [hits |-> hits', misses |-> misses', size |-> Len(order')]) ELSE <<>>
Caches == mode # "none"
\* a call whose key is stored is answered at once and becomes the most recently used
Hit(t, f) ==
  /\ run[t].s = "idle" /\ Caches /\ Stored(Key(f))
  /\ hits' = hits + 1
  /\ order' = Append(Remove(Key(f)), Key(f))
  /\ UNCHANGED <<mode, max, born, comps, misses, full, avail, run>>
  /\ Log([op |-> "hit", t |-> t, f |-> f, n |-> born[Key(f)]])
\* any other call starts a computation
Start(t, f) ==
  /\ run[t].s = "idle" /\ ~(Caches /\ Stored(Key(f)))
  /\ comps' = comps + 1
  /\ run' = [run EXCEPT ![t] = [s |-> "busy", f |-> f, n |-> comps + 1]]
  /\ UNCHANGED <<mode, max, order, born, hits, misses, full, avail>>
  /\ Log([op |-> "start", t |-> t, f |-> f, n |-> comps + 1])
\* a computation that failed leaves no trace
Fail(t) ==
  /\ (Record => Len(hist) % 6 = 0)
  /\ run[t].s = "busy"
  /\ run' = [run EXCEPT ![t] = Idle]
  /\ UNCHANGED <<mode, max, order, born, comps, hits, misses, full, avail>>
  /\ Log([op |-> "fail", t |-> t, f |-> run[t].f, n |-> run[t].n])
IsFull == CASE mode = "lru" -> Len(order) >= max [] mode = "memory" -> full [] OTHER -> FALSE
Finish(t) ==
  /\ run[t].s = "busy"
  /\ misses' = misses + 1
  /\ run' = [run EXCEPT ![t] = Idle]
  /\ LET k == Key(run[t].f) IN
     IF ~Caches THEN UNCHANGED <<order, born, full>>
     ELSE IF Stored(k)               \* stored meanwhile by another caller
     THEN /\ born' = IF mode = "unbounded" THEN [born EXCEPT ![k] = run[t].n] ELSE born
          /\ UNCHANGED <<order, full>>
     ELSE LET kept == IF IsFull THEN Tail(order) ELSE order IN
          /\ order' = Append(kept, k)
          /\ born' = [q \in {kept[j] : j \in 1..Len(kept)} \cup {k} |-> IF q = k THEN run[t].n ELSE born[q]]
          /\ full' = (full \/ (mode = "memory" /\ avail < max))
  /\ UNCHANGED <<mode, max, comps, hits, avail>>
  /\ Log([op |-> "finish", t |-> t, f |-> run[t].f, n |-> run[t].n])
Clear ==
  /\ (Record => Len(hist) % 9 = 0)     \* recorded behaviours keep entries for a while
  /\ order' = <<>> /\ born' = <<>> /\ hits' = 0 /\ misses' = 0 /\ full' = FALSE
  /\ UNCHANGED <<mode, max, comps, avail, run>>
  /\ Log([op |-> "clear", t |-> 0, f |-> 0, n |-> 0])
Memory ==
  /\ mode = "memory" /\ (Record => Len(hist) % 5 = 0)
  /\ \E a \in {1, 2, 4, 5} \ {avail} : avail' = a
  /\ UNCHANGED <<mode, max, order, born, comps, hits, misses, full, run>>
  /\ Log([op |-> "avail", t |-> 0, f |-> 0, n |-> avail'])
\* new limits start a new cache
SetLimit(l) ==
  /\ Change /\ (Record => Len(hist) % 7 = 0) /\ l # <<mode, max>> /\ \A t \in Threads : run[t].s = "idle"
  /\ mode' = l[1] /\ max' = l[2] /\ order' = <<>> /\ born' = <<>> /\ hits' = 0 /\ misses' = 0 /\ full' = FALSE
  /\ UNCHANGED <<comps, avail, run>>
  /\ Log([op |-> "limit", t |-> 0, f |-> 0, n |-> 0, mode |-> l[1], max |-> l[2]])
More == Len(hist) < Depth /\ comps < Depth /\ hits < Depth
Next ==
  \/ More /\ \E t \in Threads : \E f \in FormIds : Hit(t, f) \/ Start(t, f)
  \/ More /\ \E t \in Threads : Finish(t) \/ Fail(t)
  \/ More /\ (Clear \/ Memory \/ \E l \in Limits : SetLimit(l))
  \/ /\ Record /\ Len(hist) = Depth
     /\ PrintT("H|" \o ToJson([mode |-> mode, max |-> max, typed |-> Typed, ops |-> hist])) /\ hist' = Append(hist, [op |-> "end"])
     /\ UNCHANGED <<mode, max, order, born, comps, hits, misses, full, avail, run>>
Spec == Init /\ [][Next]_vars

\* ---- what users rely on
NoDuplicates == \A j, l \in 1..Len(order) : j # l => order[j] # order[l]
Bounded == /\ (mode = "lru" => Len(order) <= max)
           /\ (mode = "none" => Len(order) = 0)
Consistent == DOMAIN born = {order[j] : j \in 1..Len(order)}
\* a stored value was computed for an equal key: two forms share a key only if their arguments are equal by value
SameValue(f, g) == Values(Forms[f].args) = Values(Forms[g].args)
                   /\ {<<p[1], p[3]>> : p \in Forms[f].kw} = {<<p[1], p[3]>> : p \in Forms[g].kw}
KeysSound == Arrays \/ \A f, g \in 1..Len(Forms) : Key(f) = Key(g) => SameValue(f, g)
KeysTyped == (Typed /\ ~Arrays) => \A f, g \in 1..Len(Forms) : Key(f) = Key(g) => Forms[f] = Forms[g]
Counted == hits + misses <= 2 * Depth + 2 /\ Len(order) <= misses
\* once full, an insertion replaces exactly the least recently used entry
Evicts == [][Len(order') < Len(order) => order' = <<>>]_vars
EvictsOldest == [][(\E j \in 1..Len(order) : order[j] \notin {order'[l] : l \in 1..Len(order')})
                     => (order' = <<>> \/ (order[1] \notin {order'[l] : l \in 1..Len(order')}
                                            /\ SubSeq(order', 1, Len(order') - 1) = Tail(order)))]_vars
=============================================================================
