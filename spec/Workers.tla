-------------------------------- MODULE Workers --------------------------------
(* The parallel loops of the library.  A catalogue stores the particles of its halos one after the
   other in an index list; a request names halos; its rows are handed out to threads one at a time,
   in any order of execution.  A thread copies the particles of its row into a scratch buffer it
   keeps for all its rows (and which therefore still holds those of earlier, larger halos), works
   on the part of the buffer that belongs to the row, and writes the row of the answer.
   Whatever the schedule, the row of a halo is what the halo alone gives.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pool,       \* halos
          SizesId,    \* which sizes they have (1: small model, 2: the pool of the harness)
          MaxCat, MaxReq, ThreadCounts, Layouts, Record
Size(h) == IF SizesId = 1 THEN 1 + (h % 3) ELSE 1
Largest == 3
VARIABLES cat,      \* halos of the catalogue, in order
          layout,   \* how their particles lie in the particle arrays
          req,      \* requested rows of the catalogue
          nthreads,
          next,     \* next row to hand out
          job,      \* per thread: row worked on (0: none)
          pos,      \* per thread: particles copied so far
          buf,      \* per thread: scratch buffer
          answer,   \* per row
          sched     \* threads in the order in which they took rows
vars == <<cat, layout, req, nthreads, next, job, pos, buf, answer, sched>>
Particle(h, n) == <<h, n>>
Empty == <<0, 0>>
\* the index list and its offsets
RECURSIVE OffsetOf(_, _)
OffsetOf(c, k) == IF k = 1 THEN 0 ELSE OffsetOf(c, k - 1) + Size(c[k - 1])
RECURSIVE Flat(_, _)
Flat(c, k) == IF k > Len(c) THEN <<>> ELSE [n \in 1..Size(c[k]) |-> Particle(c[k], n)] \o Flat(c, k + 1)
\* the value of a halo: a function of the sequence of its particles, nothing else
Value(ps) == ps
Solo(h) == Value([n \in 1..Size(h) |-> Particle(h, n)])
Threads == 1..nthreads
\* the caller puts a catalogue together, then a request
Init == /\ cat = <<>> /\ req = <<>> /\ layout \in Layouts /\ nthreads \in ThreadCounts
        /\ next = 0 /\ job = [t \in Threads |-> 0] /\ pos = [t \in Threads |-> 0]
        /\ buf = [t \in Threads |-> [n \in 1..Largest |-> Empty]]
        /\ answer = <<>> /\ sched = <<>>
In(x, s) == \E k \in 1..Len(s) : s[k] = x
Supply(h) == /\ next = 0 /\ req = <<>> /\ Len(cat) < MaxCat /\ ~In(h, cat) /\ cat' = Append(cat, h)
             /\ UNCHANGED <<layout, req, nthreads, next, job, pos, buf, answer, sched>>
Ask(k) == /\ next = 0 /\ k <= Len(cat) /\ Len(req) < MaxReq /\ ~In(k, req) /\ req' = Append(req, k)
          /\ UNCHANGED <<cat, layout, nthreads, next, job, pos, buf, answer, sched>>
Start == /\ next = 0 /\ req # <<>> /\ next' = 1 /\ answer' = [k \in 1..Len(req) |-> <<>>]
         /\ UNCHANGED <<cat, layout, req, nthreads, job, pos, buf, sched>>
Take(t) == /\ next > 0 /\ job[t] = 0 /\ next <= Len(req)
           /\ job' = [job EXCEPT ![t] = next] /\ pos' = [pos EXCEPT ![t] = 0] /\ next' = next + 1
           /\ sched' = IF Record THEN Append(sched, t) ELSE sched
           /\ UNCHANGED <<cat, layout, req, nthreads, buf, answer>>
Mine(t) == cat[req[job[t]]]
Copy(t) == /\ job[t] # 0 /\ pos[t] < Size(Mine(t))
           /\ buf' = [buf EXCEPT ![t][pos[t] + 1] = Flat(cat, 1)[OffsetOf(cat, req[job[t]]) + pos[t] + 1]]
           /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<cat, layout, req, nthreads, next, job, answer, sched>>
Finish(t) == /\ job[t] # 0 /\ pos[t] = Size(Mine(t))
             /\ answer' = [answer EXCEPT ![job[t]] = Value(SubSeq(buf[t], 1, Size(Mine(t))))]
             /\ job' = [job EXCEPT ![t] = 0]
             /\ UNCHANGED <<cat, layout, req, nthreads, next, pos, buf, sched>>
Over == next > 0 /\ next > Len(req) /\ \A t \in Threads : job[t] = 0
Tell == /\ Record /\ Over /\ next # 99
        /\ PrintT("H|" \o ToJson([cat |-> cat, layout |-> layout, req |-> req, threads |-> nthreads, sched |-> sched]))
        /\ next' = 99 /\ UNCHANGED <<cat, layout, req, nthreads, job, pos, buf, answer, sched>>
Next == (\E h \in Pool : Supply(h)) \/ (\E k \in 1..MaxCat : Ask(k)) \/ Start \/ (\E t \in Threads : Take(t) \/ Copy(t) \/ Finish(t)) \/ Tell
Spec == Init /\ [][Next]_vars /\ \A t \in 1..3 : WF_vars(t \in Threads /\ (Take(t) \/ Copy(t) \/ Finish(t)))
Isolated == \A k \in 1..Len(answer) : answer[k] = <<>> \/ answer[k] = Solo(cat[req[k]])
OneEach == \A s, t \in Threads : s # t /\ job[s] # 0 => job[s] # job[t]
Complete == Over => \A k \in 1..Len(req) : answer[k] = Solo(cat[req[k]])
Ends == (next = 1) ~> Over
=============================================================================
