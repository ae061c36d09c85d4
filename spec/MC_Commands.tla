---------------------------- MODULE MC_Commands ----------------------------
(* Histories of commands over one shared datasource, with symbolic          *)
(* contents: the content of an artefact is the command, its parameter and   *)
(* the contents of what it read.  The system either behaves (bug "none") or *)
(* has one of a list of faults; a history is followed by every scenario on  *)
(* its own in a workspace of its own.  Checked: the clauses of C20 never    *)
(* object to the system that behaves, in any order of commands, which then  *)
(* ends in the same artefacts whatever the order; and they object to a      *)
(* faulty one whenever its artefacts ever differ from the right ones.       *)
EXTENDS Malstroem
CONSTANTS SCEN,        \* scenarios
          OTHERS,      \* commands which do not belong to a scenario
          BUGS,
          EARLY,       \* commands issued before their inputs exist, at most
          NEWPROCESS   \* the scenarios on their own run in a process of their own
VARIABLES bug, world, right, done, others, early, cache, alone, own, caught, wrong
vars == <<bug, world, right, done, others, early, cache, alone, own, caught, wrong, store, memo, native>>
Rain(s) == IF s = "C" THEN "A" ELSE s         \* scenario C is as A
V(c, p, i) == [c |-> c, p |-> p, i |-> i]
Base == [n \in {"dem", "lab", "nodes", "hyps"} |-> V(n, "", <<>>)]
STAGES == 4
Name(k) == <<"initvolumes", "finalvolumes", "finallevels", "finalbluespots">>[k]
Out(k, s) == <<"iv", "fv", "fl", "fb">>[k] \o s
Ins(k, s) == <<<<"nodes">>, <<"iv" \o s>>, <<"fv" \o s, "hyps">>, <<"lab", "dem", "fl" \o s>>>>[k]
Par(k, s) == IF k = 1 THEN Rain(s) ELSE ""
OtherIns(o) == IF o = "hyps2" THEN <<"lab", "dem">> ELSE <<"nodes">>
Have(w, ins) == \A i \in DOMAIN ins : ins[i] \in DOMAIN w
Get(w, ins) == [i \in DOMAIN ins |-> w[ins[i]]]
Upd(w, n, v) == [x \in DOMAIN w \cup {n} |-> IF x = n THEN v ELSE w[x]]
Without(w, n) == [x \in DOMAIN w \ {n} |-> w[x]]
None == V("", "", <<>>)
Init == /\ bug \in BUGS /\ world = Base /\ right = Base /\ done = [s \in SCEN |-> 0] /\ others = {} /\ early = 0
        /\ cache = None /\ alone = [s \in SCEN |-> 0] /\ own = Base /\ caught = {} /\ wrong = FALSE
        /\ store = Base /\ memo = [n \in {} |-> 0] /\ native = FALSE

\* what the system does with command c on workspace w: contents read, new workspace, new cache
Read(w, c, ins) ==
  IF bug = "cache" /\ c = "finalvolumes" /\ cache # None THEN <<cache>>
  ELSE IF bug = "count" THEN Get(w, ins) \o <<V("count", "", [i \in 1..Cardinality(DOMAIN w) |-> None])>>      \* depends on what else there is
  ELSE Get(w, ins)
NewCache(w, c, ins) == IF bug = "cache" /\ c = "finalvolumes" /\ cache = None THEN w[ins[1]] ELSE cache
After(w, c, p, ins, out) ==
  LET v == V(c, p, Read(w, c, ins))
      w1 == Upd(w, out, v)
  IN CASE bug = "input" /\ c = "finalvolumes" -> Upd(w1, ins[1], V("touched", "", <<w1[ins[1]]>>))
       [] bug = "drop" /\ c = "finallevels" /\ "hyps2" \in DOMAIN w -> Without(w1, "hyps2")
       [] bug = "extra" /\ c = "finalbluespots" -> Upd(w1, "tmp", None)
       [] bug = "clobber" /\ c = "hyps2" -> Upd(w1, "hyps", v)
       [] OTHER -> w1
Right(w, c, p, ins, out) == Upd(w, out, V(c, p, Get(w, ins)))

Seen(w, outs) == LET D == SetToSeq(DOMAIN w \ outs) IN [i \in DOMAIN D |-> <<D[i], w[D[i]]>>]
None0 == [x \in {} |-> 0]
\* the recorded step: the observer looks at the shared workspace before and after
Judge(before, after, shared, c, p, ins, out, inShared) ==
  LET e == [op |-> "Command", err |-> "", r |-> None0,
            w |-> IF inShared THEN [o |-> [n |-> out, v |-> after[out]]] ELSE None0,
            p |-> [key |-> <<c, p, Get(before, ins)>>, digest |-> after[out], seen |-> Seen(shared, IF inShared THEN {out} ELSE {})]]
  IN /\ caught' = caught \cup Failing(e)
     /\ Effect(e)
Command(c, p, ins, out) ==
  /\ Have(world, ins) /\ out \notin DOMAIN world
  /\ world' = After(world, c, p, ins, out)
  /\ right' = IF Have(right, ins) THEN Right(right, c, p, ins, out) ELSE right
  /\ wrong' = (wrong \/ world' # right')
  /\ cache' = NewCache(world, c, ins)
  /\ Judge(world, world', world', c, p, ins, out, TRUE)
  /\ UNCHANGED <<bug, early, alone, own>>
Stage(s) == /\ done[s] < STAGES /\ alone = [x \in SCEN |-> 0]
            /\ done' = [done EXCEPT ![s] = @ + 1]
            /\ Command(Name(done[s] + 1), Par(done[s] + 1, s), Ins(done[s] + 1, s), Out(done[s] + 1, s))
            /\ UNCHANGED others
Other(o) == /\ o \notin others /\ alone = [x \in SCEN |-> 0]
            /\ others' = others \cup {o}
            /\ Command(o, "", OtherIns(o), o)
            /\ UNCHANGED done
\* a command too early: has to be refused; a faulty one takes whatever layer of that kind it finds, or leaves something behind
Early(s, k) ==
  /\ early < EARLY /\ alone = [x \in SCEN |-> 0] /\ k > done[s] + 1
  /\ early' = early + 1
  /\ LET ins == Ins(k, s)
         other == {t \in SCEN : Have(world, Ins(k, t))}
         runs == bug = "fallback" /\ other # {}
         t == CHOOSE t \in other : TRUE
         w1 == IF runs THEN Upd(world, Out(k, s), V(Name(k), Par(k, s), Get(world, Ins(k, t))))
               ELSE IF bug = "halfway" /\ k = 4 THEN Upd(world, Out(k, s), None) ELSE world
         e == [op |-> "CommandRefused", err |-> "", r |-> None0, w |-> None0, p |-> [failed |-> ~runs, seen |-> Seen(w1, {})]]
     IN /\ world' = w1
        /\ wrong' = (wrong \/ runs \/ w1 # right)
        /\ caught' = caught \cup Failing(e)
        /\ Effect(e)
  /\ UNCHANGED <<bug, right, done, others, cache, alone, own>>
Finished == done = [s \in SCEN |-> STAGES] /\ others = OTHERS
First == CHOOSE s \in SCEN : alone[s] < STAGES /\ \A t \in SCEN : alone[t] \in 1..(STAGES - 1) => t = s
\* afterwards every scenario on its own, in a workspace of its own
Alone == /\ Finished \/ wrong
         /\ \E s \in SCEN : alone[s] < STAGES
         /\ LET s == First
                k == alone[s] + 1
                w == IF k = 1 THEN Base ELSE own
                c == Name(k)
            IN /\ alone' = [alone EXCEPT ![s] = k]
               /\ Have(w, Ins(k, s))
               /\ LET cch == IF k = 1 /\ NEWPROCESS THEN None ELSE cache
                      v == V(c, Par(k, s), IF bug = "cache" /\ c = "finalvolumes" /\ cch # None THEN <<cch>>
                                           ELSE IF bug = "count" THEN Get(w, Ins(k, s)) \o <<V("count", "", [i \in 1..Cardinality(DOMAIN w) |-> None])>>
                                           ELSE Get(w, Ins(k, s)))
                  IN /\ own' = Upd(w, Out(k, s), v)
                     /\ cache' = IF bug = "cache" /\ c = "finalvolumes" /\ cch = None THEN w[Ins(k, s)[1]] ELSE cch
                     /\ Judge(w, own', world, c, Par(k, s), Ins(k, s), Out(k, s), FALSE)
         /\ UNCHANGED <<bug, world, right, done, others, early, wrong>>
Next == (\E s \in SCEN : Stage(s) \/ \E k \in 2..STAGES : Early(s, k)) \/ (\E o \in OTHERS : Other(o)) \/ Alone
Spec == Init /\ [][Next]_vars
Over == Finished /\ alone = [s \in SCEN |-> STAGES]

Quiet == bug = "none" => caught = {}
SameEnd == bug = "none" /\ Finished =>
  /\ \A s \in SCEN : world[Out(4, s)] = V("finalbluespots", "", <<Base["lab"], Base["dem"],
        V("finallevels", "", <<V("finalvolumes", "", <<V("initvolumes", Rain(s), <<Base["nodes"]>>)>>), Base["hyps"]>>)>>)
  /\ \A n \in DOMAIN Base : world[n] = Base[n]
Noticed == Over => (wrong <=> caught # {})
=============================================================================
