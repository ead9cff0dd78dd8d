------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* C18, the protocol.  Builders (processes) turn the equations of a model   *)
(* into a library in a working directory they share: write the source,      *)
(* name the library by the content of the source, reuse a library of that   *)
(* name or compile one, load it.  Any of them can be killed at any moment,  *)
(* and a compiler can fail at any moment and leave partial output.          *)
(*                                                                         *)
(* Way says how files are used:                                            *)
(*   "private"  source and new library in a directory of one's own, the     *)
(*              finished library is moved into place                       *)
(*   "shared"   one source file for everybody                              *)
(*   "direct"   the compiler writes the visible library itself              *)
(*   "byname"   the library is named before the equations are looked at     *)
(* The invariants hold for the first and each fails for one of the others  *)
(* (BuildBad), which is what makes them worth checking.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Procs, Eqs, Builds, Way
VARIABLES pc, eq, src, key, own, lib, got, failed, left
vars == <<pc, eq, src, key, own, lib, got, failed, left>>
None == [e |-> 0, whole |-> FALSE]
Loc(p) == IF Way = "shared" THEN 0 ELSE p
Names == IF Way = "byname" THEN {0} ELSE Eqs
Init == /\ pc = [p \in Procs |-> "idle"] /\ eq = [p \in Procs |-> 0]
        /\ src = [l \in Procs \cup {0} |-> 0] /\ key = [p \in Procs |-> 0]
        /\ own = [p \in Procs |-> None] /\ lib = [n \in Names |-> None]
        /\ got = [p \in Procs |-> 0] /\ failed = [p \in Procs |-> FALSE]
        /\ left = Builds
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Begin(p) == /\ pc[p] \in {"idle", "dead", "loaded", "error"} /\ left > 0 /\ left' = left - 1
            /\ \E e \in Eqs : eq' = [eq EXCEPT ![p] = e]
            /\ Go(p, "write") /\ got' = [got EXCEPT ![p] = 0] /\ failed' = [failed EXCEPT ![p] = FALSE]
            /\ own' = [own EXCEPT ![p] = None] /\ UNCHANGED <<src, key, lib>>
Write(p) == /\ pc[p] = "write" /\ src' = [src EXCEPT ![Loc(p)] = eq[p]] /\ Go(p, "name")
            /\ UNCHANGED <<eq, key, own, lib, got, failed, left>>
Name(p) == /\ pc[p] = "name" /\ key' = [key EXCEPT ![p] = IF Way = "byname" THEN 0 ELSE src[Loc(p)]]
           /\ Go(p, "look") /\ UNCHANGED <<eq, src, own, lib, got, failed, left>>
Look(p) == /\ pc[p] = "look" /\ Go(p, IF lib[key[p]] = None THEN "compile" ELSE "load")
           /\ UNCHANGED <<eq, src, key, own, lib, got, failed, left>>
\* the compiler reads the source, and its output appears bit by bit
Put(p, f) == IF Way = "direct" THEN lib' = [lib EXCEPT ![key[p]] = f] /\ UNCHANGED own
             ELSE own' = [own EXCEPT ![p] = f] /\ UNCHANGED lib
CompileHalf(p) == /\ pc[p] = "compile" /\ Put(p, [e |-> src[Loc(p)], whole |-> FALSE]) /\ Go(p, "half")
                  /\ UNCHANGED <<eq, src, key, got, failed, left>>
CompileRest(p) == /\ pc[p] = "half"
                  /\ Put(p, [(IF Way = "direct" THEN lib[key[p]] ELSE own[p]) EXCEPT !.whole = TRUE])
                  /\ Go(p, "move") /\ UNCHANGED <<eq, src, key, got, failed, left>>
CompileFails(p) == /\ pc[p] \in {"compile", "half"} /\ failed' = [failed EXCEPT ![p] = TRUE] /\ Go(p, "error")
                   /\ UNCHANGED <<eq, src, key, own, lib, got, left>>
Move(p) == /\ pc[p] = "move" /\ Go(p, "load")
           /\ (IF Way = "direct" THEN UNCHANGED lib ELSE lib' = [lib EXCEPT ![key[p]] = own[p]])
           /\ UNCHANGED <<eq, src, key, own, got, failed, left>>
Load(p) == /\ pc[p] = "load" /\ Go(p, IF lib[key[p]].whole THEN "loaded" ELSE "error")
           /\ got' = [got EXCEPT ![p] = IF lib[key[p]].whole THEN lib[key[p]].e ELSE 0]
           /\ UNCHANGED <<eq, src, key, own, lib, failed, left>>
Kill(p) == /\ pc[p] \notin {"idle", "dead"} /\ Go(p, "dead") /\ got' = [got EXCEPT ![p] = 0]
           /\ UNCHANGED <<eq, src, key, own, lib, failed, left>>
Next == \E p \in Procs : Begin(p) \/ Write(p) \/ Name(p) \/ Look(p) \/ CompileHalf(p) \/ CompileRest(p)
                         \/ CompileFails(p) \/ Move(p) \/ Load(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A p \in Procs : pc[p] \in {"idle", "write", "name", "look", "compile", "half", "move", "load",
                                          "loaded", "error", "dead"}
\* what is loaded is what was asked for
OwnEquations == \A p \in Procs : pc[p] = "loaded" => got[p] = eq[p]
\* a build fails only if its own compiler did
OnlyOwnFailure == \A p \in Procs : pc[p] = "error" => failed[p]
\* every visible library is complete and carries the equations of its name
Visible == \A n \in Names : lib[n] # None => lib[n].whole /\ lib[n].e = n
\* a complete library stays what it is
Stable == [][\A n \in Names : lib[n].whole => lib'[n] = lib[n]]_vars
=============================================================================
