------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* C13.  The numerical backend in force, and the scopes that select it.     *)
(* A scope object (or a function decorated with one) may be entered any     *)
(* number of times, also while it is open; frames are left in reverse order *)
(* of entry, normally or by an exception that passes through them.          *)
(***************************************************************************)
EXTENDS Poly, Emit
CONSTANTS Seed, Walks, Len0, Exhaustive
VARIABLES w, step, cur, frames, last, hist
vars == <<w, step, cur, frames, last, hist>>

Known == <<"numpy", "jax", "casadi">>
\* targets of the scope objects 1..5; the last one selects a backend that does not exist
Targets(x) == CASE x % 4 = 0 -> <<"jax", "casadi", "numpy", "jax", "tensorflow">>
                [] x % 4 = 1 -> <<"casadi", "jax", "jax", "numpy", "torch">>
                [] x % 4 = 2 -> <<"numpy", "casadi", "casadi", "jax", "NumPy">>
                [] x % 4 = 3 -> <<"casadi", "numpy", "jax", "casadi", "">>
T == Targets(w)
Valid(b) == \E k \in 1..3 : Known[k] = b
Select(b, c) == IF Valid(b) THEN b ELSE c
MaxDepth == 12
Frame(o, kind) == [o |-> o, kind |-> kind, saved |-> cur]
Did(op, c, f) == /\ cur' = c /\ frames' = f /\ last' = [op |-> op, cur |-> c, n |-> Len(f)]
Enter(o, kind) ==
    IF Len(frames) >= MaxDepth THEN Did([k |-> "skip"], cur, frames)
    ELSE Did([k |-> "enter", o |-> o, kind |-> kind], Select(T[o], cur), Append(frames, Frame(o, kind)))
\* leave n frames by an exception, or one normally
Leave(n0, how) ==
    LET n == Min2(n0, Len(frames)) IN
    IF n = 0 THEN Did([k |-> "skip"], cur, frames)
    ELSE Did([k |-> "leave", n |-> n, how |-> how], frames[Len(frames) - n + 1].saved, SubSeq(frames, 1, Len(frames) - n))
SetB(b) == Did([k |-> "set", b |-> b], Select(b, cur), frames)
\* the library evaluates something: it uses scopes of its own and restores what was in force
Lib(what) == Did([k |-> "lib", what |-> what], cur, frames)

Alphabet == 12
DoX(a) ==
    CASE a = 1 -> Enter(1, "with") [] a = 2 -> Enter(1, "func") [] a = 3 -> Enter(2, "with") [] a = 4 -> Enter(3, "func")
      [] a = 5 -> Enter(5, "with") [] a = 6 -> Enter(2, "method") [] a = 7 -> Leave(1, "normal") [] a = 8 -> Leave(1, "Exception")
      [] a = 9 -> Leave(2, "KeyboardInterrupt") [] a = 10 -> SetB(T[4]) [] a = 11 -> SetB(T[5]) [] a = 12 -> Leave(9, "Exception")
DoR(h) ==
    LET k == Rnd(h, 1, 0, 19) IN
    CASE k < 9 -> Enter(IF h % 3 = 0 /\ frames # <<>> THEN frames[Rnd(h, 2, 1, Len(frames))].o ELSE Rnd(h, 3, 1, 5),
                        Pick(h, 4, <<"with", "func", "method", "with", "func", "fresh", "lambda">>))
      [] k < 13 -> Leave(1, "normal")
      [] k < 16 -> Leave(Rnd(h, 5, 1, 4), Pick(h, 6, <<"Exception", "KeyboardInterrupt", "SystemExit", "StopIteration", "GeneratorExit">>))
      [] k = 16 -> SetB(Pick(h, 7, Known))
      [] k = 17 -> SetB(Pick(h, 8, <<"", "torch", "JAX", "numpy ", T[5]>>))
      [] k >= 18 -> Lib(Pick(h, 9, <<"jax", "casadi", "broken", "batched", "structure">>))
Init == /\ w \in 1..Walks /\ step = 0
        /\ cur = "numpy" /\ frames = <<>>
        /\ last = [op |-> [k |-> "init"], cur |-> cur, n |-> 0] /\ hist = <<>>
Next == /\ step < Len0 /\ step' = step + 1 /\ w' = w
        /\ IF Exhaustive THEN \E a \in 1..Alphabet : DoX(a) ELSE DoR(Hash(Seed * 5 + w * 101, step * 17 + 3))
        /\ hist' = IF Exhaustive THEN Append(hist, last') ELSE hist
Spec == Init /\ [][Next]_vars

TypeOK == Valid(cur) /\ \A k \in 1..Len(frames) : Valid(frames[k].saved)
\* a scope just entered is in force unless its backend does not exist
InForce == [][last'.op.k = "enter" => cur' = Select(T[last'.op.o], cur)]_vars
\* leaving a frame restores what was in force when it was entered
Restores == [][Len(frames') < Len(frames) => cur' = frames[Len(frames') + 1].saved]_vars
Ans == [w |-> w, step |-> step, last |-> last, hist |-> hist, targets |-> T,
        saved |-> [k \in 1..Len(frames) |-> frames[k].saved]]
Out == EmitJson(Ans, <<w, step, hist>>)
=============================================================================
