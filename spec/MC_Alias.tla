-------------------------------- MODULE MC_Alias --------------------------------
(* Design model of in-place use.  A call is a straight-line program over the words of its operands,   *)
(* its result and a scratch register; result and operands may be one object.  Three forms are safe for      *)
(* every aliasing: word by word (the result word is written after the operand words of the same index          *)
(* were read), through scratch (nothing is stored before everything was read), and accumulate-last               *)
(* (the operands are only read before the result is).  The fourth form, which stores an intermediate                *)
(* result first, is safe only if the result is not the operand it still needs.  Checked for every aliasing            *)
(* and every content.                                                                                                    *)
EXTENDS Integers, Sequences
CONSTANTS Forms, V
\* objects 1..3; alias maps out, x, y to objects
VARIABLES form, al, mem, mem0, pc, tmp
vars == <<form, al, mem, mem0, pc, tmp>>
Ob == 1..3
Vals == 0..(V - 1)
Init == /\ form \in Forms /\ al \in [{"out", "x", "y"} -> Ob] /\ mem \in [Ob -> Vals \X Vals] /\ mem0 = mem /\ pc = 1 /\ tmp = <<0, 0>>
Rd(o) == mem[al[o]]
G(a, b) == (2 * a + b) % V
\* the swap of words stands for a rotation or a product: every result word needs other words
Want == LET x == mem0[al["x"]]  y == mem0[al["y"]] IN
  CASE form = "word" -> <<G(x[1], y[1]), G(x[2], y[2])>>
    [] OTHER -> <<G(x[2], y[1]), G(x[1], y[2])>>
Put(i, v) == mem' = [mem EXCEPT ![al["out"]][i] = v]
Steps ==
  CASE form = "word" -> pc <= 2 /\ Put(pc, G(Rd("x")[pc], Rd("y")[pc])) /\ UNCHANGED tmp
    [] form = "scratch" -> \/ pc = 1 /\ tmp' = <<G(Rd("x")[2], Rd("y")[1]), G(Rd("x")[1], Rd("y")[2])>> /\ UNCHANGED mem
                           \/ pc \in {2, 3} /\ Put(pc - 1, tmp[pc - 1]) /\ UNCHANGED tmp
    [] form = "last" -> \/ pc = 1 /\ tmp' = <<Rd("x")[2], Rd("x")[1]>> /\ UNCHANGED mem
                        \/ pc \in {2, 3} /\ Put(pc - 1, G(tmp[pc - 1], Rd("y")[pc - 1])) /\ UNCHANGED tmp
    [] form = "early" -> \/ pc \in {1, 2} /\ Put(pc, Rd("x")[3 - pc]) /\ UNCHANGED tmp
                         \/ pc \in {3, 4} /\ Put(pc - 2, G(Rd("out")[pc - 2], Rd("y")[pc - 2])) /\ UNCHANGED tmp
Step == Steps /\ pc' = pc + 1 /\ UNCHANGED <<form, al, mem0>>
Spec == Init /\ [][Step]_vars
End == CASE form = "word" -> 3 [] form = "early" -> 5 [] OTHER -> 4
InPlace == pc = End => mem[al["out"]] = Want
Inputs == pc = End => \A o \in {"x", "y"} : al[o] # al["out"] => mem[al[o]] = mem0[al[o]]
=============================================================================
