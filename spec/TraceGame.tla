------------------------------ MODULE TraceGame ------------------------------
(* Conformance of recorded executions of the implementation with Game.tla.   *)
(* Each line of the trace file is a board, a prefix of events (replayed in   *)
(* the specification only) and observed steps: one after another (chain) or  *)
(* alternatives from the same state (tree), or one call making several steps  *)
(* (flow).                                                                   *)
EXTENDS Game, TLC, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, g, ret

Line == Lines[t]
RECURSIVE Fold(_, _, _, _)
Fold(b, s, k, path) ==
    IF k > Len(path) THEN s
    ELSE Fold(b, MouseStep(b, s, path[k][1], <<path[k][2], path[k][3]>>).g, k + 1, path)

Init == /\ t \in 1..Len(Lines) /\ i = 0 /\ ret = 0
        /\ g = Fold(Lines[t].b, InitGame(Lines[t].b), 1, Lines[t].pre)

Observe(k) ==
    LET o == Line.steps[k]
        r == MouseStep(Line.b, g, o.e, o.p)
    IN  i' = k /\ g' = r.g /\ ret' = r.ret /\ t' = t
Chain == Line.kind = "chain" /\ i < Len(Line.steps) /\ Observe(i + 1)
Tree == Line.kind = "tree" /\ i = 0 /\ \E k \in 1..Len(Line.steps) : Observe(k)
(* a flow of events in one call: it ends with the first one rejected          *)
RECURSIVE Flow(_, _, _, _)
Flow(b, s, k, path) ==
    IF k > Len(path) THEN R(s, 0)
    ELSE LET r == MouseStep(b, s, path[k][1], <<path[k][2], path[k][3]>>)
         IN  IF r.ret = 9 THEN R(s, 9) ELSE Flow(b, r.g, k + 1, path)
Flows == /\ Line.kind = "flow" /\ i = 0 /\ i' = 1 /\ t' = t
         /\ LET r == Flow(Line.b, g, 1, Line.flow) IN g' = r.g /\ ret' = r.ret
Next == Chain \/ Tree \/ Flows
Spec == Init /\ [][Next]_<<t, i, g, ret>>

O == Line.steps[i]
B == Line.b
Seen == i > 0
NoPanic == O.ret # 99

(* C01 lifecycle and outcome *)
Lifecycle == Seen => NoPanic /\ O.st = g.st /\ ((O.ret = 9) <=> (ret = 9))
(* C02 displayed board *)
Displayed == Seen => NoPanic /\ O.gb = ToString(g.gb)
(* C03 click counters *)
Clicks == Seen => NoPanic /\ O.left = g.left /\ O.right = g.right /\ O.dbl = g.dbl
(* C04 derived counters *)
Progress == Seen => NoPanic /\ O.ce = g.ce /\ O.flag = g.flag /\ O.solved = g.solved
(* C05 mouse automaton; what acts as a chord *)
MouseAutomaton == Seen => NoPanic /\ O.ms = g.mouse /\ O.dbl = g.dbl
(* C06 return level *)
Level == Seen => NoPanic /\ O.ret = ret
(* the model's own invariants, along every recorded history *)
ModelSane == Seen => TypeOK(B, g) /\ Truthful(B, g) /\ OutcomeOK(B, g) /\ CountersOK(B, g)
=============================================================================
