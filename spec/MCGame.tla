------------------------------- MODULE MCGame -------------------------------
(* Exhaustive exploration of the game machine on every board of one size.    *)
EXTENDS Game, TLC
CONSTANTS NR, NC, EventSet
VARIABLES b, g, path, ret
vars == <<b, g, path, ret>>

AllBoards == {NumberBoard(NR, NC, m) : m \in (SUBSET ((1..NR) \X (1..NC))) \ {(1..NR) \X (1..NC)}}
Positions == ((1..NR) \X (1..NC)) \cup {<<NR + 1, NC + 1>>}

Init == b \in AllBoards /\ g = InitGame(b) /\ path = <<>> /\ ret = 0
Do(e, p) ==
    /\ Admissible(b, g, e, p)
    /\ LET r == MouseStep(b, g, e, p)
       IN  g' = r.g /\ ret' = r.ret
    /\ path' = Append(path, <<e, p[1] - 1, p[2] - 1>>)
    /\ UNCHANGED b
Next == \E e \in EventSet, p \in Positions : Do(e, p)
Spec == Init /\ [][Next]_vars

(* The machine's behaviour does not depend on the totals of the click        *)
(* counters, so states that differ only there are explored once. Before the  *)
(* start the counters may be taken back, so there zero is told from more.    *)
View == <<b, g.gb, g.st, g.mouse, g.pre, g.hold, g.fl, g.flag, g.solved, Min2(g.right, 2),
          IF g.st \in {"Ready", "PreFlaging"} THEN <<g.left > 0, g.dbl > 0, g.ce > 0>> ELSE <<>> >>

InvType == TypeOK(b, g)
InvTruth == Truthful(b, g)
InvOutcome == OutcomeOK(b, g)
InvCounters == CountersOK(b, g)

Opened(x) == {p \in Cells(b) : At(x, p) \in 0..8}
Flags(x) == {p \in Cells(b) : At(x, p) = 11}
StopsAtEnd == [][g.st \in {"Win", "Loss"} => g' = g]_vars
(* opened cells stay open; flags appear or vanish only by a right press and  *)
(* one at a time; solved work never decreases                                *)
Monotone == [][ /\ Opened(g.gb) \subseteq Opened(g'.gb)
                /\ g'.solved >= g.solved
                /\ Cardinality((Flags(g.gb) \ Flags(g'.gb)) \cup (Flags(g'.gb) \ Flags(g.gb)))
                     <= (IF g'.st = "Loss" THEN 99 ELSE 1) ]_vars
(* lifecycle edges *)
LifecycleEdges == [][ LET edge == <<g.st, g'.st>> IN edge \in
                  {<<x, x>> : x \in GameStates}
                  \cup {<<"Ready", "PreFlaging">>, <<"PreFlaging", "Ready">>,
                        <<"PreFlaging", "Playing">>, <<"PreFlaging", "Win">>, <<"PreFlaging", "Loss">>,
                        <<"Playing", "Win">>, <<"Playing", "Loss">>} ]_vars
(* the return level tells exactly how the board changed *)
RetMeaning == [][ /\ ret' \in {0, 1, 2, 3, 9}
                  /\ ret' = 9 => g' = g
                  /\ ret' = 1 => Flags(g.gb) # Flags(g'.gb)
                  /\ ret' = 2 => Opened(g.gb) # Opened(g'.gb)
                  /\ ret' = 3 => g.gb # g'.gb
                  /\ g'.ce - g.ce \in {-g.ce, 0, 1}
                  /\ ret' \in {2, 3} => g'.ce = g.ce + 1 ]_vars
(* each click counter moves by at most one, and never without a cause *)
CounterSteps == [][ \/ (g'.st = "Ready" /\ g'.left = 0)
                    \/ /\ g'.left - g.left \in {0, 1} /\ g'.dbl - g.dbl \in {0, 1}
                       /\ g'.right - g.right \in {-1, 0, 1} ]_vars
(* mouse automaton edges: a button press or release moves it, nothing else  *)
MouseEdge(e) ==
    CASE e = "none" -> {}
      [] e = "same" -> {<<m, m>> : m \in MouseStates}
      [] e = "lc" -> {<<"UpUp", "DownUp">>, <<"UpDown", "Chording">>, <<"UpDownNotFlag", "ChordingNotFlag">>}
      [] e = "lr" -> {<<"DownUp", "UpUp">>, <<"Chording", "UpDown">>, <<"ChordingNotFlag", "UpDown">>,
                      <<"DownUpAfterChording", "UpUp">>}
      [] e = "rc" -> {<<"UpUp", "UpDown">>, <<"UpUp", "UpDownNotFlag">>, <<"DownUp", "Chording">>,
                      <<"DownUpAfterChording", "Chording">>}
      [] e = "rr" -> {<<"UpDown", "UpUp">>, <<"UpDownNotFlag", "UpUp">>, <<"Chording", "DownUpAfterChording">>,
                      <<"ChordingNotFlag", "DownUpAfterChording">>}
      [] e = "cc" -> {<<"DownUp", "Chording">>, <<"DownUpAfterChording", "Chording">>, <<"UpDown", "Chording">>,
                      <<"UpDownNotFlag", "ChordingNotFlag">>}
      [] OTHER -> {}
MouseEdges == [][ LET e == path'[Len(path')][1]
                      edge == <<g.mouse, g'.mouse>>
                      also == CASE e = "l" -> MouseEdge("lc") \cup MouseEdge("lr")
                                [] e = "r" -> MouseEdge("rc") \cup MouseEdge("rr")
                                [] e = "crl" -> MouseEdge("lr")
                                [] e = "crr" -> MouseEdge("rr")
                                [] OTHER -> MouseEdge(e)
                  IN  edge \in MouseEdge("same") \cup also ]_vars

(* used to export one event path per reachable state *)
DumpPath == PrintT("PATH " \o ToString(NR) \o " " \o ToString(NC) \o " " \o ToString(Mines(b)) \o " " \o ToString(path))
=============================================================================
