CALL_T = "TLA+ definitions checked by TLC on all small boards; TLC-enumerated and random calls of the real code validated by TLC against the definitions"
C("C07", CALL_T)
C("C08", CALL_T, "The random layout itself is sampled, not enumerated.")
C("C26", CALL_T)
C("C32", CALL_T, "The distribution of what is sampled is compared with plainly laid boards by statistics: small differences (below about 0.7 in 3BV) pass.")
SOLVE_T = ("TLA+ specification of positions, arrangements and a deducing player (block-wise operators proved equal to the naive "
           "definition by TLC on small boards); TLC-enumerated reachable positions and random ones given to the real code, "
           "every recorded answer validated by TLC against the specification")
for i in ("C09", "C10", "C11", "C12", "C13", "C14", "C15"):
    C(i, SOLVE_T)
VID_T = ("TLA+ specification of the live recorder, the file layouts, replay and playback, model checked by TLC; recorded histories of the real "
         "recorder, readers and playback validated by TLC against the specification")
for i in ("C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C29", "C30", "C31", "C35"):
    C(i, VID_T)
NA["C28"] = ("Neither part is a property of states and transitions: recognition depends on a trained network over pixels, for which the repository "
             "has no ground truth, and uniformity is a statement about the random generator's distribution, which a state-based specification cannot express")
C("C27", "TLA+ model of the workers, the common flag, the channel and the caller, checked by TLC under all schedules with liveness; repeated real runs "
  "under attempt limits validated by TLC, which enumerates the layouts of each request to say which answers are possible",
  "Real schedules are sampled.")
C("C33", "The TLA+ specifications of games, boards, deduction, files and playback; the inputs of traces and of TLC-enumerated boards are given to the "
  "module built from the working tree, and what it answers is validated by TLC against the specifications", "The values a getter may show are decided by the "
  "specification; values the interface does not show are not decided here.")
C("C34", "The TLA+ specifications of games, boards, deduction, files, playback and review; the inputs of recorded traces are given to the JavaScript interface built "
  "from the working tree, and what it answers is validated by TLC against the specifications", "Built for the machine, not for WebAssembly. Values the "
  "interface does not show are not decided here.")
