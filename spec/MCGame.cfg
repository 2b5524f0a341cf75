SPECIFICATION Spec
CONSTANTS NR = 1 NC = 3
EventSet = {"mv","lc","lr","l","rc","rr","r","mc","mr","m","cc","crl","crr","pf"}
VIEW View
INVARIANTS InvType InvTruth InvOutcome InvCounters
PROPERTIES StopsAtEnd Monotone Lifecycle RetMeaning CounterSteps
CHECK_DEADLOCK FALSE
