----------------------------- MODULE ParallelGen -----------------------------
(* Random behaviours of the locking protocol, printed as the sequence of the *)
(* threads that moved: schedules for the real code.                          *)
EXTENDS MCParallel, Json
VARIABLE sched
GInit == Init /\ sched = <<>>
GNext == \/ WorkerStep /\ sched' = Append(sched, "W")
         \/ ConsStep /\ sched' = Append(sched, "C")
         \/ \E c \in Ctl : CtrlStep(c) /\ sched' = Append(sched, c)
         \/ (WSpur \/ CSpur) /\ sched' = Append(sched, "S")
GSpec == GInit /\ [][GNext]_<<vars, sched>>
GView == vars
Out == ~(Finished /\ wpc = "off" /\ PrintT(ToJson(sched)))
=============================================================================
