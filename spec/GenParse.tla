------------------------------- MODULE GenParse -------------------------------
(* Histories of the parser design that end in finishing it, or in a pure question. *)
EXTENDS MCParse, Json
CONSTANT TrackUndone
VARIABLES hist,
          undone   \* what the latest backtracking threw away, so that continuing after it is explored
OpOf(r) == [f \in DOMAIN r \ {"obs"} |-> r[f]]
GInit == Init /\ hist = <<>> /\ undone = <<>>
GNext == /\ Next
         /\ hist' = Append(hist, OpOf(last'))
         /\ undone' = IF TrackUndone /\ last'.o = "ok_since" /\ ~last'.obs.r
                      THEN <<frames, im.ti, Len(im.ev)>> ELSE undone
GSpec == GInit /\ [][GNext]_<<vars, hist, undone>>
GView == <<View, undone>>
Pure == {"peek", "peek_n", "at", "at_n"}
Emit == IF last'.o = "finish" \/ (last'.o \in Pure /\ im' = im)
        THEN PrintT(ToJson([toks |-> src, ops |-> hist'])) ELSE TRUE
=============================================================================
