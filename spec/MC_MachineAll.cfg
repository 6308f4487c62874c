SPECIFICATION Spec
CONSTANTS
 Lows <- AllLows
 Places <- AllPlaces
 Fills <- OneFill
 Psrs <- FewPsrs
 Kbs <- FewKbs
 Prios <- FewPrios
INVARIANTS Total Contained Raised Gated Cancels Frames Codes Faults
CHECK_DEADLOCK FALSE
