SPECIFICATION Spec
CONSTANTS
 Lows <- SomeLows
 Places <- SomePlaces
 Fills <- SomeFills
 Psrs <- SomePsrs
 Kbs <- SomeKbs
 Prios <- SomePrios
INVARIANTS Total Contained Raised Gated Cancels Frames Codes Faults
CHECK_DEADLOCK FALSE
