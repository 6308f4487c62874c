SPECIFICATION Spec
CONSTANTS
 PORTS = {65023, 65024, 65040, 65042, 65534}
 MaxId = 5
INVARIANTS Owned Reserved Exact Unique Ids Access
CHECK_DEADLOCK FALSE
