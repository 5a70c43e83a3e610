INIT Init
NEXT Next
INVARIANT Agree
CONSTANT What = "fields"
CHECK_DEADLOCK FALSE
