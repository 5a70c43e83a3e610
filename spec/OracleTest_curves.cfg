INIT Init
NEXT Next
INVARIANT Agree
CONSTANT What = "curves"
CHECK_DEADLOCK FALSE
