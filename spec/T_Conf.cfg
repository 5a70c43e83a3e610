INIT Init
NEXT Next
INVARIANT Prefix
