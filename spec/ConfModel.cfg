INIT Init
NEXT Next
INVARIANT Agree
INVARIANT Whole
INVARIANT Prefix
