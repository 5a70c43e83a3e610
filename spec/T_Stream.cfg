INIT Init
NEXT Next
INVARIANT SInv
