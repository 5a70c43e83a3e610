INIT Init
NEXT NextAll
