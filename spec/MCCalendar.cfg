INIT Init
NEXT Next
INVARIANTS FirstOK Agrees LinkOK LastOK InverseOK Texts
CHECK_DEADLOCK FALSE
