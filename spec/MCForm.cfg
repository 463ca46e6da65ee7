SPECIFICATION Spec
INVARIANTS RulesHold HonestServed ChangedRefused DamageSeen
CONSTANT SigValid <- ModelSigValid
CONSTANT Family = "order"
CONSTANT K = 4
CHECK_DEADLOCK FALSE
