SPECIFICATION Spec
INVARIANTS RulesHold HonestServed ChangedRefused DamageSeen
CONSTANT SigValid <- ModelSigValid
CONSTANT Family = "names"
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
