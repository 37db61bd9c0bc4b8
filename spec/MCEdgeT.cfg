SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS Valid Codec Distinct OneEach Headed
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
