SPECIFICATION Spec
CONSTANT R = 3
INVARIANTS Named NamedBeside Own Around Everywhere
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
