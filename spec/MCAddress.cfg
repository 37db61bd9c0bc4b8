SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS Named NamedBeside Own Around Everywhere
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
