SPECIFICATION Spec
CONSTANTS R = 2
Bases = {0, 4, 8, 14, 16, 38, 121, 117}
INVARIANTS Legal Round Sooner Undone OnSurface Rigid
PROPERTY Ends
CHECK_DEADLOCK FALSE
