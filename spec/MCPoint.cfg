SPECIFICATION Spec
CONSTANT R = 2
INVARIANTS Nested Covered Disjoint CentreChild OwnCentre
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
