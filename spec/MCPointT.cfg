SPECIFICATION Spec
CONSTANT R = 3
INVARIANTS Nested Covered Disjoint CentreChild OwnCentre
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
