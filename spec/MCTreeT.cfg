SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Parents <- ParentSet
INVARIANTS Legal Ranked Counted Exact
PROPERTIES Ascending ByCounter Ends
CHECK_DEADLOCK FALSE
