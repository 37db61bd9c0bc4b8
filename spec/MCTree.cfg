SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Parents <- ParentSet
INVARIANTS Legal Ranked Counted Exact
PROPERTIES Ascending ByCounter Ends
CHECK_DEADLOCK FALSE
