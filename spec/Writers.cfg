SPECIFICATION Spec
CONSTANTS
  Suite = "single"
  Shard = 0
  Shards = 1
  Emit = TRUE
INVARIANTS WkbCorrect WktCorrect NatCorrect Structure Balanced Emitted
CHECK_DEADLOCK FALSE
