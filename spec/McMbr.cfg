\* The protective MBR, one object.
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Lbs = 4096
  Objs <- OneObj
  Boots <- B1
  Sigs <- S1
  Recs <- R2
  Slots <- Sl
  Faults <- Ops
ACTION_CONSTRAINT Emit
INVARIANT C20Object
PROPERTIES C20Span C20Setters C20Back C20Refuse
