\* The protective MBR, one object, more values.
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Lbs = 512
  Objs <- OneObj
  Boots <- B2
  Sigs <- S2
  Recs <- R2
  Slots <- Sl
  Faults <- Ops
ACTION_CONSTRAINT Emit
INVARIANT C20Object
PROPERTIES C20Span C20Setters C20Back C20Refuse
