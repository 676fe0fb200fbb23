\* Two objects.
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Lbs = 512
  Objs <- TwoObj
  Boots <- B1
  Sigs <- S1
  Recs <- R1
  Slots <- Sl1
  Faults <- Ops
ACTION_CONSTRAINT Emit
INVARIANT C20Object
PROPERTIES C20Span C20Setters C20Back C20Refuse
