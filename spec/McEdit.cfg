\* Edits on 14 blocks.
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS
  Lbs = 4096
  Sizes <- N14
  Handles <- JustH
  Confs <- EdConfs
  CreateOn <- OnD
  Adds <- EdAdds
  Ats <- EdAts
  Rms <- EdRms
  Maps <- EdMaps
  Guids <- OneG
  Losses <- Empty
  Damages <- Empty
  Swaps <- Empty
  Clones <- Empty
  Grow = TRUE
  Max = 2
ACTION_CONSTRAINT Emit
INVARIANTS C01Read C03Layout C08Open C28Reopen C12Free C13Next C14Fits C24Align C27Inside
PROPERTIES C27Grow C02Write C28Again C03New C05Only C05ReadOnly C06Backup C08Repair C10Add C11At C13Number C14Count C14Write C15Fail C16Remove C16Update C17Guid C25Others C25Same
