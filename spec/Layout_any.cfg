SPECIFICATION Spec
CONSTANTS
  Used = {"code", "uses", "cells", "options", "fills", "lastblank", "badcode", "badcell", "badoption"}
  MaxChanges = 0
  MinChanges = 0
  Random = TRUE
INVARIANTS QuotesAreClosed ChangesAreThose Emit
CHECK_DEADLOCK FALSE
