SPECIFICATION Spec
CONSTANTS
  Used = {"code", "uses", "cells", "options", "fills", "lastblank", "badcode", "badcell", "badoption"}
  MaxChanges = 1
  MinChanges = 0
  Random = FALSE
INVARIANTS QuotesAreClosed ChangesAreThose Emit
CHECK_DEADLOCK FALSE
