SPECIFICATION Spec
CONSTANTS
  Used = {"uses", "cells", "fills"}
  MaxChanges = 2
  MinChanges = 0
  Random = FALSE
INVARIANTS QuotesAreClosed ChangesAreThose Emit
CHECK_DEADLOCK FALSE
