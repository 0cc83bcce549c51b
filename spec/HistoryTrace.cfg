SPECIFICATION TSpec
CONSTANTS MaxLen = 0
          Steps <- NoSteps
POSTCONDITION Accepted
INVARIANT TextsAreUtf8
CHECK_DEADLOCK FALSE
