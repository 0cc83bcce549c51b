INIT GInit
NEXT GNext
CONSTANTS MaxLen = 0
          Steps <- NoSteps
CHECK_DEADLOCK FALSE
