SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Steps <- MCSteps
VIEW View
CONSTRAINT MCBound
INVARIANT TextsAreUtf8 RoundTrip
PROPERTY AppendsExactly
CHECK_DEADLOCK FALSE
