SPECIFICATION Spec
CONSTANTS Builds = {b1, b2, b3}
          Calls = {1, 2}
          Outcomes = {"x", "y", "z"}
INVARIANT NoFalseAlarm
PROPERTY Detected
CHECK_DEADLOCK FALSE
