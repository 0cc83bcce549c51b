SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS Builds = {}
          Calls = {}
          Outcomes = {}
