SPECIFICATION Spec
CONSTANTS Callers = {1, 2, 3}
          Calls = 2
INVARIANTS OnceOK NoRace UsedBuilt
PROPERTIES AllReturn
CHECK_DEADLOCK FALSE
