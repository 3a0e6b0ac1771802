SPECIFICATION Spec
CONSTANTS MaxLine = 3
          Rules = {"A", "B"}
          MaxAnnots = 2
          Merge = "within"
          FirstOnly = TRUE
INVARIANTS LookupExact
CHECK_DEADLOCK FALSE
