SPECIFICATION Spec
CONSTANTS MaxLine = 3
          Rules = {"A", "B"}
          MaxAnnots = 2
          Merge = "equal"
          FirstOnly = FALSE
INVARIANTS LookupExact NoSpurious Accounting
CHECK_DEADLOCK FALSE
