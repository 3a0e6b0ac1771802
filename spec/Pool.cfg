SPECIFICATION Spec
CONSTANTS K = 2
          MaxPaths = 3
          DirNames = {"p1", "p2"}
          Kinds = {"ok", "faulty", "broken", "empty", "missing"}
          Dedup = TRUE
INVARIANTS ExactlyOnce NeverTwice ErrorsExact
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
