SPECIFICATION Spec
CONSTANTS K = 3
          MaxPaths = 4
          DirNames = {"p1", "p2", "p3"}
          Kinds = {"ok", "faulty", "broken", "empty"}
          Dedup = TRUE
INVARIANTS ExactlyOnce NeverTwice ErrorsExact
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
