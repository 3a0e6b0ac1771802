SPECIFICATION Spec
CONSTANTS Pkgs = {"a", "b", "c"}
          TagSets = {{}, {"foo"}, {"bar"}, {"foo", "bar"}, {"foo", "baz"}, {"linux"}}
          K = 2
          Shared = TRUE
INVARIANTS EveryPackage TagLocal
CHECK_DEADLOCK FALSE
