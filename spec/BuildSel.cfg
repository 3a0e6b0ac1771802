SPECIFICATION Spec
CONSTANTS Pkgs = {"a", "b", "c"}
          TagSets = {{}, {"foo"}, {"bar"}, {"foo", "bar"}, {"foo", "baz"}, {"linux"}}
          K = 2
          Shared = FALSE
INVARIANTS EveryPackage TagLocal
CHECK_DEADLOCK FALSE
