SPECIFICATION CSpec
CONSTANTS
 Ids = {"a", "b"}
 Weak = {"1", "2"}
 Careful = TRUE
 OwnData = TRUE
INVARIANTS Labelled Offers
PROPERTY Stable
CHECK_DEADLOCK FALSE
