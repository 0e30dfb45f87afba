SPECIFICATION Spec
CONSTANTS Alphabet = {"1", "2", " ", "{", "}", "x"}
          MaxLen = 5
INVARIANTS DigitsKept BracesMatch GroupsNonEmpty RoundTrip FoldAgrees Emit
PROPERTY RejectFinal
CHECK_DEADLOCK FALSE
