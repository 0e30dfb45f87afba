SPECIFICATION Spec
CONSTANTS MaxPins = 2 MaxAsy = 2 MaxZ = 3
INVARIANTS RightPin OrderIsPermutation GroupsCover HeightsUp Emit
CHECK_DEADLOCK FALSE
