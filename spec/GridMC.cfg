SPECIFICATION Spec
CONSTANT Max = 4
INVARIANTS StaysInside SixFaces FacesInRange Crossed CellBijection FaceBijection OwnersRight PlaneBlock Corners CornersBack Emit
CHECK_DEADLOCK FALSE
