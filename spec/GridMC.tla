------------------------------- MODULE GridMC -------------------------------
(* A walker on the grid: it steps through faces from cell to cell.  Checked  *)
(* for every grid up to the bound: numbers identify cells and faces, all     *)
(* numbers are used, crossing a face and coming back returns to the cell,    *)
(* and faces of one plane are numbered together.                             *)
EXTENDS Grid, TLC, Json
CONSTANT Max
VARIABLES n, c, last
vars == <<n, c, last>>
Init == /\ n \in (1..Max) \X (1..Max) \X (1..Max) /\ c \in Cells(n) /\ last = <<>>
Step == \E s \in Sides : /\ Inside(n, Neighbour(c, s))
                         /\ c' = Neighbour(c, s) /\ last' = <<c, s>> /\ UNCHANGED n
Next == Step
Spec == Init /\ [][Next]_vars
StaysInside == Inside(n, c)
SixFaces == Cardinality({FaceNo(n, FaceOf(c, s)) : s \in Sides}) = 6
FacesInRange == \A s \in Sides : FaceNo(n, FaceOf(c, s)) \in 0..(NFaces(n)-1)
Crossed == last # <<>> => /\ FaceNo(n, FaceOf(last[1], last[2])) = FaceNo(n, FaceOf(c, Opp(last[2])))
                          /\ Neighbour(c, Opp(last[2])) = last[1]
CellBijection == c = <<0,0,0>> => {CellNo(n, d) : d \in Cells(n)} = 0..(n[1]*n[2]*n[3]-1)
FaceBijection == c = <<0,0,0>> => /\ {FaceNo(n, f) : f \in Faces(n)} = 0..(NFaces(n)-1)
                                  /\ Cardinality(Faces(n)) = NFaces(n)
OwnersRight == c = <<0,0,0>> => \A f \in Faces(n) :
    /\ Inside(n, HighCell(f)) => FaceOf(HighCell(f), Side(f[1], FALSE)) = f
    /\ Inside(n, LowCell(f)) => FaceOf(LowCell(f), Side(f[1], TRUE)) = f
    /\ Inside(n, HighCell(f)) \/ Inside(n, LowCell(f))
PlaneBlock == \A s \in Sides \ {TOP} :
    FaceNo(n, FaceOf(c, s)) \in (c[3]*PerPlane(n))..((c[3]+1)*PerPlane(n)-1)
(* across an inner corner there are two ways, at an edge of the grid only one *)
Corners == c = <<0,0,0>> => \A i \in 0..n[1], j \in 0..n[2], o \in 1..4 :
    (~(i \in {0, n[1]} /\ j \in {0, n[2]})) =>
        LET ways == {ss \in UNION {[1..k -> 0..3] : k \in 1..2} : PassOk(n, <<i, j>>, o, ss)}
        IN  Cardinality(ways) = IF OnEdge(n, <<i, j>>) THEN 1 ELSE 2
(* and going back over the same corner leads from the cell ahead to the one behind *)
CornersBack == c = <<0,0,0>> => \A i \in 0..n[1], j \in 0..n[2], o \in 1..4 :
    LET b == ((o + 1) % 4) + 1 IN Ahead(<<i, j>>, b) = Behind(<<i, j>>, o)
Emit == (c = <<0,0,0>> /\ last = <<>>) => PrintT("GEN " \o ToJson([n |-> n]))
=============================================================================
