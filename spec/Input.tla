------------------------------- MODULE Input --------------------------------
(* When an input is consistent.  Items are what the input names: meshes,     *)
(* materials, pins, lattices, assemblies, cores and the solver.  Each rule   *)
(* has a name; an input is consistent if it breaks none.  The items the input*)
(* should hold but omits or garbles are listed in in.bad.                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, F64
Ids(s) == {s[i].id : i \in 1..Len(s)}
Distinct(s) == Cardinality(Ids(s)) = Len(s)
By(s, n) == s[CHOOSE i \in 1..Len(s) : s[i].id = n]
Pos(x) == FLt(0, x)
(* meshes                                                                    *)
NXs(m) == IF m.type = "rect" THEN m.subx * m.suby ELSE Len(m.radii) + 1
MeshOk(m) ==
   /\ m.id >= 0 /\ Pos(m.pitch)
   /\ \/ m.type = "rect" /\ m.subx >= 1 /\ m.suby >= 1
      \/ /\ m.type = "cyl" /\ m.radii # <<>>
         /\ Pos(m.radii[1]) /\ \A i \in 1..(Len(m.radii)-1) : FLt(m.radii[i], m.radii[i+1])
         /\ FLe(m.radii[Len(m.radii)], FMul(FRat(1, 2), m.pitch))
         /\ Len(m.subr) = Len(m.radii) /\ \A i \in 1..Len(m.subr) : m.subr[i] >= 1
         /\ m.azi \in {2, 4, 6, 8}
MeshesOk(x) == (\A i \in 1..Len(x.meshes) : MeshOk(x.meshes[i])) /\ Distinct(x.meshes)
(* materials: ids given to materials of the library                          *)
MatsOk(x) == Distinct(x.mats) /\ \A i \in 1..Len(x.mats) : x.mats[i].name \in {x.lib[k] : k \in 1..Len(x.lib)}
(* pins                                                                      *)
PinOk(x, p) == /\ p.id # 0 /\ p.mesh \in Ids(x.meshes)
               /\ Len(p.mats) = NXs(By(x.meshes, p.mesh))
               /\ \A i \in 1..Len(p.mats) : p.mats[i] \in Ids(x.mats)
PinsOk(x) == (\A i \in 1..Len(x.pins) : PinOk(x, x.pins[i])) /\ Distinct(x.pins)
(* lattices: pins of one column and row are equally wide                     *)
PitchOf(x, n) == By(x.meshes, By(x.pins, n).mesh).pitch
LatOk(x, l) == /\ l.id # 0 /\ l.nx >= 1 /\ l.ny >= 1 /\ Len(l.pins) = l.nx * l.ny
               /\ \A i \in 1..Len(l.pins) : l.pins[i] \in Ids(x.pins)
               /\ (l.nx > 1 \/ l.ny > 1) => \A i, j \in 1..Len(l.pins) :
                     ((i-1) % l.nx = (j-1) % l.nx \/ (i-1) \div l.nx = (j-1) \div l.nx) => PitchOf(x, l.pins[i]) = PitchOf(x, l.pins[j])
LatsOk(x) == (\A i \in 1..Len(x.lats) : LatOk(x, x.lats[i])) /\ Distinct(x.lats)
(* square pins: what a lattice looks like from outside                       *)
Shape(x, n) == LET l == By(x.lats, n) IN <<l.nx, l.ny, PitchOf(x, l.pins[1])>>
Flat(a) == FoldLeft(LAMBDA p, q : p \o q, <<>>, a.groups)
AsyOk(x, a) == /\ a.id # 0 /\ a.np >= 1 /\ Len(a.hz) = a.np /\ \A i \in 1..Len(a.hz) : Pos(a.hz[i])
               /\ Len(Flat(a)) = a.np /\ \A i \in 1..Len(Flat(a)) : Flat(a)[i] \in Ids(x.lats)
               /\ \A i \in 1..Len(Flat(a)) : Shape(x, Flat(a)[i]) = Shape(x, Flat(a)[1])
AsysOk(x) == (\A i \in 1..Len(x.asys) : AsyOk(x, x.asys[i])) /\ Distinct(x.asys)
Sizes(a) == [i \in 1..Len(a.groups) |-> Len(a.groups[i])]
CoreOk(x) ==
   LET c == x.core  A(i) == By(x.asys, c.asy[i])  S(i) == Shape(x, Flat(A(i))[1]) IN
   /\ c.nx >= 1 /\ c.ny >= 1 /\ Len(c.asy) = c.nx * c.ny
   /\ \A i \in 1..Len(c.asy) : c.asy[i] \in Ids(x.asys)
   /\ \A i \in 1..Len(c.bc) : c.bc[i] \in {"vacuum", "reflect"}
   /\ \A i \in 1..Len(c.asy) : A(i).hz = A(1).hz /\ Sizes(A(i)) = Sizes(A(1))
   /\ \A i, j \in 1..Len(c.asy) :                      \* equally many pins, equally wide, along columns and rows
         /\ (i-1) % c.nx = (j-1) % c.nx => S(i)[1] = S(j)[1] /\ S(i)[3] = S(j)[3]
         /\ (i-1) \div c.nx = (j-1) \div c.nx => S(i)[2] = S(j)[2] /\ S(i)[3] = S(j)[3]
(* the solver: sweeps of the flux, or particles started in a box             *)
OneLattice(x) == \A i \in 1..Len(x.asys) : \A g \in 1..Len(x.asys[i].groups) :       \* one lattice through a thick plane
                    (\E k \in 1..Len(x.core.asy) : x.core.asy[k] = x.asys[i].id) =>
                       \A q \in 1..Len(x.asys[i].groups[g]) : x.asys[i].groups[g][q] = x.asys[i].groups[g][1]
SolverOk(x, s) ==
   /\ s.type \in {"eigenvalue", "fixed_source", "eigenvalue_mc"}
   /\ s.type = "eigenvalue" =>
         /\ Pos(s.ktol) /\ Pos(s.ptol) /\ s.min >= 0 /\ s.min <= s.max
         /\ s.cmfd => Pos(s.cktol) /\ Pos(s.cptol) /\ Pos(s.cres) /\ s.cmax >= 0
         /\ s.sweeper = "2d3d" => s.cmfd
   /\ s.type = "fixed_source" => Pos(s.ptol) /\ s.max >= 1 /\ s.sweeper # "2d3d"
   /\ s.type \in {"eigenvalue", "fixed_source"} =>
         /\ s.sweeper \in {"sn", "moc", "2d3d"} /\ s.inner >= 0 /\ s.update \in {"gs", "jacobi"}
         /\ s.sweeper # "2d3d" => s.scatter = "P0"            \* 2D3D makes its own source
         /\ \/ s.quad = "ls" /\ s.order \in {2, 4, 6, 8, 10, 12, 14, 16}
            \/ s.quad = "cg" /\ s.nazi >= 1 /\ s.npol >= 1
         /\ s.sweeper = "sn" => s.equation = "dd" /\ s.axial \in {"dd", "sc"}
         /\ s.sweeper = "2d3d" => s.equation = "cdd" /\ s.axial \in {"dd", "sc", "fw"}
         /\ s.sweeper \in {"moc", "2d3d"} => /\ Pos(s.spacing) /\ s.corr \in {"none", "flat", "angle"}
                                             /\ OneLattice(x)
   /\ s.type = "eigenvalue_mc" => LET c == x.core  H(n) == FMul(Shape(x, Flat(By(x.asys, n))[1])[1], Shape(x, Flat(By(x.asys, n))[1])[3])
                                      V(n) == FMul(Shape(x, Flat(By(x.asys, n))[1])[2], Shape(x, Flat(By(x.asys, n))[1])[3])
                                      top == <<FSum([i \in 1..c.nx |-> H(c.asy[i])]), FSum([j \in 1..c.ny |-> V(c.asy[(j-1)*c.nx+1])]), FSum(By(x.asys, c.asy[1]).hz)>> IN
         /\ s.inactive >= 0 /\ s.inactive <= s.cycles /\ s.particles >= 0 /\ s.seed % 2 = 1
         /\ \A k \in 1..3 : FLt(s.lo[k], s.hi[k]) /\ FLe(0, s.lo[k]) /\ FLe(s.hi[k], top[k])
Rules(in) == LET x == in.x IN
   IF in.bad # <<>> THEN "omitted or garbled: " \o in.bad[1]
   ELSE IF ~MeshesOk(x) THEN "mesh" ELSE IF ~MatsOk(x) THEN "material" ELSE IF ~PinsOk(x) THEN "pin"
   ELSE IF ~LatsOk(x) THEN "lattice" ELSE IF ~AsysOk(x) THEN "assembly" ELSE IF ~CoreOk(x) THEN "core"
   ELSE IF ~SolverOk(x, x.solver) THEN "solver" ELSE ""
Consistent(in) == Rules(in) = ""
=============================================================================
