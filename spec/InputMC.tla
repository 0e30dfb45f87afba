------------------------------ MODULE InputMC -------------------------------
(* Mistakes made one after another in a small consistent input.              *)
EXTENDS Input, TLC, Json
CONSTANTS Depth
VARIABLES x, bad, n, first
vars == <<x, bad, n, first>>
Sides == 1..6
Solver(t) == [type |-> "eigenvalue", cmfd |-> t = "2d3d", cktol |-> FRat(1, 1000), cptol |-> FRat(1, 1000), cres |-> FRat(1, 10), cmax |-> 5, ktol |-> FRat(1, 1000), ptol |-> FRat(1, 1000), max |-> 3, min |-> 0, sweeper |-> t, inner |-> 1,
              update |-> "gs", scatter |-> "P0", quad |-> "ls", order |-> 2, nazi |-> 1, npol |-> 1, equation |-> IF t = "2d3d" THEN "cdd" ELSE "dd", axial |-> "dd",
              spacing |-> FRat(1, 5), corr |-> "flat", cycles |-> 2, inactive |-> 1, particles |-> 20, seed |-> 3,
              lo |-> <<FRat(1, 10), FRat(1, 10), FRat(1, 10)>>, hi |-> <<FInt(2), FInt(1), FInt(2)>>]
Base(s) == [lib |-> <<"a", "b">>, mats |-> <<[id |-> 1, name |-> "a"], [id |-> 2, name |-> "b"]>>,
   meshes |-> <<[id |-> 3, type |-> "cyl", pitch |-> FInt(1), radii |-> <<FRat(1, 4), FRat(2, 5)>>, subr |-> <<1, 2>>, azi |-> 4, subx |-> 1, suby |-> 1],
                [id |-> 4, type |-> "rect", pitch |-> FInt(1), radii |-> <<>>, subr |-> <<>>, azi |-> 1, subx |-> 2, suby |-> 1]>>,
   pins |-> <<[id |-> 1, mesh |-> 3, mats |-> <<1, 2, 2>>], [id |-> 2, mesh |-> 4, mats |-> <<2, 1>>]>>,
   lats |-> <<[id |-> 1, nx |-> 2, ny |-> 1, pins |-> <<1, 2>>], [id |-> 2, nx |-> 2, ny |-> 1, pins |-> <<2, 2>>]>>,
   asys |-> <<[id |-> 5, np |-> 2, hz |-> <<FInt(1), FRat(3, 2)>>, groups |-> <<<<1>>, <<2>>>>], [id |-> 6, np |-> 2, hz |-> <<FInt(1), FRat(3, 2)>>, groups |-> <<<<2>>, <<2>>>>]>>,
   core |-> [nx |-> 2, ny |-> 1, asy |-> <<5, 6>>, bc |-> <<"reflect", "reflect", "vacuum", "reflect", "vacuum", "vacuum">>],
   solver |-> IF s = "mc" THEN [Solver("sn") EXCEPT !.type = "eigenvalue_mc"]
             ELSE IF s = "fixed" THEN [Solver("sn") EXCEPT !.type = "fixed_source"] ELSE Solver(s)]
Init == x \in {Base("sn"), Base("moc"), Base("mc"), Base("fixed"), Base("2d3d")} /\ bad = <<>> /\ n = 0 /\ first = <<>>
(* values put in place of the right ones                                     *)
Ints == {-1, 0, 1, 3}
Reals == {FInt(-1), FInt(0), FInt(1), FRat(1, 3), FInt(5)}
Swap(s, i, v) == [s EXCEPT ![i] = v]
Shorter(s) == IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1)
Longer(s) == IF s = <<>> THEN s ELSE Append(s, s[Len(s)])
Lists(s, vs) == {Shorter(s), Longer(s)} \cup {Swap(s, i, v) : i \in 1..Len(s), v \in vs}
Mesh == \E i \in 1..2 : \E m \in ({[x.meshes[i] EXCEPT !.id = v] : v \in {-1, 0, 3}} \cup {[x.meshes[i] EXCEPT !.type = "hex"]}
           \cup {[x.meshes[i] EXCEPT !.pitch = v] : v \in Reals} \cup {[x.meshes[i] EXCEPT !.subx = v] : v \in Ints} \cup {[x.meshes[i] EXCEPT !.suby = v] : v \in Ints}
           \cup (IF x.meshes[i].radii = <<>> THEN {} ELSE
                 {[x.meshes[i] EXCEPT !.radii = v] : v \in Lists(x.meshes[i].radii, Reals)}
                 \cup {[x.meshes[i] EXCEPT !.subr = v] : v \in Lists(x.meshes[i].subr, Ints)}
                 \cup {[x.meshes[i] EXCEPT !.azi = v] : v \in {-2, 0, 1, 2, 3, 8, 10}}))
           : x' = [x EXCEPT !.meshes[i] = m]
Mat == \E i \in 1..2 : \E m \in {[x.mats[i] EXCEPT !.id = v] : v \in {2, 7}} \cup {[x.mats[i] EXCEPT !.name = v] : v \in {"b", "c", ""}} : x' = [x EXCEPT !.mats[i] = m]
Pin == \E i \in 1..2 : \E p \in {[x.pins[i] EXCEPT !.id = v] : v \in {0, 1, 9}} \cup {[x.pins[i] EXCEPT !.mesh = v] : v \in {0, 3, 9}}
           \cup {[x.pins[i] EXCEPT !.mats = v] : v \in Lists(x.pins[i].mats, {0, 1, 9})} : x' = [x EXCEPT !.pins[i] = p]
Lat == \E i \in 1..2 : \E l \in {[x.lats[i] EXCEPT !.id = v] : v \in {0, 1, 9}} \cup {[x.lats[i] EXCEPT !.nx = v] : v \in Ints} \cup {[x.lats[i] EXCEPT !.ny = v] : v \in Ints}
           \cup {[x.lats[i] EXCEPT !.nx = -2, !.ny = -1]} \cup {[x.lats[i] EXCEPT !.nx = 1, !.ny = 2]} \cup {[x.lats[i] EXCEPT !.nx = 1, !.pins = <<2>>]}
           \cup {[x.lats[i] EXCEPT !.pins = v] : v \in Lists(x.lats[i].pins, {0, 1, 9})} : x' = [x EXCEPT !.lats[i] = l]
Asy == \E i \in 1..2 : \E a \in {[x.asys[i] EXCEPT !.id = v] : v \in {0, 5, 9}} \cup {[x.asys[i] EXCEPT !.np = v] : v \in Ints}
           \cup {[x.asys[i] EXCEPT !.hz = v] : v \in Lists(x.asys[i].hz, Reals)} \cup {[x.asys[i] EXCEPT !.hz = <<v, v>>] : v \in Reals}
           \cup {[x.asys[i] EXCEPT !.groups = v] : v \in {<<<<1>>>>, <<<<1>>, <<2>>, <<2>>>>, <<<<9>>, <<1>>>>, <<<<1, 1>>>>, <<<<2, 1>>>>, <<<<2>>, <<2>>>>}}
           : x' = [x EXCEPT !.asys[i] = a]
Core == \E c \in {[x.core EXCEPT !.nx = v] : v \in Ints} \cup {[x.core EXCEPT !.ny = v] : v \in Ints} \cup {[x.core EXCEPT !.nx = -2, !.ny = -1]} \cup {[x.core EXCEPT !.nx = 1, !.ny = 2]}
           \cup {[x.core EXCEPT !.asy = v] : v \in Lists(x.core.asy, {0, 5, 9})}
           \cup {[x.core EXCEPT !.bc[i] = v] : i \in Sides, v \in {"vacuum", "mirror", ""}} : x' = [x EXCEPT !.core = c]
Sol == \E s \in {[x.solver EXCEPT !.type = v] : v \in {"", "diffusion"}}
           \cup (IF x.solver.type # "eigenvalue_mc" THEN
              {[x.solver EXCEPT !.ktol = v] : v \in Reals} \cup {[x.solver EXCEPT !.cmfd = ~@]}
              \cup (IF x.solver.cmfd THEN {[x.solver EXCEPT !.cktol = v] : v \in Reals} \cup {[x.solver EXCEPT !.cptol = v] : v \in Reals} \cup {[x.solver EXCEPT !.cres = v] : v \in Reals}
                     \cup {[x.solver EXCEPT !.cmax = v] : v \in {-1, 1}} ELSE {}) \cup {[x.solver EXCEPT !.ptol = v] : v \in Reals} \cup {[x.solver EXCEPT !.max = v] : v \in Ints}
              \cup {[x.solver EXCEPT !.min = v] : v \in {-1, 3, 4}} \cup {[x.solver EXCEPT !.sweeper = v] : v \in {"", "diffusion"}} \cup {[x.solver EXCEPT !.inner = v] : v \in Ints}
              \cup {[x.solver EXCEPT !.update = "none"], [x.solver EXCEPT !.update = "jacobi"], [x.solver EXCEPT !.scatter = "P9"], [x.solver EXCEPT !.scatter = "Pn"], [x.solver EXCEPT !.quad = "gc"]}
              \cup {[x.solver EXCEPT !.order = v] : v \in {-2, 0, 3, 4, 18}} \cup {[x.solver EXCEPT !.quad = "cg", !.nazi = v] : v \in Ints} \cup {[x.solver EXCEPT !.quad = "cg", !.npol = v] : v \in Ints}
              \cup {[x.solver EXCEPT !.equation = "sd"], [x.solver EXCEPT !.axial = "fw"], [x.solver EXCEPT !.axial = "sc"], [x.solver EXCEPT !.axial = "lc"]}
              \cup {[x.solver EXCEPT !.spacing = v] : v \in {FInt(-1), FInt(0), FRat(1, 3)}} \cup {[x.solver EXCEPT !.corr = v] : v \in {"none", "angle", "best"}}
              ELSE {[x.solver EXCEPT !.cycles = v] : v \in {-1, 3}} \cup {[x.solver EXCEPT !.inactive = v] : v \in {-1, 0, 2}} \cup {[x.solver EXCEPT !.particles = v] : v \in {-1, 5}}
              \cup {[x.solver EXCEPT !.seed = v] : v \in {0, 1, 4}} \cup {[x.solver EXCEPT !.lo[k] = v] : k \in 1..3, v \in Reals} \cup {[x.solver EXCEPT !.hi[k] = v] : k \in 1..3, v \in Reals})
           : x' = [x EXCEPT !.solver = s]
(* leaving something out, or writing it so that it cannot be read            *)
Left == LET s == x.solver.sweeper  mc == x.solver.type = "eigenvalue_mc" IN
        {"mesh/id", "mesh/type", "mesh/pitch", "mesh.radii", "mesh.sub_radii", "mesh.sub_azi", "mesh.sub_x", "mesh.sub_y",
         "material_lib", "material_lib/path", "material/id", "material/name", "pin/id", "pin/mesh", "pin!", "lattice/id", "lattice/nx", "lattice/ny", "lattice!",
         "assembly/id", "assembly/np", "assembly.hz", "assembly.lattices", "assembly+hz", "core", "core+", "core/nx", "core/ny", "core!",
         "core/north", "core/south", "core/east", "core/west", "core/top", "core/bottom", "solver", "solver/type", "library", "library.cut", "document.cut", "mesh.radii!", "mesh.sub_radii!"}
        \cup IF mc THEN {"solver/cycles", "solver/inactive_cycles", "solver/particles_per_cycle", "fission_box", "fission_box/x_min", "fission_box/x_max", "fission_box/y_min",
                         "fission_box/y_max", "fission_box/z_min", "fission_box/z_max"}
           ELSE (IF x.solver.type = "fixed_source" THEN {"solver/flux_tol"} ELSE {"solver/k_tol", "solver/psi_tol"}) \cup {"solver/max_iter", "sweeper", "sweeper/type", "ang_quad", "ang_quad/type", "ang_quad/order"}
                \cup (IF s # "2d3d" THEN {"sweeper/n_inner", "source", "source/scattering", "source+file", "source+file!"} ELSE {}) \cup (IF s # "sn" THEN {"rays", "rays/spacing"} ELSE {}) \cup (IF s = "2d3d" THEN {"sn_sweeper", "moc_sweeper", "sn_sweeper/n_inner", "moc_sweeper/n_inner"} ELSE {})
Omit == \E b \in Left : /\ \A i \in 1..Len(bad) : bad[i] # b
                        /\ b \notin {"ang_quad/order"} \/ x.solver.quad = "ls"
                        /\ bad' = Append(bad, b)
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ (Mesh \/ Mat \/ Pin \/ Lat \/ Asy \/ Core \/ Sol) /\ x' # x /\ UNCHANGED bad
           \/ Omit /\ UNCHANGED x
        /\ first' = Append(first, Rules([x |-> x', bad |-> bad']))
Spec == Init /\ [][Next]_vars
In == [x |-> x, bad |-> bad]
(* the small inputs are consistent, what is left out is missed, and mending  *)
(* takes another step                                                        *)
Sound == n = 0 => Consistent(In)
Missed == bad # <<>> => ~Consistent(In)
Emit == PrintT("GEN " \o ToJson(In))
=============================================================================
