"""Single source of properties.jsonl and MANIFEST.json (python3 spec/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, na=na))


prop("C01", "No C++ exception crosses the C interface",
     "Whatever arguments, input files or simulation state a caller of the C functions supplies, every C function returns to its caller; no C++ exception ever propagates out of it.",
     ["inputs", "fault_sequences"], "every C entry point, every input, every failing file operation or throwing callee",
     "Each entry point can be reached with every failure of every callee (unwritable file, bad token, diverged state, bad index); the tests exercise a handful of failures on a handful of entry points, and an escaping exception aborts a C, Fortran or Rust caller.",
     ["source/MoorDyn2.cpp", "source/MoorDyn.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Waves.cpp", "source/Seafloor.cpp"],
     [("MOORDYN_CATCHER", "source/Misc.hpp: turns exceptions into return codes at each entry point"), ("try blocks", "extern C functions of source/*.cpp")],
     "interprocedural exception-escape dataflow (least fixpoint over the resolved call graph, handlers subtracted)",
     "sound over the modelled throw sites and call graph (virtual calls to every overrider); allocation failure and exceptions from VTK/Eigen internals are outside")

prop("C02", "Absent handles and absent coupled kinematics are refused",
     "A null system, object, waves or seafloor handle (or a missing global instance in the version 1 interface) passed to any C function is answered with an error code or a null handle and is never dereferenced. Initialising or stepping a system that has coupled degrees of freedom with a null position, velocity or force array is answered with an error code before the array is touched.",
     ["inputs"], "every C entry point x every handle argument; Init and Step x every null array",
     "There are about 110 entry point/handle pairs; the tests pass valid handles almost everywhere.",
     ["source/MoorDyn2.cpp", "source/MoorDyn.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Waves.cpp", "source/Seafloor.cpp"],
     [("CHECK_SYSTEM, CHECK_LINE, CHECK_ROD, CHECK_BODY, CHECK_POINT, CHECK_WAVES, CHECK_SEAFLOOR", "guards at the top of each entry point"), ("null checks of x, xd, f", "MoorDyn::Init, MoorDyn::Step, MoorDyn::GetForces")],
     "abstract interpretation of every entry point with the handle fixed to null; null-dereference and return-value analysis",
     "exhaustive over entry points and handles; only the first handle of an entry is required to be refused")

prop("C03", "A saved simulation restores to the same state",
     "Saving a system to a file or a buffer and loading it back into the same system, at any point of any run, reproduces its state exactly: everything that is packed is unpacked in the same order, as the same type, the same number of times and into the same place it came from. What is packed includes the simulation clock, every stored integrator state and derivative of every body, rod, point and line (with the history length and time counters of multi-step and local schemes), the kinematic state of each object, and every line property that the interface can change along a run. The buffer size reported by the interface is the size written.",
     ["histories", "inputs", "configurations"], "every integrator, every object, every field; every point of a run",
     "A checkpoint has hundreds of fields in nested loops; the tests save and load one system and compare a few of them.",
     ["source/IO.cpp", "source/IO.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Time.hpp", "source/MoorDyn2.cpp"],
     [("Serialize, Deserialize", "each class derived from io::IO"), ("IO::Serialize/Deserialize overloads", "source/IO.cpp"), ("Save, Load, MoorDyn_Save, MoorDyn_Load, MoorDyn_Serialize, MoorDyn_Deserialize", "source/IO.cpp, source/MoorDyn2.cpp")],
     "abstract interpretation of each pack/unpack pair to sequences of typed places with symbolic loop counts, compared item by item; coverage of the saved places against the state fields",
     "structure only: the bit-level encoding of one floating-point number (pack754/unpack754), including non-finite values, is taken as an inverse pair; output file positions are not part of the state")

prop("C04", "One layout of the coupled degrees of freedom everywhere",
     "For every mix of coupled bodies, rods and points, initialisation, stepping and force recovery use one and the same packed layout of the exchanged arrays (bodies, then rods, then points; six components for a coupled body or rod, three for a pinned one or a point), component by component, and the advertised number of coupled degrees of freedom is the length of that layout. The accelerations given to coupled objects are the change of their velocity divided by the coupling step.",
     ["inputs", "configurations"], "every number, order and type of coupled bodies, rods and points",
     "The layout is a set of prefix sums over lists of any length and mix of types; tests use one or two coupled objects of one kind.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp"],
     [("NCoupledDOF", "source/MoorDyn2.hpp"), ("GetForces", "source/MoorDyn2.hpp"), ("Init, Step", "source/MoorDyn2.cpp: loops over the coupled object lists")],
     "abstract interpretation with symbolic lists; offsets as closed-form prefix sums compared in normal form",
     "all list lengths and type mixes at once (symbolic); assumes the coupled lists hold coupled and coupled-pinned objects only")

prop("C05", "Every integrator advances the simulation clock by exactly the requested step",
     "Whatever integrator is selected, one internal step of length dt moves the simulation clock from t to t + dt, leaves the step length it was given unchanged, and leaves all objects at the new state and the new time. A call to the public step function covers exactly the requested interval with such steps (none longer than the internal time step or than what remains), hands back the clock, and initialisation leaves the clock at zero.",
     ["inputs", "configurations", "histories"], "every integrator, every step length, every state",
     "The tests integrate with a few schemes for a few steps and compare positions with loose tolerances; a wrong stage time or clock advance of one scheme goes unnoticed.",
     ["source/Time.hpp", "source/Time.cpp"],
     [("Step", "source/Time.cpp, source/Time.hpp: one per scheme"), ("Next, t_local", "source/Time.hpp: TimeSchemeBase")],
     "abstract interpretation of each scheme's step to a symbolic normal form of the clock and the evaluation times",
     "all schemes, all step lengths; real arithmetic")

prop("C06", "Integrators apply consistent formulas of their advertised order",
     "Euler, Runge-Kutta and Adams-Bashforth integrators apply coefficients that satisfy the order conditions of the order they are named after, implicit schemes combine old and new derivatives with their own configured coefficients, and every derivative is evaluated at the time that belongs to the state it is evaluated for. This holds for every kind of object alike.",
     ["inputs", "configurations"], "every integrator, every object kind, every step length and state",
     "A wrong coefficient keeps the scheme convergent enough for the loose tolerances of the tests, and most schemes are not tested against an exact solution.",
     ["source/Time.hpp", "source/Time.cpp", "source/State.cpp", "source/State.hpp"],
     [("Step", "source/Time.cpp, source/Time.hpp"), ("Newmark, Wilson, MakeStationary", "source/State.cpp"), ("shift", "source/Time.hpp: ABScheme")],
     "abstract interpretation to exact rational coefficients; algebraic order conditions; component-wise normal forms",
     "Butcher conditions up to order 4, Adams conditions up to order 5; Heun only for consistency; real arithmetic")

prop("C07", "State arithmetic acts on every component of every object kind",
     "Adding, subtracting and scaling simulation states and derivatives, and mixing them, acts component by component on every line node, point, rod and body, for any number of objects, and assigning or combining states never leaves out an object kind or changes its operands.",
     ["inputs", "configurations"], "every number of objects of each kind, every value",
     "The operators exist for each object kind and derivative type separately (some forty definitions); tests integrate systems that use only a few of them.",
     ["source/State.hpp", "source/State.cpp"],
     [("operator+, operator-, operator*", "source/State.cpp, source/State.hpp for each state type")],
     "abstract interpretation of each operator over symbolic containers; leaf-by-leaf comparison of normal forms",
     "all sizes and values; real arithmetic")

prop("C08", "Every substep drives every object with its own state",
     "Whatever the number and types of bodies, rods, points and lines and whatever the integrator, each update of the model hands every free (or partly free) object its own entry of the integrator's state and every coupled object its prescribed kinematics, at the same time, before anything that depends on it; each derivative evaluation updates the water kinematics, then computes every line, and then takes the derivative of every free object from that object and stores it in that object's entry. Registering an object gives it one entry in every state and derivative, and removing it removes that same entry; a system registers all of its bodies, rods, points and lines with the integrator and with the waves.",
     ["inputs", "configurations", "histories"], "every number, order and mix of objects and types; every integrator instantiation",
     "The tests run systems with one or two objects of one kind, where an index mix-up, a skipped type or a wrong order does not show.",
     ["source/Time.hpp", "source/Time.cpp", "source/MoorDyn2.cpp"],
     [("TimeSchemeBase::Update, CalcStateDeriv, Init", "source/Time.cpp"), ("AddLine, RemoveLine and the like", "source/Time.hpp"), ("registration", "MoorDyn::Init and the constructor, source/MoorDyn2.cpp")],
     "abstract execution with symbolic object lists; calls on the i-th object with path condition, index and arguments compared with the dispatch table, and their order",
     "all list lengths at once (symbolic), per object type; the masks of the local schemes are not constrained")

prop("C09", "Motion passes down the attachment chain rigidly and completely",
     "Whenever a body, rod or point is given a new position and velocity (from the integrator's state, from the body it is attached to, or from the coupled motion), every point, rod and line end attached to it is given exactly the rigid-body image of that motion: position r + R*rel and velocity v + w x (R*rel) with the new orientation R for every attached point and rod of a body; end A, end B = A + L*q, their velocities and the rod direction for the lines on each end of a rod; the point's own position and velocity for the lines on a point; each at the line end recorded when it was attached. Degrees of freedom not prescribed by the caller keep their value. Coupled objects move as r + rd*t between coupling calls from the stored coupling values, with orientation given by the roll-pitch-yaw triple as qx*qy*qz. Attaching an object stores it and its relative placement at the same index.",
     ["inputs", "histories", "configurations"],
     "every topology, object type, number of attachments, position, orientation and velocity",
     "Tests have few topologies, mostly without rotation velocities.",
     ["source/Body.cpp", "source/Body.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Point.cpp", "source/Point.hpp", "source/Line.cpp", "source/Line.hpp", "source/Misc.hpp", "source/Misc.cpp"],
     [("Body::setState, updateFairlead, setDependentStates, initiateStep, addPoint, addRod", "source/Body.cpp"), ("Rod::setState, setKinematics, updateFairlead, setDependentStates, initiateStep, addLine", "source/Rod.cpp"), ("Point::setState, setKinematics, updateFairlead, initiateStep, addLine", "source/Point.cpp"), ("Line::setState, setEndKinematics, setEndOrientation", "source/Line.cpp"), ("XYZQuat::fromVec6, transformKinematics", "source/Misc.hpp")],
     "abstract interpretation of each kinematic method once per object type with symbolic lists of attachments; final fields and the arguments of the calls on the i-th attachment compared as polynomial normal forms with the rigid body formulas",
     "exhaustive over methods, types and attachment lists; the real arithmetic is exact (rounding is not modelled); the orientation of rods of zero length is not decided")

prop("C10", "Loads and masses are summed completely and carried to the body that bears them",
     "The load on every node, point, rod and body is exactly the sum of its parts, each once and with its sign: for a line node the tension and internal damping of the adjacent segments (E A strain along the segment, zero when slack; c A strain rate), submerged weight, drag, fluid inertia, seabed, bending and pressure loads; for a point its own force, weight, buoyancy, drag and the end load and mass of every attached line; for a rod node its own loads plus, at the ends, those of the lines attached there, lumped about end A as force, moment r x F and 6x6 mass with the rod's own rotational inertia and the end moments; for a body its weight and buoyancy at its CG, centripetal load, drag, rotated own mass and the load and mass of every attached point and rod. Loads handed to a body are taken about the body's reference point (F + centripetal, r x F, mass shifted). The mass of a line node is half of each adjacent segment plus its added mass. Accelerations solve M a = F (for a pinned object only its rotation, with the coupling to the prescribed acceleration), and the rates returned are the velocity, 0.5 (0,w) q and that acceleration.",
     ["inputs", "states", "configurations"],
     "every state, number of nodes, number of attachments, mass and coefficient",
     "Tests look at the total of few systems, where a small or symmetric contribution cannot be told apart.",
     ["source/Line.cpp", "source/Line.hpp", "source/Point.cpp", "source/Point.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Body.cpp", "source/Misc.cpp", "source/Misc.hpp"],
     [("Line::getStateDeriv, getEndStuff", "source/Line.cpp"), ("Point::doRHS, getStateDeriv, getNetForceAndMass", "source/Point.cpp"), ("Rod::doRHS, getNetForceAndMass, getStateDeriv", "source/Rod.cpp"), ("Body::doRHS, getStateDeriv", "source/Body.cpp"), ("translateMass, translateMass6, rotateMass, rotateMass6", "source/Misc.cpp")],
     "abstract interpretation with a name for every intermediate load; totals, reference changes and accelerations compared as polynomial normal forms with the sums and formulas above, for symbolic numbers of nodes and attachments",
     "lumping of a rod is decided for 0, 1 and 2 segments, everything else for any number; the real arithmetic is exact (rounding is not modelled); solveMat6 is taken as the solution of its system")

prop("C11", "Every load of a line or rod node follows its documented law and direction",
     "For every node of a line: the tangent is the unit vector between its neighbours (at a pinned end along the end segment, at a clamped end as set); transverse and axial drag are 1/2 rho Cd times the submerged projected or wetted area times |v| v of the component of the relative flow velocity U - rd across or along the tangent; fluid inertia is rho (1 + Ca) times the submerged volume times the same component of the fluid acceleration; below the seabed, and only there, it gets the vertical load (penetration kb - vz cb) times its contact area and a friction opposing its horizontal velocity, mu cv v, limited to mu |Fz| beyond the static to dynamic ratio; with bending stiffness the curvature is 4/l sin(phi/2) about the normal of the two directions, and it loads the node and its neighbours with opposite forces K EI / l normal to the segments, whose sum vanishes; with internal pressure the load is the pressure difference times A K l. Segments wholly under water are submerged with fraction 1, those wholly out of it with 0. For every rod node: weight, radial buoyancy, drag, fluid inertia and seabed reaction follow the same laws with its own submerged fraction, which is 1 beneath, 0 above and proportional across the waterline, whichever end is up; the end caps, when wet, add pressure, axial drag, added mass and long wave inertia on both ends, with the sign of the end they belong to, and the moments of the caps and of the water plane.",
     ["inputs", "states", "configurations"],
     "every state, wave, number of nodes and coefficient",
     "A coefficient, a sign or a node index that is wrong only in one branch (last node, one axis, rod upside down) leaves the few sampled systems unchanged.",
     ["source/Line.cpp", "source/Line.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Misc.cpp", "source/Misc.hpp"],
     [("Line::getStateDeriv, calcSubSeg", "source/Line.cpp"), ("Rod::doRHS", "source/Rod.cpp"), ("GetCurvature, unitvector", "source/Misc.cpp")],
     "abstract interpretation of both methods with a name for every intermediate result; each load of an end and of an interior node compared as a polynomial normal form with its law, also under the assumption of a regime (dry, wet, beneath, across)",
     "any number of nodes (the submerged fraction of rod nodes for 0 to 2 segments); the area and centroid of a cross section that the waterline cuts, and the fraction of a line segment that it cuts, are not decided; degenerate directions of length zero are set aside; the real arithmetic is exact (rounding is not modelled)")

prop("C12", "Every failure is reported with the error code of its kind",
     "When an operation behind a C function fails, the caller gets the documented code of that kind of failure (input file, output file, input, diverged values, memory, invalid value, not implemented, other), never success and never the code of another kind; C functions that return a handle return a null handle instead. The methods of the system pass on the error codes they receive from the operations they call.",
     ["inputs", "fault_sequences"], "every C entry point and every system method with handlers x every failure that can reach it",
     "Failures are raised deep inside and translated in some sixty places; tests provoke very few of them and mostly look only at success.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Misc.hpp", "source/MoorDyn.cpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Waves.cpp", "source/Seafloor.cpp"],
     [("MOORDYN_CATCHER", "source/Misc.hpp: exception type to error code"), ("error returns", "MoorDyn::Init, Step, ReadInFile, AllOutput, icLegacy, icStationary")],
     "abstract interpretation with exceptional control flow: one symbolic throw per call and type, returned value compared with the code of the type",
     "every failure type that the escape analysis lets reach a call; one failure per call; codes that a method returns are followed for calls made in the method itself")

prop("C13", "Accessors return, and setters set, the quantity they are named after",
     "For every handle and every valid index, each accessor of the C interface fills its output arguments completely with the current value of the quantity it is named after (positions, velocities, forces, tensions, masses, curvatures, counts, identifiers, types, lengths, stiffnesses, time step), of that object and that node, component by component; object numbers are one-based; indices and numbers out of range are refused with an error code or null handle and valid ones are accepted. A setter makes the quantity take the value it is given.",
     ["inputs", "configurations"], "every accessor, every object, every index and component",
     "There are about eighty accessors, most of which no test reads with distinguishing values (for instance all 36 entries of a mass matrix).",
     ["source/Line.cpp", "source/Line.hpp", "source/Rod.cpp", "source/Rod.hpp", "source/Body.cpp", "source/Body.hpp", "source/Point.cpp", "source/Point.hpp", "source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Misc.hpp"],
     [("MoorDyn_Get*", "extern C accessors of each object"), ("getNode*, getState, getNetForceAndMass", "methods behind them"), ("vec2array, mat62array and the like", "source/Misc.hpp")],
     "abstract interpretation of each accessor to the normal form of every output component, compared with the named fields",
     "exhaustive over the table of accessors; fields are identified by name, an accessor whose field was renamed is reported as undecided, not as held")

prop("C14", "The objects simulated are the ones the input file describes",
     "Reading an input file creates one object per row of the bodies, points, rods and lines sections, and every quantity of the row and of the line or rod type it names lands in that object and nowhere else: identifier, position, angles in degrees, mass, volume, centre of gravity, inertia, drag and added mass (with 1, 2, 3 or 6 values as documented), applied force, diameter, mass per length and stiffness converted by the cross section, damping, bending stiffness, drag and added mass coefficients, length, number of segments and output flags; a curve file given instead of a coefficient contributes each of its points, argument and value. The attachment word (Fixed, Pinned, Coupled, CpldPin, Free, their synonyms, BodyN, BodyNPinned) decides the type of the object, the body that carries it and where, and whether it is integrated or follows the caller; AttachA and AttachB decide the point or the rod end that holds each end of a line. Valid rows are accepted.",
     ["inputs", "configurations"], "every value in every column, every type, attachment word and attached object",
     "The tests read some dozens of files in which most columns are zero, equal to another or unused.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Misc.cpp", "source/Misc.hpp"],
     [("MoorDyn::ReadInFile, readLineProps, readRodProps, readBody, readRod, read_curve", "source/MoorDyn2.cpp"), ("Line::setup, Rod::setup, Point::setup, Body::setup", "source"), ("addLine, addPoint, addRod", "source")],
     "abstract interpretation of the reader over files whose tokens are symbolic (only section names, type names and attachment words are given), the normal form of every field of the objects compared with the tokens of the row",
     "one or two rows per section and every attachment word; the tokens are any; splitting a line into tokens is taken as given")

prop("C15", "Every option takes effect, and on nothing else; others keep their defaults",
     "Each option of the OPTIONS section, under each of its accepted names, sets exactly the setting it is named after to the value of its row (time step, CFL, gravity, water density and depth, bottom stiffness and damping, initial condition settings, wave and current modes, wave step, grid unification, units, log, friction, output step, dynamic initial conditions, seafloor file) wherever it stands among the rows and whatever other rows, unknown or incomplete ones included, surround it; no other setting changes, and settings that no row names have their documented defaults. The name given as tScheme, in any case, selects that integrator with its parameters, including the number of iterations written in the name; without it RK2 is used.",
     ["inputs", "configurations"], "every option name and alias, every value, every position in the section, every scheme name",
     "Tests give the usual options under their usual names; a value that is dropped, truncated or lands in the neighbouring setting changes results only slightly.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Time.cpp", "source/Time.hpp", "source/Misc.hpp", "source/Waves/WaveOptions.hpp"],
     [("MoorDyn::MoorDyn, ReadInFile, readOptionsLine", "source/MoorDyn2.cpp"), ("create_time_scheme", "source/Time.cpp"), ("WaterKinOptions", "source/Waves/WaveOptions.hpp")],
     "abstract interpretation of the constructor over files whose option values are symbolic; the normal form of every setting compared with the token of its row, and with the same run without options",
     "every documented option and alias alone, with both values of the switches, and in groups of three with unknown and incomplete rows between; every scheme name in three spellings; the value is any")

prop("C16", "Systems are independent of each other and reproducible",
     "What a MoorDyn system computes depends only on its own input files and the calls made on its own handle. No object of the library that is modified after start-up, and whose value is used, is shared between systems (a global or function-static variable), whether they are driven in turn or from different threads; the v1 entry points' single instance is not reached from the handle-based functions; and no computed quantity depends on the wall clock, a random generator or another process-wide setting. Text on the standard streams is not meant.",
     ["inputs", "schedules", "configurations"],
     "every number of systems, every interleaving of calls on them, every model",
     "Tests run one system at a time in a fresh process.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/MoorDyn.cpp", "source/Line.cpp", "source/Line.hpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Waves.cpp", "source/Time.cpp", "source/Time.hpp", "source/State.cpp", "source/Misc.cpp", "source/IO.cpp", "source/Log.cpp"],
     [("variables with static storage", "all sources"), ("md_singleton", "source/MoorDyn.cpp"), ("calls of clocks, generators and locale functions", "all sources")],
     "effect analysis over the AST: every reference to a variable with static storage classified as read, write or update through its uses and calls, crossed with call-graph reachability from the API entry points; a deny-list of process-wide library calls",
     "exhaustive over the static variables and the call graph; constant tables, write-only counters and log sinks are not alarms")

prop("C17", "Every output column holds the quantity its heading, unit and request name",
     "The main output file has, after the time, one column per word of the OUTPUT section, in the order of the words: its heading is the word, its unit that of the quantity, and its value in every row is the quantity that the word names (position, velocity, acceleration, force, moment, tension, rotation in degrees, submergence; FairTen and AnchTen the ends of a line), of the object with that number and of the node N#, NA or NB (the object itself without a node), whatever the case of its letters. A row is written for every step, or with an output interval dtOut for each step that reaches or passes a multiple of it, with the new time. In the separate files of lines, rods and bodies, for any output flags and number of segments, names, units and values have one entry per flagged quantity, and the value under a name is that quantity of that node or segment and axis, in the unit given.",
     ["inputs", "states", "configurations"],
     "every channel word, flag set, object number, node and state",
     "There are several hundred channel words and a thousand flag combinations; tests do not read the output files back.",
     ["source/MoorDyn2.cpp", "source/MoorDyn2.hpp", "source/Line.cpp", "source/Rod.cpp", "source/Body.cpp", "source/Point.cpp", "source/Misc.hpp"],
     [("OUTPUT section of ReadInFile, UnitList, AllOutput, Init", "source/MoorDyn2.cpp"), ("GetOutput", "source/MoorDyn2.hpp"), ("GetLineOutput, initialize, Output", "source/Line.cpp"), ("GetRodOutput, openoutput, Output", "source/Rod.cpp"), ("GetBodyOutput, initialize, Output", "source/Body.cpp"), ("GetPointOutput", "source/Point.cpp")],
     "abstract interpretation of the reader over every documented channel word and then of the channel's evaluation on a symbolic system; stream writes recorded as tables of cells and names, units and values compared column by column",
     "words of objects 1 and 3 of 3 with nodes at both ends and inside; files for 1 to 3 segments, each flag alone, all together and some mixes; the flow velocity (U) is only counted; output steps for a grid of exact times; how a word is cut into letters and digits is modelled")

prop("C18", "Each node feels the sea at its own place and the present time",
     "On a 3D seabed the depth at any place is the bilinear interpolation of the depths at the surrounding grid points, and that of the nearest edge outside the grid. With gridded waves or currents, elevation, velocity, acceleration and dynamic pressure at a place and time are the multilinear interpolation, over the surrounding grid points and the two samples around the time (from the first to the last sample, the series being repeated), of the values stored for that very quantity, held constant beyond the grid; for waves the height is first stretched between the seabed there and the instantaneous surface onto the mean depth, and a place out of the water gets the values at the surface. At every update, and at every place asked about, velocity and acceleration are the sum of the waves' and the current's at that place and the present time, elevation and pressure those of the waves; each node of each line, rod, point and body gets those of its own position, and is handed what was stored for it. Externally given kinematics go to the node whose position was handed out at the same index, and are added to the current when there is one. A grid axis given by its ends and number of points is evenly spaced and includes both ends; the depths of a seabed file and the velocities of a current profile (steady, dynamic or 4D; absent components are zero) are stored at their own grid points and times, whatever the order of the rows of a seabed or 4D file, and the average depth is the mean of the seabed's.",
     ["inputs", "states", "configurations"],
     "every grid, place, time and combination of waves and currents",
     "A grid has many regions (before, at, between and beyond the ticks, per axis and in time) and the combinations with currents and external waves are many; tests sample a few places.",
     ["source/Util/Interp.hpp", "source/Seafloor.cpp", "source/Waves.cpp", "source/Waves.hpp", "source/Waves/WaveGrid.cpp"],
     [("interp_factor, interp2, interp3, interp4, interp4Vec", "source/Util/Interp.hpp"), ("getDepthAt", "source/Seafloor.cpp"), ("WaveGrid::getWaveKin, CurrentGrid::getCurrentKin, Waves::getWaveKin, updateWaves, kinematicsForAllNodes, setWaveKinematics, gridAxisCoords", "source/Waves.cpp"), ("constructSteadyCurrentGrid, constructDynamicCurrentGrid, construct4DCurrentGrid", "source/Waves/WaveGrid.cpp")],
     "abstract interpretation over symbolic grids, one run per position of each coordinate relative to the ticks (below, on, between, above; gaps are symbols known to be positive), results compared in normal form with the multilinear formula; node updates on a system of two objects of each kind with opaque wave and current models",
     "axes of 1 to 3 ticks, series of 1 to 3 samples and two periods; two objects of each kind with up to 3 nodes; the interval between the last sample and the repetition of the first, the frequency-domain synthesis of the waves, resampling of unevenly spaced times and the joining of grids are not covered")

# ------------------------------------------------------------------ not claimed
prop("N01", "The computed dynamics agree with the physics within tolerance",
     "For well-posed inputs the simulated tensions and motions agree with the governing equations within the accuracy expected of the discretisation.",
     ["inputs"], "every model and excitation", "Tests compare a few cases with references.",
     ["source/Line.cpp", "source/Rod.cpp", "source/Body.cpp"], [("doRHS", "source/Line.cpp")],
     na="a bound on the error of the discretised dynamics quantifies over floating-point trajectories; no static argument over the source bounds it")
prop("N02", "The initial condition solvers converge",
     "Dynamic relaxation and the stationary solver reach an equilibrium for every well-posed system, or say that they did not.",
     ["inputs"], "every well-posed system", "Tests run a few systems.",
     ["source/MoorDyn2.cpp"], [("icLegacy, icStationary", "source/MoorDyn2.cpp")],
     na="convergence of an iteration over run-time forces is a numerical property with no static certificate here")
prop("N03", "Text input numbers and output numbers survive the round trip",
     "Numbers read from input files and written to output files keep the printed precision.",
     ["inputs"], "every number", "Tests read a few files.",
     ["source/Misc.cpp"], [("formatted output", "source/MoorDyn2.cpp")],
     na="digits produced by the C++ library at run time; nothing in the source to decide beyond the format flags")
prop("N04", "The explicit integrators stay stable at the step chosen from the CFL condition",
     "With the step derived from the natural frequencies the explicit integrators do not blow up.",
     ["inputs", "configurations"], "every system", "Tests use a few systems.",
     ["source/Util/CFL.hpp", "source/Util/CFL.cpp"], [("cfl2dt", "source/Util/CFL.hpp")],
     na="a spectral bound on the assembled nonlinear system depends on run-time stiffness and mass; not decidable from the source")
