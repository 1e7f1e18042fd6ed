#!/opt/veriftools/pyvenv/bin/python3
"""Source of properties.jsonl and MANIFEST.json: docs/props.py writes both."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = "The existing tests run one 21x21 shear set-up for one step and only count Newton iterations."
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why + " " + T0,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ["MDOODZ_VERIF observation points in MDLIB/Main_DOODZ.c"], hook_needed="MDOODZ_VERIF"), tech=tech, note=note))

p("P01", "A step reported as converged satisfies the force balance everywhere",
  "After every time step whose mechanical solve is reported as converged, the recorded stresses, pressure and density satisfy the balance of forces in both directions at every unconstrained velocity point of the domain (below the free surface if there is one). The imbalance is at the level of the requested tolerance and not of the stresses themselves.",
  ["inputs", "configurations", "histories"], "all geometries, rheologies, boundary conditions, unit choices and time steps",
  "It has to hold for every geometry, rheology and boundary condition, and no test looks at the forces.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/Solvers.c", "MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c"],
  [("assembly and residual of the momentum equations", "MDLIB/StokesAssemblyDecoupled.c"), ("convergence decision", "MDLIB/Main_DOODZ.c"), ("stress update", "MDLIB/RheologyDensity.c")],
  "runtime monitor at the end of every mechanical solve; offline oracle recomputes div(sigma)+rho g on the recorded state", "randomised set-ups in 8 physics families x 4 unit systems; each converged solve judged node by node")
p("P02", "A step reported as converged conserves mass in every cell",
  "After every converged mechanical solve the velocity field of an incompressible model has zero divergence in every cell of the material, and in a compressible model the divergence equals the rate of volume change implied by compressibility, pressure change and thermal expansion.",
  ["inputs", "configurations", "histories"], "all geometries, boundary conditions, time steps, with and without compressibility and free surface",
  "No test looks at the velocity field.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/Solvers.c", "MDLIB/StokesRoutines.c"],
  [("continuity equation and penalty iterations", "MDLIB/Solvers.c"), ("continuity residual", "MDLIB/StokesAssemblyDecoupled.c")],
  "runtime monitor at the end of every mechanical solve; offline oracle recomputes the divergence of every cell", "same workload as P01")
p("P03", "Imposed boundary velocities are honoured on every wall",
  "For each supported kind of mechanical boundary condition the computed velocity field has on each wall exactly the normal velocity that was prescribed, the prescribed or traction-free tangential motion, and wraps around when the sides are periodic.",
  ["inputs", "configurations", "histories"], "pure shear, simple shear, user-defined affine walls, moving boxes; all grid sizes, unit systems and steps",
  "Only two boundary conditions are used by tests and their velocities are not inspected.",
  ["MDLIB/Setup.c", "MDLIB/GridRoutines.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/Solvers.c"],
  [("default boundary callbacks", "MDLIB/Setup.c"), ("ghost nodes and boundary equations", "MDLIB/StokesAssemblyDecoupled.c")],
  "runtime monitor after every solve; oracle computes the expected wall velocities from the set-up file alone", "expected values come from the set-up, not from the code's boundary tags")
p("P04", "Problems with a known exact solution are solved exactly",
  "A uniform material with affine wall motion deforms affinely with the stress its flow law gives; horizontal layers at rest under gravity stay at rest with hydrostatic pressure; viscous layers in simple shear carry one uniform shear stress. This holds for every grid, unit system, wall-motion type and supported uniform rheology.",
  ["inputs", "configurations"], "all grids, units, layerings, uniform viscous, power-law, visco-elastic and visco-elasto-plastic materials",
  "Tests never compare with a closed-form solution.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/RheologyDensity.c", "MDLIB/Solvers.c", "MDLIB/ParticleRoutines.c"],
  [("discretisation", "MDLIB/StokesAssemblyDecoupled.c"), ("rheology", "MDLIB/RheologyDensity.c")],
  "runtime monitor after every solve; closed-form oracle", "velocity, stress, pressure compared node by node")
p("P05", "The answer does not depend on the solution strategy",
  "Whenever two runs of the same problem that differ only in solver settings (fixed-point or Newton iterations, line search, penalty factor, preconditioner, matrix scaling, inner iteration limits) both report convergence, they give the same velocities, pressure and stresses within the tolerance. A linear problem is solved in one iteration.",
  ["configurations", "inputs"], "all combinations of solver settings and problems",
  "Tests compare iteration counts of Newton runs, never answers across strategies.",
  ["MDLIB/Solvers.c", "MDLIB/StokesRoutines.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c"],
  [("Newton and Picard assembly", "MDLIB/StokesAssemblyDecoupled.c"), ("line search", "MDLIB/StokesRoutines.c"), ("linear solvers", "MDLIB/Solvers.c")],
  "differential runtime monitor over pairs of runs", "recorded solutions of run pairs compared")
p("P06", "Results do not depend on the characteristic units",
  "A problem described in SI gives the same SI velocities, pressures, stresses, viscosities, temperatures, compositions, densities and times whatever characteristic viscosity, length, velocity and temperature are chosen for the internal scaling.",
  ["configurations", "inputs", "histories"], "all scalings, all physics switched on together, several time steps",
  "A single unit system is used in each test.",
  ["MDLIB/InputOutput.c", "MDLIB/MiscFunctions.c", "MDLIB/RheologyDensity.c", "MDLIB/FlowLaws.c", "MDLIB/ThermalRoutines.c", "MDLIB/RheologyParticles.c"],
  [("scaling of every input parameter", "MDLIB/InputOutput.c"), ("scale factors", "MDLIB/MiscFunctions.c")],
  "differential runtime monitor over pairs of runs in different unit systems", "six physics families, up to three steps")
p("P07", "Results follow reflections, translations and axis exchange of the problem",
  "Reflecting a set-up left-right, moving its origin, or (without gravity) exchanging its two axes reflects, moves or exchanges the computed velocity, pressure, stress and viscosity fields and nothing else, also after several time steps.",
  ["inputs", "configurations", "histories"], "all geometries, rheologies and boundary conditions",
  "No test relates two runs.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ParticleRoutines.c", "MDLIB/AdvectionRoutines.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/RheologyDensity.c"],
  [("staggered discretisation", "MDLIB/StokesAssemblyDecoupled.c"), ("marker-grid transfer", "MDLIB/ParticleRoutines.c")],
  "differential runtime monitor over pairs of transformed runs", "viscous, power-law, visco-elastic, plastic and anisotropic materials")
p("P08", "Effective viscosity and stress follow the prescribed flow laws",
  "At every point below yield of a converged solve the stress is the one at which the strain rates of all active mechanisms (constant viscosity, dislocation, diffusion, Peierls, grain-boundary sliding, elasticity) add up to the total strain rate, using the flow-law constants of the phases present, the local temperature, pressure, grain size and composition, the chosen averaging of phases and the viscosity limits. The recorded share of each mechanism is the strain rate that mechanism gives at that stress.",
  ["inputs", "configurations"], "all mechanisms and their combinations, library flow laws, phase mixtures, temperatures, pressures, unit systems",
  "Only one power-law exponent at one state is exercised.",
  ["MDLIB/RheologyDensity.c", "MDLIB/FlowLaws.c", "MDLIB/InputOutput.c"],
  [("local viscosity iterations", "MDLIB/RheologyDensity.c"), ("flow law library", "MDLIB/FlowLaws.c")],
  "runtime monitor of every rheology evaluation of a solve; independent root-finding oracle", "flow-law constants are transcribed into data/flowlaws.json, states are randomised")
p("P09", "Stress never exceeds the yield strength and plastic flow is consistent",
  "At every point of a converged solve the stress does not exceed the yield strength given by cohesion, friction angle, pressure, the viscoplastic overstress and the stress limiter; plastic strain rate is non-negative, occurs only at yield, and with dilation it is accompanied by the matching volume change and pressure correction.",
  ["inputs", "configurations", "histories"], "all cohesions, angles, viscoplastic viscosities, stress limits, compressible or not",
  "Tests contain no plastic material.",
  ["MDLIB/RheologyDensity.c"],
  [("return mapping", "MDLIB/RheologyDensity.c")],
  "runtime monitor of every rheology evaluation of a solve; yield/consistency oracle", "trial stress recomputed by an independent oracle, yield function evaluated on the recorded state")
p("P10", "Elastic stress and pressure are carried and rotated with the material",
  "After each solve every marker's deviatoric stress and pressure change by exactly the change of the grid solution at its position (relaxed towards the grid over the local relaxation time when sub-grid diffusion is on, replaced by it when the model says so), and elastic stress is rotated with the local rotation of the material; in a large homogeneous elastic shear the stress follows the objective rate's closed-form solution.",
  ["inputs", "configurations", "histories"], "all elastic set-ups, stencils, rotation schemes, sub-grid diffusion modes, time step histories",
  "No test is elastic, and stress memory only shows over many steps.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/RheologyParticles.c", "MDLIB/Main_DOODZ.c"],
  [("marker stress update and rotation", "MDLIB/RheologyParticles.c"), ("grid to marker interpolation", "MDLIB/ParticleRoutines.c")],
  "runtime monitor of all marker stresses before and after every step; independent interpolation/rotation oracle", "elastic models over several steps, closed-form Jaumann shear")
p("P13", "Accumulated strain and strain softening follow the deformation of each marker",
  "Every marker's accumulated total, plastic, power-law, linear, exponential and grain-boundary strain grows each step by the matching strain rate at its position times the time step and never decreases. Cohesion, friction angle and dilation angle used in the next solve are the phase values softened by the accumulated plastic strain between the prescribed start and end strain, and equal to the end values beyond it.",
  ["inputs", "configurations", "histories"], "all softening intervals, smooth or piecewise linear, noise, phase mixtures and strain histories",
  "Softening needs many steps with plastic material.",
  ["MDLIB/RheologyParticles.c", "MDLIB/RheologyDensity.c", "MDLIB/ParticleRoutines.c"],
  [("strain accumulation", "MDLIB/RheologyParticles.c"), ("softening of cohesion and friction", "MDLIB/RheologyDensity.c")],
  "runtime monitor of all marker strains and nodal strengths at every step; independent oracle", "yielding multi-step runs with imposed initial strain fields")
p("P19", "The grid receives the distance-weighted average of the markers around each node",
  "At the start of every step each material quantity on a grid node or cell equals the distance-weighted average (arithmetic, harmonic or geometric as configured) of that quantity over the markers in the cells around the node, phase proportions are the same average of phase membership and add up to one, and deactivated markers do not count.",
  ["inputs", "configurations", "histories"], "all marker clouds, stencils, grid sizes, periodic sides, free surfaces",
  "No test compares grid and markers.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
  [("marker to grid interpolation P2Mastah", "MDLIB/ParticleRoutines.c")],
  "runtime monitor of all markers and grid fields before every solve; independent interpolation oracle", "six physics families, multi-step")
p("P21", "Finite strain, fabric and pressure-temperature history follow each marker",
  "The deformation gradient of each marker is multiplied each step by the velocity gradient at its position, the anisotropy director stays of unit length and turns like the normal of a material line, and the recorded peak temperature and pressure of a marker are the largest values it has had since it was created.",
  ["inputs", "configurations", "histories"], "all flows, initial fabrics, time step histories",
  "It is about long histories of individual markers.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/RheologyParticles.c"],
  [("deformation gradient update", "MDLIB/ParticleRoutines.c"), ("director update", "MDLIB/AnisotropyRoutines.c")],
  "runtime monitor of all markers at every step; velocity-gradient oracle and closed forms for uniform flow", "multi-step runs, imposed initial deformation gradients")
p("P14", "Heat is conserved and every marker carries its temperature",
  "In each step every cell gains exactly the heat conducted through its faces and walls plus radiogenic, dissipated and adiabatic heat as configured, so a closed box keeps its energy and conduction alone makes no new extremes; markers receive that change with differences below the grid relaxing at the diffusion rate, and initial cooling and thermal anomalies act on the starting field as requested.",
  ["inputs", "configurations", "histories"], "all wall types, sources, conductivity contrasts, free surfaces, cell shapes, units",
  "No test switches the heat equation on.",
  ["MDLIB/ThermalRoutines.c", "MDLIB/RheologyParticles.c"],
  [("energy balance", "MDLIB/ThermalRoutines.c"), ("marker temperature update", "MDLIB/RheologyParticles.c")],
  "runtime monitor of temperature, conductivity and heat sources around every heat solve; independent per-cell energy balance", "cell balance, closed-box balance, extremes, marker updates, initial cooling against an independent sparse solve")
p("P12", "Density follows its equation of state and sets the body force",
  "At the start of every step and in the nonlinear solve the density of every cell and vertex is the phase average of the configured equation of state (constant, linear, exponential or table look-up in pressure and temperature, with composition, porosity and melt), markers carry the density of their position, and the body force uses it. The starting pressure is the weight of the column above plus the configured offset, and the volume source equals the change of density divided by density when density changes are coupled to the flow.",
  ["inputs", "configurations", "histories"], "all density models, tables, phase mixtures, thermal and compositional states, free surfaces, units",
  "The tests have a single constant density and no gravity.",
  ["MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c", "MDLIB/ThermalRoutines.c", "MDLIB/ParticleRoutines.c"],
  [("equation of state and table look-up", "MDLIB/RheologyDensity.c"), ("lithostatic pressure", "MDLIB/RheologyDensity.c"), ("marker density", "MDLIB/ParticleRoutines.c")],
  "runtime monitor of density, pressure, temperature, composition at start, solve and end of every step; independent equation-of-state oracle", "generated analytic and tabulated materials, mixed cells, free surfaces")
p("P16", "Composition reacts, diffuses and is conserved",
  "In each step the composition of every cell changes by exactly what diffuses through its faces and walls plus the reaction towards the equilibrium of its phase at the prescribed kinetic rate, so diffusion alone in a closed box conserves composition and makes no new extremes. The change reaches the markers at their positions and their composition stays between zero and one.",
  ["inputs", "configurations", "histories"], "all wall types, diffusivity contrasts, reaction kinetics, free surfaces, cell shapes, units",
  "No test has a second chemical component.",
  ["MDLIB/ChemicalRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/Main_DOODZ.c"],
  [("chemical diffusion", "MDLIB/ChemicalRoutines.c"), ("reaction kinetics", "MDLIB/RheologyDensity.c"), ("marker update", "MDLIB/RheologyParticles.c")],
  "runtime monitor of composition, diffusivities and production around every chemical step; independent per-cell balance", "cell balance, closed-box conservation, extremes, marker updates")
p("P17", "Markers, surface and walls move with the flow",
  "In every advection substep each active marker and surface point is carried to where the computed velocity field takes it (fourth-order Runge-Kutta, bilinear or conservative interpolation), wraps around in a periodic box, is dropped exactly when it leaves the box, and keeps its phase. Walls of a deforming box follow the velocity prescribed on them and the grid stays regular.",
  ["inputs", "configurations", "histories"], "all velocity fields, boundary types, interpolation schemes, free surfaces, deforming boxes and time steps",
  "The tests do one step and look at no marker.",
  ["MDLIB/AdvectionRoutines.c", "MDLIB/FreeSurface.c", "MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
  [("Runge-Kutta advection", "MDLIB/AdvectionRoutines.c"), ("deforming box", "MDLIB/AdvectionRoutines.c")],
  "runtime monitor of every marker and wall around each substep; independent Runge-Kutta oracle on the recorded velocities", "millions of markers in six flow families")
p("P22", "The time step respects its limits and model time adds up",
  "With an adaptive time step every step is the largest that satisfies the Courant limit, the growth limit, the surface-incision and reaction limits and the configured minimum and maximum; with a constant step it is the configured one. Advection is split into equal substeps that add up to the step and keep markers within the Courant limit, model time is the sum of the steps taken, and restarted steps divide the step by the configured factor and nothing else.",
  ["inputs", "configurations", "histories"], "all velocities, physics, limits and step histories",
  "The tests take one constant step.",
  ["MDLIB/AdvectionRoutines.c", "MDLIB/Main_DOODZ.c"],
  [("EvaluateCourantCriterion", "MDLIB/AdvectionRoutines.c"), ("substep loop and safe mode", "MDLIB/Main_DOODZ.c")],
  "runtime monitor of dt and time at every step and substep; limits recomputed from the recorded velocities", "adaptive, constant, elastic, reactive, buoyant, safe-mode runs")
p("P25", "Output files hold the computed fields in physical units",
  "Every output file written at a step holds the coordinates, velocities, stresses, strain rates, viscosities, temperature, pressure, composition, markers and time series the run had at that moment, converted to physical units. Files appear exactly at the requested steps and quantities hidden in the air are blanked, nothing else.",
  ["inputs", "configurations", "histories"], "all field groups, output intervals, scales, physics, free surfaces",
  "The tests read the number of iterations from one file.",
  ["MDLIB/HDF5Output.c", "MDLIB/Main_DOODZ.c", "MDLIB/InputOutput.c"],
  [("HDF5 writer", "MDLIB/HDF5Output.c"), ("time series", "MDLIB/HDF5Output.c")],
  "runtime monitor of the state just before each write, compared dataset by dataset with the file read back through the HDF5 library", "every grid, marker, topography and series dataset")
p("P26", "A run continued from a checkpoint equals the uninterrupted run",
  "A run stopped after any checkpoint and continued from it goes through the same states as the run that was never interrupted, for every combination of physics, whatever the interruption history. Only the round-off of writing in physical units may differ.",
  ["inputs", "configurations", "histories"], "all physics, one or several interruptions, checkpoint deletion modes",
  "No test restarts a run.",
  ["MDLIB/InputOutput.c", "MDLIB/Main_DOODZ.c"],
  [("checkpoint writer and reader", "MDLIB/InputOutput.c"), ("restart path", "MDLIB/Main_DOODZ.c")],
  "runtime monitor of the whole state at every step of interrupted and uninterrupted runs; a perturbed control run excludes ill-conditioned models", "markers, grids, surface, time compared at every later step")
p("P32", "Checkpoints survive crashes and full disks and damaged ones are refused",
  "Whenever the run is killed, loses power or the disk fills up, every checkpoint with its final name is complete, at least the newest one written before is still there, and continuing from it gives the files and states of the uninterrupted run. A run that could not write its files ends with a non-zero status. Damaged, foreign or missing checkpoints are refused without touching any file.",
  ["crash_points", "fault_sequences", "configurations"], "all file operations of a run as crash or fault points, all physics, deletion modes",
  "No test interrupts a run.",
  ["MDLIB/InputOutput.c", "MDLIB/HDF5Output.c", "MDLIB/Main_DOODZ.c"],
  [("checkpoint writer and reader", "MDLIB/InputOutput.c"), ("order of the files of a step", "MDLIB/Main_DOODZ.c")],
  "fault injection at file operations through a preloaded shim; checkpoints compared with those of the uninterrupted run, continued and re-compared", "kill, power loss, full disk, single failures, truncation, foreign files")
p("P28", "No memory error or undefined behaviour whatever is switched on",
  "No set-up the program accepts, with any combination of its options, materials and callbacks, makes it read or write outside its memory, use freed memory, overflow or otherwise execute undefined behaviour. This holds over all steps, continuations from checkpoints and runs started from saved markers.",
  ["inputs", "configurations", "histories"], "all options, materials, callbacks, grid sizes, run modes",
  "The tests switch a handful of options on, one grid, one step, no sanitizer.",
  ["MDLIB/"],
  [("all of the library", "MDLIB/"), ("grid-marker interpolation", "MDLIB/ParticleRoutines.c"), ("output writers", "MDLIB/HDF5Output.c")],
  "AddressSanitizer and UndefinedBehaviorSanitizer over hundreds of random set-ups with restarts", "13 families with random toggles")
p("P29", "Repeated runs in one process are independent and release what they took",
  "Several models run one after the other in one process each go through exactly the states they have alone in a fresh process, whatever ran before. When a run returns it has released all the memory, files and HDF5 objects it acquired.",
  ["histories", "inputs", "configurations"], "pairs of set-ups with any options, repetitions, continuations from own checkpoints",
  "The tests run one model per test and check one number at the end.",
  ["MDLIB/Main_DOODZ.c", "MDLIB/MemoryAllocFree.c", "MDLIB/Solvers.c", "MDLIB/InputOutput.c", "MDLIB/HDF5Output.c"],
  [("set-up and tear-down of a run", "MDLIB/Main_DOODZ.c"), ("allocation", "MDLIB/MemoryAllocFree.c")],
  "runtime monitor of the states of repeated runs against fresh processes, preloaded tracker of heap blocks and descriptors", "four runs per process, bitwise comparison, per-run balance of heap and files")
p("P30", "Results never depend on uninitialised memory",
  "No decision, address, output or computed field depends on memory the program never set. This holds for every set-up the program accepts, through all steps and continuations.",
  ["inputs", "configurations", "histories"], "all options, materials, callbacks, run modes",
  "A test passes or fails the same whatever the stack and heap happened to hold.",
  ["MDLIB/"],
  [("all of the library", "MDLIB/")],
  "valgrind memcheck with definedness checks on every field at the observation points and on all written data", "undefined bytes tracked through whole runs")
p("P23", "The setup file means what it says",
  "Every parameter of the setup file arrives in the model as the number or name written after its exact name and an equal sign, converted by its documented unit and the chosen scales, for the right phase; a parameter that is not given takes its default. Order of lines and phase sections, spacing, comments, number formats, line ends, similarly named or commented-out lines and repetitions (the first counts) change nothing.",
  ["inputs", "configurations"], "setup files: any subset of parameters, values, layout, numbers of phases and scales",
  "The tests read a handful of files in one layout and look only at the final flow.",
  ["MDLIB/InputOutput.c"],
  [("ReadInputFile, ReadInt2, ReadDou2, ReadMatProps, ReadChar, ScaleMe", "MDLIB/InputOutput.c")],
  "generated setup files with known contents read by the real reader; every parameter compared with an independent reading", "hundreds of files and 600 values each per run")
p("P24", "Impossible input is refused with a failing status",
  "A run whose input is missing, incomplete or contradictory (files, sections, tables, flow laws, phases that do not exist, grids without extent, values that exclude each other or are not numbers) ends by itself with a non-zero status. It never reports success, is never killed by a signal, hangs or touches memory outside its data; a damaged setup file is either read or refused.",
  ["inputs", "configurations", "fault_sequences"], "forty kinds of impossible input in random set-ups; random damage to setup files",
  "No test gives the program wrong input.",
  ["MDLIB/InputOutput.c", "MDLIB/Setup.c", "MDLIB/FlowLaws.c"],
  [("validation while reading", "MDLIB/InputOutput.c"), ("ValidatePhase, SetParticles", "MDLIB/Setup.c")],
  "sanitised runs of set-ups broken in one known way next to their unbroken twin; fuzzed setup files under the same sanitizers", "status, signals, sanitizer reports and hangs judged")
p("P31", "Threads do not change the results",
  "A run gives the same results, up to round-off, whatever the number of threads it is given. No two threads access the same memory at the same time with one of them writing unless the accesses are synchronised.",
  ["schedules", "configurations"], "all set-ups, numbers of threads and orders in which the threads run",
  "A race shows only for some interleavings and only in builds with OpenMP; the tests are built without it.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/ParticleReseeding.c", "MDLIB/AdvectionRoutines.c", "MDLIB/MiscFunctions.c", "MDLIB/Solvers.c"],
  [("parallel loops over markers, cells and matrix rows", "MDLIB/"), ("per-thread accumulation of marker properties", "MDLIB/ParticleRoutines.c"), ("domain decomposition of the assembly", "MDLIB/StokesAssemblyDecoupled.c")],
  "ThreadSanitizer on an OpenMP run-time of plain threads with perturbed order; states of runs on 2-8 threads compared with the run on one", "whole zoo of set-ups; about 1e5 parallel regions per quick run")
p("P18", "Reseeding adds what is missing and touches nothing else",
  "Reseeding leaves every existing marker as it is. Every quarter of a cell that holds too few markers (and lies in the rock) gets exactly one new marker at its centre, no other place gets one, and the new marker inherits the history of the nearest marker around and the state interpolated from the grid. Along an open wall every marker that moves off the outermost half cell leaves one copy of itself half a cell outwards, and free places of the list are reused before it grows; in layered models the set-up may turn the director of the copy, and is offered that of the marker it follows.",
  ["inputs", "configurations", "histories"],
  "For every set-up and every substep, the list of markers after reseeding and inflow is the list before plus the new ones.",
  "Markers carry all composition and history; a marker lost, moved, duplicated or given to the wrong rock silently changes the geology, and depends on where thousands of markers happen to be.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/ParticleReseeding.c", "MDLIB/Main_DOODZ.c"],
  [("reseeding of quarter cells", "MDLIB/ParticleRoutines.c:CountPartCell_OLD, AddPartCell2, FindClosestPhase2, AssignMarkerProperties"), ("reseeding mode 1", "MDLIB/ParticleReseeding.c:CountPartCell"), ("inflow", "MDLIB/ParticleRoutines.c:ParticleInflowCheck, AssignMarkerPropertiesInflow")],
  "trace monitor: the complete marker list before and after every reseeding/inflow of 160 random runs, each new marker traced to its source",
  "quick 160 runs (about 530 substeps, 160 000 new markers), ~85 s; thorough 1600")
p("P20", "The free surface, its sediments and the cells under it",
  "After every move the topography at each column is the weighted mean of the surface chain, eroded, filled and diffused during exactly that time step as the surface-process mode says; the chain is thinned nowhere below four points per half column and lies on the topography. Markers above the surface are taken out and nothing else is; fresh sediments lie between the old and the new surface in the right phase and state. Cells and nodes are classified as rock, surface or air by the topography, cut cells weigh their filled part, and the surface velocity is that of the nodes just below.",
  ["inputs", "configurations", "histories"],
  "For every topography, surface-process mode, motion of the walls and number of substeps.",
  "The surface decides which equations are solved at all; topography is the result users look at and errors accumulate over thousands of steps.",
  ["MDLIB/FreeSurface.c", "MDLIB/Main_DOODZ.c", "MDLIB/Setup.c"],
  [("chain to topography", "MDLIB/FreeSurface.c:InterpTopoPart2Grid, MarkerChainPolyFit, RemeshMarkerChain"), ("surface processes", "MDLIB/FreeSurface.c:DiffuseAlongTopography, AddPartSed, CorrectTopoIni, KeepZeroMeanTopo"), ("staircase", "MDLIB/FreeSurface.c:CellFlagging, SurfaceDensityCorrection, CleanUpSurfaceParticles, SurfaceVelocity")],
  "trace monitor: independent recomputation of topography, chain, sediments, erosion, flags and filling from the recorded chain at every substep of 120 random runs",
  "quick 120 runs (about 530 substeps, 4.7 million flags), ~15 s; thorough 1200")
p("P27", "A model starts as its setup describes it",
  "After initialisation every marker sits on the regular lattice of the setup and carries the phase, dual phase, temperature, strain, composition, porosity, grain size, director and velocity that the setup's callbacks and phase tables give for its position, with the documented units and geometry of the setup helpers (ellipses, rectangles, angles in degrees). Every boundary point carries the type and value the boundary callbacks give for its own position and side.",
  ["inputs", "configurations"],
  "For every setup, shape, boundary condition and grid, before the first step and at every solve.",
  "Everything computed later starts from here; a rotated inclusion that turns the wrong way or a boundary value taken at the neighbouring node gives a plausible model of something else.",
  ["MDLIB/Setup.c", "MDLIB/ParticleRoutines.c", "MDLIB/AnisotropyRoutines.c", "MDLIB/Main_DOODZ.c"],
  [("markers", "MDLIB/ParticleRoutines.c:PutPartInBox; MDLIB/Setup.c:SetParticles"), ("boundary conditions", "MDLIB/Setup.c:SetBCs, SetBCs_new"), ("setup helpers", "MDLIB/Setup.c:IsEllipseCoordinates, IsRectangleCoordinates, SetPureShearBCVx")],
  "trace monitor: every marker and boundary point of random set-ups recomputed from the analytic description the callbacks were generated from",
  "quick some 1800 field comparisons on random set-ups, ~6 s; thorough 10x")
p("P35", "The linearised system is that of the equations solved",
  "For a model with linear rheology, force balance and mass balance hold after one linear solve, with or without Newton's method, compressibility, elasticity, anisotropy, out-of-plane strain, a free surface or pinned pressures. For a non-linear one, Newton's method converges quadratically once near the solution: each further iteration reduces the imbalance by a large factor.",
  ["inputs", "configurations"],
  "For every rheology, boundary condition and combination of switches.",
  "A wrong coefficient in the assembled matrix is hidden by the iteration: the code still converges to the right solution for the few sampled set-ups, slowly, and fails to converge for others.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/Solvers.c", "MDLIB/RheologyDensity.c", "MDLIB/StokesRoutines.c"],
  [("Picard matrix", "MDLIB/StokesAssemblyDecoupled.c:BuildStokesOperatorDecoupled, Xmomentum_InnerNodesDecoupled, Zmomentum_InnerNodesDecoupled, Continuity_InnerNodesDecoupled"), ("Newton matrix", "MDLIB/StokesAssemblyDecoupled.c:BuildJacobianOperatorDecoupled, Xjacobian_InnerNodesDecoupled3, Zjacobian_InnerNodesDecoupled3"), ("consistent tangent of the local rheology", "MDLIB/RheologyDensity.c:ViscosityDerivatives"), ("linear solver", "MDLIB/Solvers.c:KillerSolver, KSPStokesDecoupled")],
  "trace monitor: imbalance recomputed independently from the fields recorded at every iteration of 320 random solves; one solve for linear models, reduction factor of the last iteration for Newton's method",
  "quick 320 runs (about 350 solves), ~12 s; thorough 3200; walls of imposed tangential motion left out for non-linear rheologies, where the matrix omits terms; first iteration always Picard")
p("P33", "Grain size is in equilibrium with the flow",
  "In rock with evolving grain size, at every step and point below the ceiling and above the floor of viscosity, grain growth balances reduction by dislocation creep. Stress, effective viscosity and the share of every mechanism are the ones at which the rates add up to the total rate with diffusion creep at that very grain size; rocks without evolving grain size keep their reference one. The markers' grain size is the grid's at their position, and a run whose flow laws have such a solution does not stop for lack of one.",
  ["inputs", "configurations", "histories"], "all piezometers with energy balance and their rocks, temperatures, rates, unit systems and mixtures of phases with and without evolving grain size",
  "Grain size and strength feed back on each other within every point and time step; no test has grain size.",
  ["MDLIB/RheologyDensity.c", "MDLIB/FlowLaws.c", "MDLIB/RheologyParticles.c"],
  [("local iterations", "MDLIB/RheologyDensity.c:LocalIterationViscoElasticGrainSize, ViscosityConcise"), ("piezometers", "MDLIB/FlowLaws.c:ReadDataGSE"), ("marker grain size", "MDLIB/RheologyParticles.c:UpdateParticleGrainSize")],
  "trace monitor at every evaluation of the rheology; own solver of the coupled balance (bisection on stress), interpolation to markers",
  "quick 96 runs, ~900 evaluations over whole grids, ~3 s; thorough 1500")
p("P34", "Melt fraction and its heat follow the melting laws",
  "With melting switched on, every cell's melt fraction is the phase average of the chosen law between solidus and liquidus at the cell's temperature and pressure, relaxed with the phase's reaction time where given, and stays between 0 and 1. The effective heat capacity and expansivity contain the latent heat of that change, and markers take the change of melt fraction at their position.",
  ["inputs", "configurations", "histories"], "all melting laws, temperatures and pressures, unit systems, reaction times and mixtures of phases",
  "A wrong solidus or latent heat still gives a smooth, plausible melt field.",
  ["MDLIB/MeltingRoutines.c", "MDLIB/Main_DOODZ.c"],
  [("melting laws", "MDLIB/MeltingRoutines.c:PartialMelting, MeltFractionGrid, UpdateAlphaCp"), ("marker melt fraction", "MDLIB/Main_DOODZ.c")],
  "trace monitor at each melting update; oracle: published solidus/liquidus, chain rule for the latent heat, interpolation to markers",
  "quick 96 runs, ~2 s; thorough 10x; cells at negative pressure and derivatives at kinks left out")
p("P36", "Markers change phase exactly when they cross the set temperature",
  "At the start of each step every active marker of a phase with temperature-driven transmutation that is beyond the set temperature on the set side, and no other one, takes the target phase and dual phase. Nothing else about any marker changes.",
  ["inputs", "configurations", "histories"], "all temperature fields, directions, chains of phases, unit systems and histories, including deactivated markers",
  "Markers that change too early, late or into the wrong phase yield a valid-looking model; no test has transmuting phases.",
  ["MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c", "MDLIB/InputOutput.c"],
  [("change of phase", "MDLIB/ParticleRoutines.c:TransmutateMarkers"), ("parameters", "MDLIB/InputOutput.c")],
  "trace monitor comparing all markers before and after", "quick 60 runs, ~2 s; thorough 600")
p("P37", "Walls of imposed normal stress carry exactly that stress",
  "On every converged solve with walls where a normal stress is prescribed, the half cells along them are in balance between that stress, the stress and pressure of the first inner cell and the shear stress along the wall; inner points are in balance too and the other walls keep their imposed velocity. A uniform material between such walls takes the velocity and stress of the closed-form solution, and models of linear materials converge.",
  ["inputs", "configurations"], "all values, signs and combinations of such walls, free-slip or linear velocity on the others, unit systems, linear, power-law and visco-elastic materials, several steps",
  "A wrong sign or weight at the wall still yields a smooth flow; no test has such walls.",
  ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/Solvers.c", "MDLIB/Setup.c"],
  [("half cells along the walls", "MDLIB/StokesAssemblyDecoupled.c:Xmomentum_InnerNodesDecoupled, Zmomentum_InnerNodesDecoupled"), ("boundary types", "MDLIB/Setup.c")],
  "trace monitor at each converged solve; oracle: force balance of the half cells recomputed from recorded stresses, closed-form uniform flow",
  "quick 96 runs, ~3 s; thorough 1200; fixed-point iterations and no gravity (the code lacks Newton terms and half weights at such walls)")
p("P11", "Layered materials are weaker in shear along their layers by their strength",
  "At every iteration of an anisotropic model the strength of the fabric at a point is the chosen average of the materials' strengths, constant or given by the aspect ratio of the accumulated strain up to a maximum. The viscosity is that of the materials' creep laws, elasticity and yielding under the effective strain rate, in which the old stress enters through the same layered elasticity. Shear stress along the layers is smaller by the strength than that of an isotropic material, the other stresses are equal, and the reported shares of the mechanisms, dissipation, overstress and pressure correction match.",
  ["inputs", "configurations", "histories"], "constant, power-law, linear and Peierls creep with and without elasticity, yielding and dilation, mixtures of up to four materials, director per material or per marker, fabric from initial and accumulated strain, all averages, three unit systems",
  "Tests compare one mean stress of a linear and a power-law material with a single director; mixtures, yielding, elastic history and strain-dependent fabrics are never compared.",
  ["MDLIB/AnisotropyRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c"],
  [("viscosity", "MDLIB/AnisotropyRoutines.c:ViscosityConciseAniso"), ("stress", "MDLIB/AnisotropyRoutines.c:NonNewtonianViscosityGridAniso; MDLIB/RheologyDensity.c:EffectiveStrainRate"), ("strength", "MDLIB/AnisotropyRoutines.c:UpdateAnisoFactor; MDLIB/RheologyParticles.c:FiniteStrainAspectRatio")],
  "trace monitor at every non-linear iteration; oracle: independent SI solution of creep and yielding and 3x3 rotation of the layered law", "quick 150 runs, ~6 s; thorough 2000")
#NEXT
NA = []
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
HOOK = [l.split()[0] for l in HOOK if "MDOODZ_VERIF" in l]
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({k: v for k, v in x.items() if k not in ("tech", "note")}) + "\n")
    m = dict(version=1, setup_cmd="./run.py --setup", hooks=dict(guard="MDOODZ_VERIF", enable="harness builds compile /repo/MDLIB/*.c with -DMDOODZ_VERIF and provide the observer function", source_commits=HOOK),
             checks=[dict(property=x["id"], quick_cmd="./run.py %s --tier quick" % x["id"], thorough_cmd="./run.py %s --tier thorough" % x["id"], technique=x["tech"], level="exploration", level_note=x["note"]) for x in P], not_applicable=NA)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")): jsonschema.validate(json.loads(l), sch)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for x in P:
        assert x["statement"].count(". ") <= 2, x["id"]
    print(len(P), "properties")
