"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


p("P01", "Parallel runs are free of deadlock, races and schedule-dependent results",
  "For a fixed problem and a fixed number of processes, every legal order and delay of messages, every interleaving of the processes and every content of memory the library has not written yet gives the same outcome: the run completes, all processes return success, and the solution, residuals, diagnostics and step history are bitwise identical. No schedule makes processes wait for each other forever, and no call into the message layer is illegal (mismatched collective, truncated message, reused buffer, invalid rank or communicator).",
  ["schedules", "configurations"],
  "all interleavings and delivery orders of the messages of all ranks, all contents of uninitialised stack and heap memory, all supported mode/discretization/mesh configurations",
  "The tests run each problem once per build under whatever timing mpiexec happens to give on one machine, with at most 5 ranks; no test repeats a run under another timing or compares two runs bit for bit.",
  ["src/tdycore.c", "src/tdydiscretization.c", "src/fv/share/tdydm.c", "src/fv/share/tdyugdm.c", "src/fv/share/tdyugrid.c", "src/fv/share/tdymesh.c", "src/fv", "src/fe", "src/tdyio.c", "src/tdyregression.c"],
  [("collective calls made by every rank in the same order", "all of src/"), ("ghost exchange before local evaluation", "src/tdydiscretization.c TDyGlobalToLocal, src/fv/mpfao/*_snes.c, *_ts.c")],
  observe=["solution and residual vectors of every rank", "outcome of the run", "message-layer misuse monitor"])

p("P02", "Results do not depend on the number of processes or on the partition",
  "For the same global problem (cells addressed by their position), residual, Jacobian action, accepted solution, diagnostics (saturation, mass, pressure) and the sequence of accepted time steps agree between one process and any number of processes and any assignment of cells to processes, up to floating-point reordering and the solver tolerance.",
  ["configurations", "inputs", "schedules"],
  "all rank counts, all partitions (graph partitioner, contiguous, random shapes), all supported configurations and spatially varying material, boundary and initial data",
  "The regression tests pin one hand-chosen rank count and partition per problem against a stored file with loose tolerances and compare no two rank counts with each other; wrong ghost values only show for particular partitions.",
  ["src/tdycore.c", "src/tdydiscretization.c", "src/fv/share/tdymesh.c", "src/fv/mpfao", "src/fv/fvtpf", "src/fe", "src/fv/share/tdyugdm.c"],
  [("ghost cell layer and global-to-local scatter", "src/tdydiscretization.c"), ("faces and vertices shared between ranks processed by owner", "src/fv/mpfao/tdympfao.c, src/fv/fvtpf/tdyfvtpf.c"), ("mesh distributed with overlap", "src/tdycore.c TDySetFromOptions")],
  observe=["residual, Jacobian-vector product, solution per cell"])

p("P03", "Time advances exactly to the requested time in valid steps",
  "Running to a time T ends with the simulated time equal to T (and never past it), with every unit of simulated time covered exactly once by an accepted step, for any sequence of target times and any pattern of failed solves. Steps never exceed the configured maximum, grow by exactly the configured growth factor after acceptance, shrink by the configured reduction factor after a failure, and the step shortened to hit T does not change the later step sizes; the step counter equals the number of accepted steps. (With TS time integration the step sizes within a run are PETSc's choice; the times and the counter are not.)",
  ["histories", "fault_sequences", "configurations"],
  "all sequences of RunToTime targets, all dt settings, all sequences of solver failures and successes",
  "Tests run to one final time with solves that always converge on the first attempt; no test makes the solver fail in the middle of a run, calls RunToTime twice, or checks the step sizes.",
  ["src/tdyti.c", "src/tdydriver.c", "src/tdyrichards.c", "src/tdysalinity.c", "src/tdyth.c"],
  [("time step control", "src/tdyti.c TDyTimeIntegratorRunToTime/UpdateDT/SetTargetTime"), ("dtime handed to the residual", "src/tdycore.c TDySetDtimeForSNESSolver")],
  state=[("time, dt, istep", "simulated time, next step, accepted steps", "include/private/tdytiimpl.h")],
  observe=["time before and after every nonlinear solve", "time after each RunToTime"])

p("P04", "A failed solve leaves no trace; giving up is reported",
  "When the nonlinear solver fails on a step attempt, whatever iterate it leaves behind, the retry starts from exactly the last accepted state and only the step size differs: the accepted history is identical to that of a run that took the same step sizes without failures. When the attempts are exhausted, the error is reported on every process, no process hangs, and the last accepted state is what outputs and checkpoints written so far show.",
  ["fault_sequences", "histories", "schedules"],
  "all positions and numbers of solver failures within a run, all iterates a failing solver can leave, all rank counts",
  "No test injects a solver failure, so the cut-and-retry path, which is hit in production on every hard step, is never executed by the suite.",
  ["src/tdyti.c", "src/tdycore.c", "src/tdyrichards.c", "src/tdysalinity.c", "src/fv/fvtpf/tdyfvtpf_snes.c"],
  [("restore of the previous solution", "src/tdycore.c TDyTimeCut"), ("previous solution updated on acceptance only", "src/tdycore.c TDyPostSolve")],
  observe=["solution after every accepted step", "return code of RunToTime on every rank"])

p("P05", "Mass, energy and salt are conserved by every accepted step",
  "With closed boundaries and no sources, the total fluid mass (and, where modelled, total energy and salt) in the domain is the same after any number of accepted steps; with sources it changes by exactly source times time; internal fluxes cancel between cells, also across process boundaries. The fluid mass reported by the diagnostics is the mass the equations conserve.",
  ["inputs", "configurations", "histories", "schedules"],
  "all initial states, heterogeneous materials, sources, meshes, rank counts, step sequences with and without retries",
  "Regression files compare point values with stored ones to a few digits; nothing in the suite sums a conserved quantity or runs with closed boundaries.",
  ["src/fv/mpfao", "src/fv/fvtpf", "src/materials", "src/tdycore.c"],
  [("each face flux added to one cell and subtracted from the other", "src/fv/mpfao/tdympfao_snes.c, tdympfao_ts.c, src/fv/fvtpf/tdyfvtpf_snes.c"), ("accumulation term", "src/fv/*"), ("liquid mass diagnostic", "src/fv/mpfao/tdympfao.c, src/fv/fvtpf/tdyfvtpf.c")],
  observe=["sum of residuals", "liquid mass and saturation diagnostics"])

p("P06", "The discrete balance equals an independent model of flow and storage",
  "On orthogonal meshes the residual every process assembles, in RICHARDS (FV_TPF, MPFA_O, and the transient form of WY), TH and SALINITY runs, equals, cell by cell, the balance computed by an independent reference model: storage from porosity, density and the saturation curve, Darcy flux with gravity, permeability, relative permeability and viscosity, the configured pressure boundary (fixed pressure, closed or seepage) and the source terms, for the time step in force. An accepted step therefore solves the backward Euler balance for its own step size.",
  ["inputs", "configurations"],
  "all states (saturated and unsaturated), material fields, saturation curve parameters, density and viscosity models, boundary types and values, sources, step sizes, rank counts",
  "The stored regression values pin a handful of problems and were produced by the code itself; no test evaluates the balance independently or varies the curve parameters, boundary types and models.",
  ["src/fv/mpfao", "src/fv/fvtpf", "src/materials/tdyeos.c", "src/materials/tdycharacteristiccurves.c", "src/tdyconditions.c"],
  [("flux and accumulation", "src/fv/fvtpf/tdyfvtpf_snes.c, src/fv/mpfao/tdympfao_snes.c, tdympfao_ts.c"), ("equations of state and curves", "src/materials")],
  observe=["residual per cell"])

p("P07", "The Jacobian is the derivative of the residual",
  "For every supported flow mode and discretization, at every state away from kinks, the assembled Jacobian applied to any direction equals the directional derivative of the assembled residual, on any number of processes, including rows of cells next to other processes' cells and boundary cells.",
  ["inputs", "configurations", "schedules"],
  "all states, directions, step sizes, boundary types, models and partitions",
  "A wrong Jacobian only slows or breaks convergence on other problems; the regression problems still converge, and no test compares Jacobian and residual.",
  ["src/fv/mpfao", "src/fv/fvtpf", "src/materials"],
  [("analytic derivatives", "src/fv/mpfao/*_snes.c, *_ts.c, src/fv/fvtpf/tdyfvtpf_snes.c, src/materials")],
  observe=["Jacobian-vector products"])

p("P08", "A run restarted from a checkpoint continues identically",
  "A checkpoint holds exactly the accepted state at its simulated time, one file per interval-th accepted step (and one at the end of the run), in an order of cells that does not depend on the partition; a run started from it, on the same or another number of processes, continues to the same states as the uninterrupted run.",
  ["histories", "configurations", "crash_points"],
  "all checkpoint times and intervals, all pairs of writing and reading rank counts and partitions, runs with retries between checkpoints",
  "No test writes a checkpoint and restarts from it.",
  ["src/tdyio.c", "src/tdyti.c", "src/tdydiscretization.c", "src/tdycore.c"],
  [("checkpoint written in natural order", "src/tdyio.c TDyIOOutputCheckpoint"), ("initial condition read in natural order", "src/tdyio.c TDyIOReadIC, src/tdycore.c TDySetInitialCondition"), ("checkpoint interval", "src/tdyti.c")],
  observe=["checkpoint data sets", "solution of the restarted run"])

p("P09", "Files already written survive a later crash",
  "If the processes die at any instant, every checkpoint whose writing call had returned before that instant is still on disk, readable and complete, and restarting from the newest one reproduces the uninterrupted run; a crash never damages an earlier file.",
  ["crash_points", "fault_sequences", "schedules"],
  "all crash instants (between any two file operations of any rank), torn final writes",
  "No test kills a run.",
  ["src/tdyio.c", "src/tdyti.c"],
  [("each checkpoint goes to its own file and is closed before the run goes on", "src/tdyio.c TDyIOOutputCheckpoint")],
  observe=["directory contents at the crash instant"])

p("P10", "File errors surface as errors, never as silent loss or a hang",
  "If opening, reading, writing or closing an input, output, checkpoint, regression or timing file fails (missing file or data set, I/O error, full disk, short transfer), the call that needed it returns an error on at least one process and the run terminates; a run that reports success on all processes has read every input completely and written every output completely.",
  ["fault_sequences", "schedules", "configurations"],
  "all single and repeated I/O failures at any file operation of any rank, for all file kinds",
  "No test makes a file operation fail.",
  ["src/tdyio.c", "src/tdyregression.c", "src/tdytimers.c", "src/tdydriver.c", "src/fv/share/tdyugrid.c", "src/tdycore.c"],
  [("error codes checked and propagated", "src/tdyio.c, src/tdydriver.c")],
  observe=["return codes of all ranks", "files left behind"])

p("P11", "Running out of memory is reported, not ignored",
  "If an allocation requested by the library fails, the call that requested it returns an error, or stops the program with that error where it cannot return one (the failure is not dereferenced, ignored or turned into a wrong result), and no process crashes.",
  ["fault_sequences", "configurations"],
  "every allocation site reached by setup, stepping, output and destruction",
  "No test makes an allocation fail.",
  ["src/tdymemory.c", "src/tdycore.c", "src/fv/share/tdymesh.c", "src/fv", "src/fe", "src/materials"],
  [("CHKERRQ after every allocation", "all of src/"), ("TDyAlloc", "src/tdymemory.c")],
  observe=["return code after the injected failure"])

p("P12", "Memory is used within bounds and released",
  "No supported run reads or writes outside an object it owns, uses freed or uninitialised memory, or frees twice; memory use grows linearly with the problem size; creating, running and destroying a dycore repeatedly does not grow memory.",
  ["configurations", "histories", "schedules"],
  "all supported configurations, rank counts, life cycles and outputs",
  "The suite is not run under a memory checker and small overruns do not change the printed numbers.",
  ["src/tdymemory.c", "src/fv/share/tdymesh.c", "src/fv/share/tdyugrid.c", "src/fv/share/tdyugdm.c", "src/fv", "src/fe", "src/tdyio.c", "src/tdytimers.c"],
  [("allocation helpers", "src/tdymemory.c"), ("destroy functions", "src/tdycore.c TDyDestroy, src/tdydiscretization.c, src/tdyio.c")],
  observe=["AddressSanitizer reports", "allocated bytes after each cycle"])

p("P13", "Per-cell data reaches the right cell in natural order",
  "Initial conditions, permeability and porosity read from files or passed as natural-order vectors are applied to the cell with that natural (original) number for every partition, and vectors handed back in natural order (checkpoints, outputs) list each cell exactly once in that same order; going there and back is the identity.",
  ["configurations", "inputs"],
  "all meshes, partitions, rank counts, degrees of freedom per cell and data sets",
  "Tests read per-cell data in at most one configuration and do not compare placements between rank counts.",
  ["src/tdyio.c", "src/tdydiscretization.c", "src/fv/share/tdydm.c", "src/fv/share/tdyugdm.c", "src/tdycore.c"],
  [("global/natural/local scatters", "src/tdydiscretization.c, src/fv/share/tdydm.c, src/fv/share/tdyugdm.c"), ("TDyIOReadVariable", "src/tdyio.c")],
  observe=["natural-order images of cell centroids"])

p("P14", "PFLOTRAN meshes give the same grid and results on any number of processes",
  "A mesh of hexahedra, prisms, pyramids and tetrahedra with planar faces read from a PFLOTRAN file is the mesh of the file however many processes read it: every cell is owned exactly once, its volume and centroid are those of its vertices, the ghost cells are exactly the neighbours across faces needed, every face joins the same two cells with the same area, normal and distances as in the file, and natural order is the order of the cells in the file. FV_TPF RICHARDS on it (closed outer boundaries) evaluates the residual the file's geometry gives, its Jacobian is the derivative of that residual, a run conserves mass and agrees with one process to solver accuracy, and initial conditions, fields and checkpoints are attached to the same cells on any number of processes; a file that cannot be read is reported as an error on all processes.",
  ["configurations", "inputs", "schedules"],
  "all meshes of hexahedra, prisms, tetrahedra and pyramids with planar faces, rank counts and partitions, element orders in the file, initial and boundary data, read errors",
  "One PFLOTRAN-mesh test family exists; partitioning, ghosting and ordering are not checked against the file.",
  ["src/fv/share/tdyugrid.c", "src/fv/share/tdyugdm.c", "src/tdydiscretization.c", "src/fv/share/tdymesh.c"],
  [("unstructured grid read, partition and ghosting", "src/fv/share/tdyugrid.c"), ("mesh connectivity", "src/fv/share/tdymesh.c, src/fv/share/tdymeshplex.c, src/fv/share/tdymeshcustom.c")],
  observe=["cells and faces per rank", "residuals"])

p("P15", "Output files show exactly the accepted solution",
  "Output is written for every interval-th accepted step and for no failed attempt; every file set (text, HDF5 with its XMF index, regression summary) contains what the run computed: text and HDF5 files contain, for each written time, the pressure and saturation of that accepted state for every cell exactly once, at the cell it belongs to; the XMF index refers only to data sets that exist, is well formed and independent of the number of processes; the regression summary gives the extremes and means of the final state and the values of the cells it names.",
  ["histories", "configurations", "fault_sequences", "schedules"],
  "all output intervals, formats, rank counts, schedules of the ranks' file accesses, runs with retries",
  "Tests compare only the regression summary; HDF5/XMF/text output is never opened by a test.",
  ["src/tdyio.c", "src/tdyti.c", "src/tdyregression.c"],
  [("TDyIOWriteVec and XMF header/attributes/footer", "src/tdyio.c"), ("regression summary", "src/tdyregression.c")],
  observe=["contents of output files"])

p("P16", "Observers and clocks do not change the simulation",
  "Turning on timers, profiling stages, output, checkpoints, regression summaries or diagnostics, and any behaviour of the wall clock (skew between processes, jumps, slow or stalled processes), leaves the accepted solution and step history bitwise unchanged; every timer that is started is stopped; the timing profile that is written names the mode, the discretization and the numbers of processes and cells, and covers each timer once per process with non-negative times under a monotone clock.",
  ["schedules", "configurations", "histories"],
  "all combinations of observers, clock behaviours and stalls",
  "No test compares a run with and without observers, or controls the clock.",
  ["src/tdytimers.c", "src/tdyio.c", "src/tdyti.c", "src/tdycore.c", "src/tdyregression.c"],
  [("timers and profiling metadata", "src/tdytimers.c, include/private/tdytimersimpl.h"), ("outputs read soln_prev only", "src/tdyio.c")],
  observe=["solution with and without observers", "timing profile file"])

p("P17", "Dycore instances are independent and restartable within a process",
  "Several dycores may exist in one process: the results of each are the same as if it were alone, in any interleaving of their calls, and destroying one does not affect the others. The library can be initialised and finalised around them, shutdown functions run exactly once at finalisation in the reverse order of their registration, and calls made out of the documented order are rejected with an error instead of being carried out.",
  ["histories", "programs"],
  "all interleavings of create/configure/setup/run/destroy on up to three instances of different kinds, all out-of-order calls",
  "Every test creates one dycore and follows one call order.",
  ["src/tdycore.c", "src/tdydriver.c", "src/tdydiscretization.c", "src/tdyconditions.c", "src/materials", "src/tdyti.c"],
  [("per-instance context", "include/private/tdycoreimpl.h"), ("setup flags", "src/tdycore.c"), ("shutdown functions", "src/tdycore.c TDyOnFinalize/TDyFinalize")],
  observe=["solutions per instance", "error codes"])

p("P18", "Every setting takes effect on exactly the named quantity",
  "A value given as an option, as a constant through the API, as a spatial function or as a registered named function gives the same run as any other way of giving the same value; a setting given by the user is never overridden by a default, never changes another quantity, and takes effect identically on all processes.",
  ["configurations", "programs"],
  "all settings (materials, curves, conditions, models, discretization, time stepping), all ways to give them and orders of giving them",
  "Tests use a few settings each, one way, and cannot tell a value that was dropped from one that had no effect.",
  ["src/tdycore.c", "src/tdydriver.c", "src/tdyconditions.c", "src/materials/tdymaterialproperties.c", "src/fv", "src/tdyti.c"],
  [("ReadCommandLineOptions", "src/tdycore.c"), ("defaults for unset properties", "src/tdydriver.c, src/tdycore.c"), ("function registry", "src/tdycore.c")],
  observe=["residuals under equivalent settings"])

p("P19", "Hydrostatic equilibrium is preserved",
  "A state of equilibrium stays in equilibrium in every flow mode, with any porosity and curve parameters, any number of processes and steps: no flow is created and the state does not move. Hydrostatic pressure of a fluid of constant density, with matching or closed boundaries, is an equilibrium on rectilinear grids (uniform or graded) with isotropic or diagonal permeability, and for closed FV_TPF problems on any mesh; uniform pressure (with uniform temperature or concentration) without gravity is one on any mesh with any permeability tensor.",
  ["configurations", "inputs", "histories"],
  "all hydrostatic states (saturated and not) and uniform no-gravity states, meshes, permeability tensors, modes, partitions, step counts",
  "No test starts from equilibrium; spurious flow of a few percent would hide in the stored values.",
  ["src/fv/mpfao", "src/fv/fvtpf", "src/materials"],
  [("gravity consistent with pressure gradient", "src/fv/mpfao/tdympfao_snes.c, src/fv/mpfao/tdympfao_snes_salinity.c, src/fv/fvtpf/tdyfvtpf_snes.c")],
  observe=["residual and solution"])

p("P20", "Linear pressures are exact and steady systems do not depend on the partition",
  "On rectilinear meshes in two and three dimensions, with uniform or graded spacing and any constant full permeability tensor, the steady systems assembled by WY (vertex and full quadrature) and by BDM (full quadrature) reproduce a linear pressure field and its velocity exactly. On any mesh with planar faces and any constant full tensor the MPFA-O scheme balances a linear pressure field exactly (and, in TH and SALINITY, a linear temperature or salinity in a uniform pressure). The WY operator is symmetric and positive. System, right-hand side, source terms and solution do not depend on the number of processes, the partition or the schedule, also for pressures, tensors and forcings that vary in space.",
  ["inputs", "configurations", "schedules"],
  "all linear fields, constant tensors, rectilinear and planar-face meshes, quadratures, rank counts",
  "The steady demo tests compare one error norm per problem to a stored value on fixed rank counts.",
  ["src/fe/tdywy.c", "src/fe/tdybdm.c", "src/fe/tdyfe.c", "src/fv/mpfao", "src/tdycore.c"],
  [("assembly over owned cells, Dirichlet data on boundary faces", "src/fe/tdywy.c, src/fe/tdybdm.c"), ("boundary label", "src/tdycore.c")],
  observe=["assembled system and solution"])

p("P21", "The distributed mesh is a consistent copy of the global mesh",
  "Over all processes every cell is owned exactly once; every process sees for its cells and their ghosts the same volumes, centroids and natural numbers, and for its own cells the same faces, vertices, areas, normals and neighbours, as one process does; natural cell numbers are a permutation of 0 ... n-1; each interior face joins two cells with opposite unit normals, each boundary face exactly one, the boundary is exactly the boundary of the domain, and volumes and boundary areas add up to those of the domain.",
  ["configurations", "inputs"],
  "all hexahedral and prism meshes, distortions, rank counts and partitions",
  "One unit test looks at labels of one mesh; geometry and connectivity per rank are not compared.",
  ["src/fv/share/tdymesh.c", "src/fv/share/tdymeshplex.c", "src/tdycore.c", "src/tdydiscretization.c", "src/fv/share/tdydm.c"],
  [("mesh built from the DM", "src/fv/share/tdymesh.c"), ("boundary marking", "src/tdycore.c")],
  observe=["mesh connectivity and geometry per rank"])

p("P22", "The Fortran interface behaves like the C interface",
  "A program that uses the Fortran module (tdycore) gets what the same program written in C gets: every call through the module has the effect of the corresponding C "
  "call. Mode, discretization, constants and residual saturation, spatial functions (porosity, permeability, forcing, energy forcing, boundary pressure, velocity and face "
  "type, soil and thermal properties) passed as Fortran procedures or chosen by registered name, the user-defined mesh constructor, set-up, driver, residual and Jacobian "
  "drivers, time stepping, pre/post-solve, reading initial conditions, output and natural-order data all give bitwise the same solutions, diagnostics and files, on any "
  "number of processes. The number of spatial functions, the length of names and the interleaving of several dycore instances (each using either language) do not change "
  "which procedure is called or with which coordinates. A call that C rejects is rejected through Fortran with an error code instead of being carried out, an error code "
  "returned by a Fortran procedure reaches the caller, a failed allocation is reported, and no memory is written out of bounds or lost.",
  ["programs", "schedules", "faults"], "all sequences of calls of the Fortran module, functions, names, numbers of functions and instances, processes, schedules, allocation failures and file errors",
  "The Fortran demos use a part of the module, each in one way, with one process and one instance, and never compare with C.",
  ["src/f90-mod", "src/tdycore.c"], [("C stubs behind the Fortran module and their tables of procedures", "src/f90-mod/tdycoref.c"), ("interfaces and procedure-pointer wrappers", "src/f90-mod/tdycoremod.F90"),
   ("registry of named functions", "src/tdycore.c TDyRegisterFunction/TDyGetFunction")])

p("P23", "Discretizations converge at their theoretical order",
  "On smooth problems the error of each discretization decreases at its theoretical order under mesh refinement.",
  ["inputs"], "all smooth manufactured solutions and mesh families",
  "Convergence is tested for a few manufactured solutions.",
  ["src/fv", "src/fe"], [("consistency of the discretization", "src/fv, src/fe")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
