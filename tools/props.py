"""Definitions of the properties; see meta.py."""
PROPS = []


def P(id, title, statement, over, why, files, mech, technique, note, **k):
    PROPS.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        over=over, why=" ".join(why.split()), files=files.split(), mech=mech,
        technique=technique, note=" ".join(note.split()), **k))


P("P01", "The integrated ODE system is the governing equations",
  """At every admissible state (positive density and velocity, off the sonic
  point) the derivatives used by the main solver satisfy continuity, the three
  momentum equations, the solenoidal condition, both induction equations and
  the scaling of the diffusivities, in both formulations (E_r integrated or
  not), pointwise and vectorised. Negative density or velocity is refused with
  the documented return code and recorded as a problem.""",
  ("inputs configurations", "every state vector, angle and parameter set"),
  """Tests compare a few sampled states with stored numbers of the same code,
  which pins behaviour rather than the equations.""",
  "solve/solution.py solve/deriv_funcs.py",
  [("ODE right-hand side", "solve/solution.py"),
   ("derivative formulae", "solve/deriv_funcs.py")],
  "runtime residual monitor on the live ODE right-hand side",
  """Residuals of independently written physical equations at randomly
  generated states and along real trajectories, to 1e-8 relative; states
  within 1e-3 of the sonic point are excluded, cases dominated by rounding are
  recognised by perturbation.""")

P("P02", "Midplane initial conditions are the exact equilibrium",
  """For every solver input the state in which integration starts satisfies
  the dimensionless parameter definitions and the steady midplane equations
  (radial and azimuthal momentum, azimuthal induction) with density and
  vertical field one and the sound speed as the unit of velocity; inputs with
  no equilibrium are rejected with a solver error, never silently turned into
  non-finite numbers.""",
  ("inputs configurations", "every solver input"),
  "Tests compute the initial conditions of a couple of fixed inputs.",
  "solve/config.py solve/solution.py",
  [("initial conditions from input", "solve/config.py")],
  "runtime monitor of midplane residuals over generated inputs",
  "Independent midplane equations; inputs within rounding of non-existence "
  "of an equilibrium may go either way.")

P("P03", "Leaving the midplane follows the midplane series",
  """The first steps off the midplane use the Taylor coefficients which the
  governing equations imply (first derivatives, second derivatives and the
  third order velocity coefficients), whether the midplane is left by a single
  jump or by the numerical series solution. The main integration starts
  exactly at the angle and state where the midplane series stopped, so the
  joined solution is continuous. Sampled coefficients (Taylor space) belong to
  the samples recorded with them.""",
  ("inputs configurations", "every equilibrium and both formulations"),
  """Tests compare stored values of the coefficients for one input; they
  cannot say the coefficients are those of the equations.""",
  "solve/deriv_midplane.py solve/solution.py",
  [("midplane derivatives", "solve/deriv_midplane.py"),
   ("Taylor jump and series", "solve/solution.py")],
  "runtime monitor of series residuals against independent expansion",
  """Coefficients are compared with an independently derived expansion of the
  governing equations; one defect in the third order constants is a listed
  known finding.""")

P("P04", "A stored solution is a trajectory of the equations on the grid",
  """The rows of a solution are a trajectory of the governing equations from
  the midplane: they start in the equilibrium, satisfy the equations along
  their whole length, are finite and of positive density, and lie on exactly
  the requested angles (and the angle where the midplane is left) in order.
  The flag tells whether the end was reached. Tolerances and the limit on
  steps act as named; repeating a run, or not storing internal data, changes
  nothing.""",
  ("inputs configurations", "every input, formulation, grid and tolerance"),
  "Tests only look whether a solver finishes on a handful of inputs.",
  "solve/solution.py solve/single.py solve/config.py",
  [("main_solution and solution", "solve/solution.py"),
   ("single solver", "solve/single.py")],
  "offline residual monitor over stored trajectories, repeated runs",
  """Residuals of independent equations with spline derivatives: medians below
  2e-3, so errors far below that are left to P01 and P06; rows faster than
  half the sound speed are excluded as singular.""")

P("P05", "Crossing the sonic point lands where it is asked to",
  """With jump_before_sonic or sonic_interp_size the solution stops exactly
  when v_θ is that far below one and records it as root; the jump follows the
  derivative at the root and lands the given distance above one
  (after_sonic), while the interpolation follows the cubic interpolant of v_θ'
  through the chosen slice and all the other equations; then the equations
  hold again. Angles increase, requested ones are neither lost nor doubled,
  and nothing is crossed if the sonic point is not reached.""",
  ("inputs configurations", "every input, method, size and grid"),
  "Tests only look whether the solver finishes for two sets of options.",
  "solve/solution.py",
  [("jump and interpolation across the sonic point", "solve/solution.py")],
  "offline monitor of run files from sonic crossing runs",
  """Cases which do not reach the sonic point are part of the workload;
  behaviour beyond is compared with equations with tolerance .2.""")

P("P06", "Internal data record what the solver evaluated",
  """Internal data hold one record per evaluation, all parts of equal length;
  in each the derivatives satisfy the governing equations at the recorded
  angle and state (or are those of the midplane series, just where that was
  in use), the alternatives recorded are consistent with the ones used, the
  records cover the solution and its rows lie among them, and problems are
  recorded at the angles where states were refused.""",
  ("inputs configurations", "every run, its options and its ending"),
  "Tests never look into internal data.",
  "solve/solution.py file_format/_containers.py",
  [("recording of evaluations", "solve/solution.py"),
   ("InternalData", "file_format/_containers.py")],
  "offline monitor over every record of internal data in run files",
  """Records within 1e-3 of the sonic point or of negative density or velocity
  are not compared with the equations.""")

P("P07", "Reduced models start from and keep the equations of their order",
  """Solutions of the hydrostatic and mod_hydro methods have v_θ = 0, γ = 0 and
  start from the midplane balance (linear in the departure from Keplerian for
  mod_hydro). Everything they integrate keeps the solenoidal condition,
  azimuthal induction, vertical balance, azimuthal momentum and diffusivity
  scaling, and with E_r also E_r itself, polar induction and radial balance.
  They stay on the grid, leave their input unchanged, and inputs which they
  cannot solve are refused.""",
  ("inputs configurations", "every input and option of both models"),
  "Tests evaluate each right-hand side at one arbitrary state.",
  "solve/hydrostatic.py solve/mod_hydro.py",
  [("hydrostatic model", "solve/hydrostatic.py"),
   ("mod_hydro model", "solve/mod_hydro.py")],
  "runtime residual monitor over every evaluation of the integrator",
  """Balances of momentum are only judged near the start, where the solution
  is smooth; that the velocities leave the radial balance without E_r is a
  listed known finding.""")

P("P08", "Behind a shock the flow continues from the jump conditions",
  """ds-shock tries a shock at every angle of the solution beyond 40° and beyond
  the maximum of v_θ where 1 < v_θ < 10. Each result starts there in the state
  behind an isothermal shock: mass and momentum flux through it are conserved,
  v_θ is below one and all else is continuous; it follows the equations on the
  rest of the grid. Results are complete, each in a file of its own with a
  plot, marked as post-shock and naming the original, which is not changed.""",
  ("inputs configurations schedules", "every solution, selection and number of workers"),
  "There are no tests of shocks.",
  "solve/shock.py solve/solution.py file_format/_containers.py",
  [("ds-shock", "solve/shock.py"),
   ("continuing from a given state", "solve/solution.py")],
  "offline monitor of the files ds-shock writes for synthetic solutions",
  """Solutions with synthetic supersonic parts, as the solver hardly gets that
  far; completeness is checked where small perturbations do not change the
  length of the result.""")

P("P09", "Mach numbers and critical points are those of isothermal MHD",
  """Slow, Alfvén and fast speeds along θ are the eigenvalues of the linearised
  equations of ideal isothermal MHD in the units of the solution; Mach numbers
  are v_θ over them; each critical point is the first crossing of one (between
  the rows which enclose it) and is absent exactly if never passed.""",
  ("inputs", "every state and every solution"),
  "Tests pin stored numbers of the same code on one solution.",
  "critical_points.py utils.py",
  [("speeds and critical points", "critical_points.py"),
   ("first crossing", "utils.py")],
  "runtime comparison with eigenvalues and independently found crossings",
  """Slow speeds lost in rounding (fast/slow above 1e6) are skipped.""")

P("P10", "A run file returns exactly the solutions that were recorded",
  """Every solution handed to a run is read back from its file unchanged: all
  fields, under its own name, with the recorded inputs, initial conditions,
  internal data and problems, whether or not caching is on, whether it is read
  before or after the file is closed, and whatever optional parts are missing.
  The final solution is the chosen one, by default the last. If the run is
  interrupted at any point, the file still opens and holds every solution
  recorded before the interruption.""",
  ("inputs histories crash_points", "every run, ending and fault position"),
  """Tests run solvers and look at file names; none reads back all fields or
  interrupts a run.""",
  "file_format/_containers.py file_format/_dumpers.py file_format/_loaders.py",
  [("dumpers", "file_format/_dumpers.py"),
   ("loaders", "file_format/_loaders.py"),
   ("Solutions and Run", "file_format/_containers.py")],
  "offline comparison of recorded solutions with the file, injected faults",
  """Random runs with a fault injected at a random point and real solver runs;
  exceptions stand for crashes (no torn writes inside HDF5 itself).""")

P("P11", "Files written by earlier format versions are read completely",
  """For every historical version of each stored structure (run, solution,
  inputs, initial conditions, internal data), alone or in combination, files
  in that layout load; fields which the version stored are returned unchanged
  (β converted to γ), fields added later take their documented default, and
  the formulation (use_E_r) is the one the run used.""",
  ("inputs configurations", "every combination of format versions"),
  "There are no old files in the test suite.",
  "file_format/_loaders.py file_format/_old_dict_loading.py "
  "file_format/_utils.py",
  [("versioned loaders", "file_format/_loaders.py"),
   ("dict layout", "file_format/_old_dict_loading.py")],
  "runtime comparison on synthesised files of every historical layout",
  """The historical layouts are reconstructed from the differences between
  loaders, as no file of that age is available.""")

P("P12", "Run containers behave as the collections they stand for",
  """Solutions are numbered consecutively in the order added and never
  overwritten; the last solution is the last added (also beyond ten); the
  final solution is set once and cannot be replaced; problems accumulate per
  angle in order; joining or reversing internal data joins or reverses every
  record, keeps all problems and leaves its operands unchanged; derived runs
  and initial conditions share nothing with their original.""",
  ("inputs histories", "every sequence of operations"),
  "Tests do not run operation sequences on the containers.",
  "file_format/_containers.py utils.py",
  [("containers", "file_format/_containers.py"),
   ("selection of solutions", "utils.py")],
  "model-based runtime monitor over random operation histories",
  "Histories of up to 40 operations, in memory and bound to an open file.")

P("P13", "Configuration conversions lose nothing",
  """Solver input converted to configuration text, written to a configuration
  file (also by ds-tocfg) and read again is the same input: every number
  exactly, every optional setting, slice and label. A setting read from a file
  has the value its text denotes (fractions, exponents, any spelling of a
  boolean), names are case sensitive, and missing settings take their default.
  Conversions never change what is converted.""",
  ("inputs configurations", "every input and configuration text"),
  "Tests read one configuration file and do not convert back.",
  "file_format/_containers.py solve/config.py analyse/dump_config.py",
  [("conversions", "file_format/_containers.py"),
   ("reading configuration", "solve/config.py")],
  "runtime round-trip monitor with an independent reading of the text",
  "Labels with line breaks or outer white space and an empty set of MCMC "
  "variables cannot be expressed in the format and are excluded.")

P("P14", "Overrides win, nothing else changes, and the run records its input",
  """A setting overridden on the command line has that value; any other has
  the value of the configuration file, or when re-solving that of the stored
  solution; the result records exactly the configuration and input used, the
  method, formulation and the solution it is based on. Unknown overrides are
  refused before anything is written, existing files are never overwritten,
  and the file which is re-solved is not changed.""",
  ("inputs configurations", "every set of overrides and differing settings"),
  "Tests use one or two overrides and do not look at the recorded input.",
  "solve/config.py solve/utils.py solve/__init__.py solve/resolve.py",
  [("merging", "solve/config.py"), ("overrides", "solve/utils.py"),
   ("ds-soln", "solve/__init__.py"), ("ds-resoln", "solve/resolve.py")],
  "runtime monitor comparing recorded inputs with an independent merge",
  "End-to-end runs use the single solver only; the merge itself is checked "
  "on arbitrary inputs.")

P("P15", "Inputs written to CSV are the inputs read from CSV",
  """Inputs of stored solutions written by ds-tocsv (with or without header,
  appended), ds-dumpcsv (all solutions of all readable files, skipping damaged
  ones) or in the runners' format are read by the runners as the same inputs,
  in order, none lost or invented, wherever comments stand and however columns
  are ordered; foreign columns are ignored and the solution identification is
  kept.""",
  ("inputs configurations", "every list of inputs and file layout"),
  "Tests only look that files are produced.",
  "solve/utils.py analyse/dump_csv.py analyse/stats.py",
  [("reader and writer", "solve/utils.py"),
   ("ds-tocsv", "analyse/dump_csv.py"), ("ds-dumpcsv", "analyse/stats.py")],
  "runtime comparison of written and read multisets of inputs",
  "Order within one stored file is not checked for ds-dumpcsv.")

P("P17", "The stepping search converges on the boundary in γ",
  """The step solver records each attempt once, in order, changing γ only. It
  steps by a tenth towards the boundary between the two kinds of solutions,
  halves every step once this is enclosed and so converges; it stops at the
  first best solution (complete, physical: no negative density or velocity,
  monotonic, concave near the sonic point),
  which becomes final, at the numerical limit, or after the allowed attempts,
  and reports failure otherwise. The kind of a solution depends on its
  velocity alone, or is what the user answers if the
  user is asked.""",
  ("inputs histories", "every input, boundary and sequence of outcomes"),
  "Tests only look whether the solver returns for the default input.",
  "solve/stepper.py solve/utils.py",
  [("search", "solve/stepper.py"), ("validity", "solve/utils.py")],
  "history monitor over driven searches and over run files",
  """Searches are driven with stand-ins for solving; real runs are limited to
  30 attempts; one defect of the decision is a listed known finding.""")

P("P18", "The fast crosser's search is a golden-section search",
  """The fast crosser steps the radial velocity by 1% in either direction as
  long as the solution reaches further, then divides the limits by golden
  sections, never leaving them, discarding only parts which cannot contain the
  maximum, and converges on it. Attempts differ from the input in γ and the
  radial velocity only; each is continued to the final stop; all are recorded
  and the input is not changed.""",
  ("inputs histories", "every input and every response with one maximum"),
  "Tests only look whether the solver returns for the default input.",
  "solve/fast_crosser.py solve/stepper.py",
  [("search", "solve/fast_crosser.py"),
   ("driving the search", "solve/stepper.py")],
  "history monitor over driven searches and one real search",
  """Searches are driven with stand-ins for solving whose reach is a known
  function; precision is checked to 1e-4 of the limits (rounding accumulates
  in the reflections).""")

P("P19", "MCMC samples the chosen variables and keeps the best",
  """The mcmc solver varies γ and the chosen variables only; every recorded
  solution is that of its recorded positive input and all solutions of finite
  probability are recorded; inputs which are out of range or have no
  equilibrium get probability zero and leave nothing behind. The final
  solution is the one of highest probability.""",
  ("inputs configurations", "every choice of variables and every point"),
  "Tests only look whether the solver returns.",
  "solve/mcmc.py file_format/_containers.py",
  [("log probability and recording", "solve/mcmc.py"),
   ("choice of variables", "file_format/_containers.py")],
  "runtime monitor of log probabilities and offline monitor of run files",
  """The sampling of emcee itself is not checked beyond variation of the
  variables.""")

P("P20", "Solutions joined at the sonic point belong to the recorded input",
  """The sonic_root solver records first the solution from the midplane to the
  target velocity, then for each guess this solution followed by the reversed
  one from the guessed sonic point (v_θ = 1); the first guess extrapolates to
  it (and takes it nine tenths of the way to it in angle), and guesses are
  scored by how much both parts differ where they meet. Internal data are
  joined alike, all have the input and initial
  conditions of the run, the last is final, and guesses which fail do not end
  the run.""",
  ("inputs configurations", "every input and target velocity"),
  "Tests only look whether the solver returns.",
  "solve/sonic_root.py file_format/_containers.py",
  [("guessing and joining", "solve/sonic_root.py")],
  "offline monitor of run files against independent runs",
  """Whether the root finder converges is not checked (it starts in a
  singularity and hardly does).""")

P("P21", "Plots show the values of the solution chosen",
  """Every plotting function shows, for the solution chosen by name and the
  angles between start and stop only, exactly the values of that solution (in
  the units of its labels), with the wave speeds, sonic point and roots asked
  for; quantities which are derived (currents, electric fields, residuals of
  the equations, components of the momentum and induction equations,
  cylindrical components, accretion rates, surface density) are those of the
  equations. The comparison of several solutions shows and labels all of them, in
  different colours (up to thirty).
  Plots never change the run file, refuse data they cannot use, write the
  requested image and leave no figure open.""",
  ("inputs", "every solution, range of angles and option of the plots"),
  "Tests only look whether a figure comes out, never what it shows.",
  "analyse/*_plot.py analyse/plot.py analyse/utils.py analyse/v_deriv_cmp.py"
  " utils.py",
  [("plotting of solutions", "analyse/plot.py"),
   ("components of the equations", "analyse/component_plot.py"),
   ("electric fields", "analyse/j_e_plot.py"),
   ("residuals", "analyse/validate_plot.py"),
   ("common arguments, choice of the solution", "analyse/utils.py")],
  "runtime monitor of the lines of figures",
  """Solutions are made up (smooth, positive, with rows of arbitrary values),
  so every formula is seen away from equilibrium. M_dot of the ratio plot and
  the appearance of plots are not checked.""")

P("P22", "Jacobians and eigensystems are those of the equations",
  """The Jacobians computed from a solution are the partial derivatives of the
  right-hand side in the solution's own formulation, row by row; plotted
  eigenvalues and eigenvectors satisfy J v = λ v with |v| = 1; plotted
  coefficients expand the difference of the solution from the chosen critical
  point (the last row where there is none) in the local eigenvectors or those
  of the critical point, which is marked.""",
  ("inputs", "every solution, row, formulation and critical point"),
  "Tests only look whether a figure comes out.",
  "analyse/compute_jacobian.py critical_points.py",
  [("Jacobian, eigensystem", "analyse/compute_jacobian.py")],
  "runtime monitor against extrapolated differences and definitions",
  """Rows near the midplane, the sonic point or with tiny density are not
  judged (rounding of differences dominates); coefficients only where the
  eigenvectors are well conditioned.""")

P("P23", "Statistics and information are those of the solutions",
  """The statistics of a solution (largest Mach numbers and where, critical
  points, surface density, ratio of fields, fastest vertical outflow and its
  height, worst residuals of the equations, largest angle, course of v_θ) are
  those of its data. ds-stats writes exactly one row for every solution and
  the final one of every file given as argument or on standard input, and
  continues past files it cannot read. ds-info reports the run's and chosen
  solution's data in each of its groups.""",
  ("inputs faults", "every solution, list of files and group"),
  "Tests only look whether the commands return.",
  "analyse/stats.py analyse/info.py analyse/validate_plot.py utils.py",
  [("statistics, ds-stats", "analyse/stats.py"),
   ("ds-info", "analyse/info.py"),
   ("residuals", "analyse/validate_plot.py")],
  "runtime monitor of statistics and offline monitor of written rows",
  """Mass fluxes are not judged; the surface density to 10 % (irregular
  grids).""")

P("P24", "Field lines and streamlines follow the solution",
  """Each line starts at the start position, every step has the chosen length
  in the direction of the poloidal field or velocity of the stored angle
  closest to the position, and at most the chosen number of positions is
  given; where the next step would leave the solution shorter steps are taken
  and the line only ends there; a start outside of the solution gives no
  line. The written files and the figure contain these lines and the angles
  of the critical points; existing files are never overwritten.""",
  ("inputs", "every solution, start, step length and number of steps"),
  "Tests only look whether the functions return.",
  "analyse/trajectory.py utils.py critical_points.py",
  [("lines, files and figures", "analyse/trajectory.py"),
   ("closest value", "utils.py")],
  "step by step runtime monitor of positions and written files",
  """Directions are unit vectors, as the code intends; radial scaling does not
  matter for them.""")

P("P16", "Parallel runners solve every input once and keep their order",
  """With any number of workers the CSV and HDF5 runners solve every input
  exactly once with exactly its values and the overrides given. Rows of the
  CSV written are the inputs of the final solutions, in the order of the
  inputs whatever the order of completion; an input which fails or has no
  final solution skips only its own row and the rest is solved; a crash of a
  solver is reported as such and rows already obtained are kept. The HDF5
  runner writes one run file for each input, with its configuration, label,
  source and exactly its solution.""",
  ("schedules faults inputs", "every list of inputs, number of workers, order"
   " of completion and outcome of every input"),
  "Tests run a handful of inputs which all succeed, without delays.",
  "solve/csvrunner.py solve/hdf5runner.py solve/utils.py utils.py",
  [("CSV runner", "solve/csvrunner.py"), ("HDF5 runner",
    "solve/hdf5runner.py"), ("pools of processes", "utils.py")],
  "monitor of call logs under injected delays, failures and crashes",
  """The solver proper is replaced by a stand-in which logs its calls and
  waits, fails or crashes as planned: the runners are the code under
  observation. Death of a worker process (kill -9) is not injected, as
  multiprocessing pools wait for it forever.""")

P("P26", "Scaling, units, cylinder coordinates and look-up are exact",
  """Solutions scaled to other radii follow the self-similarity (v as r^-1/2, B
  as r^(γ-5/4), ρ as r^(2γ-3/2), η as r^1/2) for single rows, many rows and a
  radius per row, consistently when repeated; at constant cylinder radius
  their vectors keep length and direction and heights are in scale heights;
  rows with E_r are refused. Physical units reproduce Kepler, sound and Alfvén
  velocity. First passages, interpolated passages and closest values are
  those; solutions of a run are found by name, as final or as latest.""",
  ("inputs", "every row, radius, unit and sequence of values"),
  "Tests check cot at four angles.",
  "utils.py constants.py",
  [("conversions and look-up", "utils.py"), ("constants", "constants.py")],
  "runtime monitor of conserved quantities and independent searches",
  """Constants are judged to the precision of 2e33 g for the mass of the
  Sun; sequences with NaN only at the start.""")

P("P25", "Commands do what their options say, as the functions do",
  """Every installed ds-* command starts, reports the version, explains itself
  and refuses unknown options without writing anything. The plotting commands
  write exactly one image, under the name given, of the figure which the
  function behind the command draws with the settings asked for (title, size,
  version, style, range of angles and its own options); several solutions are
  given by repeating -r, and those without a final solution are left out with
  a warning. ds-diverge-plot and ds-conserve-plot show and label all solutions
  of a file, or those selected. The log file and standard error each have every
  record of the level their options ask for and above, in order and without
  loss, when the process has ended. Run files are not changed.""",
  ("inputs configurations", "every command, set of options and run file"),
  "Tests call two or three commands, without looking at the result.",
  "analyse/*.py solve/*.py logging.py utils.py",
  [("parsing of options", "analyse/utils.py"), ("options for logging",
    "logging.py"), ("all solutions of a file", "analyse/diverge_plot.py"),
   ("commands", "setup.py")],
  "runtime monitor of saved figures against options and functions",
  """Figures are recorded by a hook on matplotlib. That the functions draw the
  right values is P21; ds-plot-taylor-space (which only shows windows) is
  only imported; the style of lines is compared where it is given.""")
