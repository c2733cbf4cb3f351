"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def add(id, title, statement, over, qtext, why, files, mech, technique,
        level="model_checking", note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note,
                  observe=observe))


CORE = "IMTreatment/core/"
SF, VF, FLD = CORE + "scalarfield.py", CORE + "vectorfield.py", CORE + "field.py"

add("C01", "A field built from arrays holds exactly the data it was given",
    "A scalar or vector field built from arrays holds, at every given coordinate pair, exactly the given value(s), masked state and units, whatever the direction of the axes (increasing or decreasing), their form (1D or meshgrid), the orientation of the value arrays of a non-square grid, and whether points are masked by the mask, by NaN or both. Its axes are always increasing, it shares no memory with the caller's arrays (which are left untouched), and refused inputs (wrong shapes, units carrying a factor) leave it unchanged.",
    ["inputs"], "all axis orders, axis forms, value orientations, mask patterns (all 2^n-1 on 2x3 grids), masking styles, dtypes and unit forms in the stated bounds",
    "Tests import one or two fixed increasing fields; the guarantee quantifies over every combination of axis direction, mask pattern and masking style.",
    [SF, VF, FLD], [("import_from_arrays", SF), ("import_from_arrays", VF), ("values/mask/unit setters", SF)],
    "exhaustive enumeration of construction inputs against a reference model")

add("C02", "Field arithmetic is pointwise, unit-correct and never loses a mask",
    "For scalar and vector fields, negation, absolute value, powers, and +, -, *, / with numbers, physical quantities, arrays and other fields give at every point the result of the same operation on the physical quantities (units included and converted), the result is masked exactly where an operand is masked or a field or array divisor is zero, and operands are unchanged. Fields sharing only part of their axes add up on exactly the shared coordinates, and operands of incompatible dimension or shape are refused. This holds for any sequence of such operations.",
    ["inputs", "programs"], "all operators, operand kinds and sides, unit pairs and mask pairs on small grids, partially overlapping axes, and all expressions up to depth 3 (4 thorough)",
    "Tests evaluate a few long expressions on one fixed pair of fields with compatible axes; unit mixes, mask combinations, partial overlaps and operand order are not swept.",
    [SF, VF], [("operator methods", SF), ("operator methods", VF)],
    "exhaustive enumeration of operand spaces and expression trees against a physical-quantity reference model")

add("C03", "Geometric transformations keep values attached to their coordinates",
    "Cropping (by coordinates or indices, bounds included), extending, rotating by multiples of 90 degrees, scaling (also by negative factors and quantities), moving the origin, mirroring, cropping masked borders, reducing the spatial resolution and resampling on an even grid each move every point of a scalar or vector field together with its value, vector direction, mask and units exactly as the corresponding transformation of the plane does. The result is always well formed (increasing axes, matching shapes, masked if and only if without value), and the same holds after any sequence of such transformations, in place or not.",
    ["inputs", "histories"], "all listed operations with all parameter values of the alphabet on small even/uneven grids and mask patterns, and all operation sequences up to depth 3 (4 thorough)",
    "Tests apply each operation once to one fixed field and compare with a stored result; sequences, mask patterns, uneven or single-line grids and negative factors are not reached.",
    [SF, VF, FLD], [("crop/extend/rotate/scale/set_origin", FLD), ("mirroring/crop_masked_border/reduce_spatial_resolution/make_evenly_spaced", SF)],
    "explicit-state breadth-first search over field states under real operations, compared step by step with a reference model")

add("C04", "Changing units never changes the physical quantities",
    "Changing the unit of an axis, of the values or of the time of a field, profile, point cloud or time series multiplies the stored numbers so that every physical position, value and time is unchanged, whatever the chain of conversions, and a conversion to an incompatible dimension is refused and leaves the object unchanged. Unit expressions given as text evaluate to the unit they denote, and text that is not a unit expression is refused without being executed.",
    ["inputs", "histories"], "all conversion chains up to depth 3 over the unit alphabet for each class and axis; all unit expressions of a small grammar",
    "Tests convert one unit once per class.",
    [FLD, SF, VF, CORE + "profile.py", CORE + "points.py", CORE + "temporalpoints.py", CORE + "temporalfields.py", CORE + "orientedpoints.py", "IMTreatment/utils/units.py"],
    [("change_unit", FLD), ("make_unit", "IMTreatment/utils/units.py")],
    "explicit-state search over unit states, every transition compared with exact conversion factors")

add("C05", "Queries and copying operations never alter or share their operands",
    "Calling any query, derived-quantity computation, or non-in-place operation on a field, profile, point cloud or time series leaves that object and every argument unchanged, and the returned object shares no mutable data with them: modifying either afterwards never affects the other. Repeating the same call on the same object, after any other such calls, gives the same result.",
    ["histories", "inputs"], "every listed operation x every mask pattern class, then all ordered pairs of operations on one object",
    "Tests look at return values only and use fresh objects; interference between calls or later modifications is never observed.",
    [SF, VF, CORE + "profile.py", CORE + "points.py", CORE + "temporalfields.py", CORE + "temporalpoints.py"],
    [("copy() before modification", SF), ("inplace parameter handling", VF)],
    "exhaustive enumeration of (operation, state) and ordered operation pairs with a snapshot/alias monitor")

add("C06", "In-place and copying variants of an operation agree",
    "For every operation that can work in place or return a copy (fields, profiles, point clouds, time series), the object modified in place ends up with the same axes, values, mask, times and units as the returned copy, the in-place call modifies that very object, and the copying call leaves the original unchanged.",
    ["inputs", "histories"], "all such operations with all alphabet parameters on all small inputs of each class",
    "Tests check one variant on one input.",
    [SF, VF, CORE + "profile.py", CORE + "points.py", CORE + "temporalfields.py", CORE + "temporalpoints.py"],
    [("inplace branches", SF)],
    "exhaustive differential enumeration of both variants from every state")

add("C07", "Reading a field at a position gives its data or a correct interpolation",
    "Reading a scalar or vector field at a grid point returns the stored value, on a grid line the linear interpolation between its neighbours, elsewhere in a cell a linear interpolation of the cell corners, with missing data as soon as the needed points are masked and an error outside the field; axis lookups (bounding, nearest, decimal indices) are consistent with the axis on even and uneven grids. Profiles (at a position, an index, averaged over an interval or the whole field, linear or nearest), line and surface integrals with their units, extrema, mean, median, norms, magnitude, angle, point scatter and iteration agree with the unmasked grid data.",
    ["inputs"], "all grid nodes, edge midpoints, quarter points of every cell of small even and uneven grids under all mask patterns; all profile positions and intervals",
    "Tests read a handful of positions of one unmasked even field.",
    [FLD, SF, VF], [("get_indice_on_axe", FLD), ("get_value/get_profile", SF)],
    "exhaustive enumeration of positions, grids and masks against a reference interpolation")

add("C08", "Filling and smoothing invent data only where it is missing",
    "Filling a field or profile gives every masked point a value and leaves all the other points exactly unchanged; the filled value is the requested constant, the value of a nearest valid neighbour, or an interpolation that stays within the range of the valid data for linear filling and is exact on linear data inside the valid region. Smoothing keeps constant fields constant, keeps grid and units, stays within the range of the data, and masked data never contribute to any result.",
    ["inputs"], "all mask patterns on small grids x all fill kinds x options",
    "Tests fill one field with one mask pattern.",
    [SF, VF, CORE + "profile.py"], [("fill/smooth", SF), ("fill/smooth", VF), ("fill/smooth", CORE + "profile.py")],
    "exhaustive enumeration of mask patterns against validity conditions and a reference model")

add("C09", "Profiles stay sorted series of (x, y) pairs through all operations",
    "A profile always holds its points sorted along x, with y, mask and units attached to the right x, whatever the order of the given points; arithmetic, cropping (bounds included), adding or removing points, scaling, even resampling, interpolation, gradient, integral and statistics give at every point the result of the same operation on its unmasked (x, y) data. Reading a value by x or y returns the stored point or the linear interpolation between neighbours.",
    ["inputs", "histories"], "all operations and parameters on all point orders and mask patterns of short profiles, and operation sequences up to depth 2 (3 thorough)",
    "Tests use one sorted profile and compare with stored results.",
    [CORE + "profile.py"], [("Profile", CORE + "profile.py")],
    "explicit-state search over profile states against a list-of-pairs reference model")

add("C10", "Point clouds never mix up positions, values and orientations",
    "Every operation on a point cloud (adding, removing, cropping, cutting, sorting, merging clouds, scaling, moving the origin, unit changes) acts on the points as on a list of (x, y, value) records: no record is lost, duplicated or re-paired, except those the operation is documented to drop. The same holds for oriented points with their orientations.",
    ["inputs", "histories"], "all operation sequences up to depth 3 over small clouds, against a list of records",
    "Tests only cover copying and displaying points.",
    [CORE + "points.py", CORE + "orientedpoints.py"], [("Points", CORE + "points.py"), ("OrientedPoints", CORE + "orientedpoints.py")],
    "explicit-state search over cloud states against a list-of-records reference model")

add("C11", "Time series keep every field or cloud paired with its time",
    "A temporal series (scalar fields, vector fields, point clouds) always holds its elements sorted by time, each paired with the time it was added with (converted to the series' unit), all on the same grid; adding, removing, cropping in time or space, scaling, moving the origin, rotating, mirroring, filling, smoothing, arithmetic and reading back act on each element exactly as the same operation on that element alone, and leave the pairing intact.",
    ["histories", "inputs"], "all add orders and all operation sequences up to depth 2 (3 thorough) on series of up to 4 elements",
    "No stable test exercises temporal series at all.",
    [CORE + "temporalfields.py", CORE + "temporalscalarfields.py", CORE + "temporalvectorfields.py", CORE + "temporalpoints.py", CORE + "fields.py"],
    [("add_field/remove_field/crop", CORE + "temporalfields.py")],
    "explicit-state search over series states against a list-of-(time, element) reference model")

add("C12", "Temporal statistics are the pointwise statistics of the valid data",
    "Mean, minimum, maximum, fluctuating fields, turbulent kinetic energy, mean kinetic energy, Reynolds stresses, time profiles at a point, temporal averaging to a coarser rate and linear time interpolation of a series equal, at every grid point, the corresponding statistic of the unmasked samples of that point, with correct units, and are masked where too few samples are valid.",
    ["inputs"], "all mask patterns over (time x grid) of tiny series, all value orders",
    "No stable test exercises temporal statistics.",
    [CORE + "temporalfields.py", CORE + "temporalscalarfields.py", CORE + "temporalvectorfields.py"],
    [("get_mean_field", CORE + "temporalfields.py"), ("get_min_field", CORE + "temporalscalarfields.py"), ("get_reynolds_stress", CORE + "temporalvectorfields.py")],
    "exhaustive enumeration of masked tiny series against a pure-Python statistic model")

add("C13", "Saving to a file and loading back returns an equal object",
    "Any field, profile, point cloud, time series, vortex or critical point object written with the library's own file format, compressed or not, whatever the given extension, is read back with the same type, axes, values, masks, times and units, and neither writing nor reading changes the object, its source file, or other files. Reading single files or whole directories through the batch helpers finds every file exactly once and in order.",
    ["inputs", "configurations"], "every class x state x compression x extension x path form",
    "Tests round-trip a few fixed objects.",
    ["IMTreatment/file_operation/file_operation.py", "IMTreatment/utils/files.py"],
    [("export_to_file/import_from_file", "IMTreatment/file_operation/file_operation.py")],
    "exhaustive enumeration of object states x file options, with read-back comparison")

add("C14", "A damaged or interrupted file is reported, never loaded as data",
    "Loading a library file truncated at any byte, or one whose reading or writing fails at any point, raises an error instead of returning a partial object; a failed load or save leaves interpreter-wide state (garbage collection, open files) as it was, and a later load or save works normally.",
    ["crash_points", "fault_sequences"], "every truncation length of the files of each class and compression; every failing read/write call",
    "Tests only read intact files.",
    ["IMTreatment/file_operation/file_operation.py"],
    [("export_to_file/import_from_file", "IMTreatment/file_operation/file_operation.py")],
    "exhaustive enumeration of truncation points and injected I/O faults on the real load/save path", "fault_enumeration")

add("C15", "Text, MATLAB and picture exchange reproduces the field",
    "Exporting a scalar or vector field, profile or points to delimited text and importing it back with the matching column description gives the same grid, values, masked points and units, independently of the order of the lines, the delimiter and header lines; MATLAB dictionaries and 8-bit pictures likewise give back the stored data.",
    ["inputs"], "all line orders of tiny grids, all delimiters/header counts/column roles, all mask patterns",
    "Tests import one or two fixed files.",
    ["IMTreatment/file_operation/file_operation.py"],
    [("export_to_ascii/import_*_from_ascii", "IMTreatment/file_operation/file_operation.py")],
    "exhaustive enumeration of small files and export options with read-back comparison")

add("C16", "Derivatives are exact on linear fields and carry the right units",
    "Gradients, Jacobian, gradient fields, divergence, shear stress and reconstruction from gradients are exact for fields linear in the coordinates at every point (borders included), and at interior points for quadratic ones, on evenly and unevenly spaced axes with any offset, aspect ratio and units of x, y and values (the unit of a derivative is the unit of the values over the unit of the axis it is taken along; a field rebuilt from its gradients equals the original). A derivative is given at least wherever the point and its direct neighbours are valid, and is exact wherever it is given; functions that fill missing data do so in a copy. The input field is never modified.",
    ["inputs"], "all coefficient combinations from {-1,0,2} of affine fields (and all quadratic monomials) on several even and uneven grids x unit systems x mask patterns",
    "Tests compare with stored results for one field on one unit system.",
    ["IMTreatment/field_treatment/field_treatment.py", "IMTreatment/vortex_criterions/vortex_criterions.py"],
    [("get_gradients/get_jacobian/get_grad_field/get_shear_stress/...", "IMTreatment/field_treatment/field_treatment.py"), ("get_divergence", "IMTreatment/vortex_criterions/vortex_criterions.py")],
    "exhaustive enumeration of affine fields, grids and masks against analytic derivatives")

add("C17", "Vortex criteria give the analytic value on linear flows",
    "On flows linear in the coordinates the vortex criteria equal their analytic definition at every point where they are given: the vorticity is the rotation rate (dv/dx-du/dy)/2, the Stokes vorticity is the circulation over the area (the full curl), residual and shear vorticity split the vorticity (defined for divergence-free flows), swirling strength, Q, delta, lambda2 and Nk follow from the velocity gradient, enstrophy, gamma, kappa and angle deviation from the stated neighbourhood of each point (on evenly spaced grids, given wherever the whole neighbourhood lies in the field and is valid). They keep the grid and the axis units, carry the right unit, do not change with a uniform translation where the definition does not, flip or keep their sign when the rotation is reversed as defined, are masked where they are undefined, and never modify the input.",
    ["inputs"], "all coefficient combinations from {-1,0,2}^4 plus uniform flows on several grids, unit systems and mask patterns",
    "No stable test covers the criteria.",
    ["IMTreatment/vortex_criterions/vortex_criterions.py", FLD],
    [("criterion functions", "IMTreatment/vortex_criterions/vortex_criterions.py"), ("get_points_around", FLD)],
    "exhaustive enumeration of linear flows, grids and masks against analytic definitions")

add("C18", "Streamlines, fieldlines and tracklines follow the velocity field",
    "A streamline starts exactly at its start point and follows the local velocity (upstream when reversed): for velocities linear in the coordinates the returned points lie on the exact particle path at the returned travel times (in units of the field height over the largest speed), and the fast version steps by a constant length along the local velocity. Fieldlines and tracklines do the same for the velocity turned by -90 and +90 degrees. Points are spaced as asked ('length' or 'time'), at most max_steps of them; a line goes on until it leaves the field (only its last point may lie outside), reaches a masked node or a stagnation point, or has enough steps, and 'hide' drops exactly the lines that reach a border or masked node. Each start point inside the field gives one line, in order, whatever the other start points and the form they are given in; start points outside give none. The nearest extremum of a paraboloid is found from anywhere. Neither the field nor the start points are modified, and no file descriptor is leaked.",
    ["inputs"], "all start points of a lattice x uniform, rotating, straining, shearing and spiralling flows x grids (even, uneven) x options x single masked nodes",
    "Tests compare stored results for one field and one start list.",
    ["IMTreatment/field_treatment/field_treatment.py", CORE + "orientedpoints.py", SF],
    [("get_streamlines/get_streamlines_fast/get_fieldlines/get_tracklines", "IMTreatment/field_treatment/field_treatment.py"), ("get_streamlines_from_orientations", CORE + "orientedpoints.py"), ("get_nearest_extrema", SF)],
    "exhaustive enumeration of start points, flows and options against exact particle paths")

add("C19", "A vortex system's velocity is the sum of its current members",
    "After any sequence of additions and removals of vortices, walls (at most one per direction) and custom fields, the velocity of a vortex system at any point is the sum of the velocities (units converted) of the vortices, their mirror images in the walls (so that nothing flows across a wall) and the custom fields it currently contains, in any order of addition, and does not depend on earlier evaluations, on copies or on other systems; evaluating the field on a grid, per member or per image agrees with evaluating it point by point. Evolving a system moves each movable vortex by its velocity times the time step and leaves the original as it was. Each vortex model is centred at its given position, turns with the sign of its circulation and obeys its analytic velocity profile.",
    ["histories"], "all operation sequences up to depth 4 (5 thorough) over vortices, walls, custom fields, removals, copies, evaluations interleaved; all models x parameters x wall sets",
    "No stable test exercises vortex creation.",
    ["IMTreatment/vortex_creation/vortex_creation.py"],
    [("VortexSystem", "IMTreatment/vortex_creation/vortex_creation.py")],
    "explicit-state search over system states with an independent superposition model")

add("C20", "Critical points of linear flows are found once, at their place, typed",
    "For an unmasked velocity field that is linear (or bilinear) around a single zero inside the domain, get_critical_points(kind='pbi') reports exactly one critical point, at the exact position of the zero (to rounding), wherever the zero lies in its cell (on nodes and cell edges included) and whatever the grid steps, even or uneven; kind 'pbi_cell' gives it within half a cell, and 'pbi_crit' and 'gam_vort' within one cell of the centre of a pure rotation, source, sink or strain. The type is the one of the velocity gradient: a saddle for a negative determinant (its two orientations are the stretching, then the contracting direction), a focus ('foc' if the flow turns anticlockwise, 'foc_c' clockwise) for complex eigenvalues, otherwise 'node_o' (outgoing) or 'node_i' (incoming). No point is reported in a field without zero; the points carry the time and units given or those of the field; each time of a series has its own points, whatever the number of threads; mirrors keep the points of the field; masked fields are refused; the field is never modified, smoothing included. get_vortex_position puts an isolated vortex within half a cell of its centre, with the same rotation sense.",
    ["inputs"], "all zero positions on a sub-cell lattice x all flow types x grids x transformations",
    "Tests detect points in one stored field and several are failing.",
    ["IMTreatment/vortex_detection/vortex_detection.py"],
    [("get_critical_points", "IMTreatment/vortex_detection/vortex_detection.py")],
    "exhaustive enumeration of linear flows with analytically known zeros")

add("C21", "Critical point collections and trajectories keep every point once",
    "A CritPoints collection gives back every stored point once, with its time, type and units, through any sequence of add_point, remove_point, crop (space, time, indices), scale, set_origin, change_unit, copy and addition; operations that are not in place, copies and sums leave their sources alone and share nothing with them, refused calls (existing time, other units, unknown time or axis) change nothing, and trajectories follow the operation or are dropped when points change. compute_traj puts every point in exactly one trajectory of its type, in increasing consecutive times, sorted by decreasing length, links only points at most epsilon apart (a length, with or without unit), and links the closest pairs first. clean_traj removes exactly the trajectories that are too short and their points; break_trajectories cuts at the crossings of the given position and loses no point; smooth_traj keeps times and points; get_traj_direction_changement gives the time of the turning point. topo_simplify keeps distant points and the total index; refine_cp_position puts each point on the nearby extremum; get_points_density formats differ by the documented factors; the mean of identical trajectories is that trajectory with zero deviation.",
    ["histories", "inputs"], "all small sequences of point sets over 3 to 4 times, all operation sequences up to depth 2",
    "Tests compute trajectories of one stored set, several failing.",
    ["IMTreatment/vortex_detection/vortex_detection.py"],
    [("CritPoints", "IMTreatment/vortex_detection/vortex_detection.py")],
    "explicit-state search over collections against a list-of-records reference model")

add("C22", "A complete POD reconstructs the original series",
    "Decomposing a temporal scalar or vector field series with modal_decomposition(kind='pod') and reconstructing it with all modes gives back the original fields at the original (even or uneven) times on the original grid with the original units, whatever the rank of the series; masked points inside the field are filled, other points stay exact, and masked borders are cropped. The modes are orthonormal, their energies non-negative, decreasing and summing up to the energy of the fluctuations, the temporal evolutions are the projections on the modes; reconstructing with some modes (first n, or a list, or computing only these) leaves exactly the energy of the others, and reconstruct(times=...) interpolates linearly within the series and refuses times outside. Cropping (modes, space, time), scaling, smoothing and augmenting a modal base give the same as doing it on the reconstruction, in place or not, without modifying their source; reading energies and coherences changes nothing. (DMD and BPOD need an older modred than the one installed and are not covered.)",
    ["inputs"], "all tiny series of the enumerated family (grids, masks, units, numbers of snapshots and modes)",
    "No stable test exercises modal decomposition.",
    ["IMTreatment/pod/pod.py"], [("modal_decomposition/reconstruct", "IMTreatment/pod/pod.py")],
    "exhaustive enumeration of small series with reconstruction oracle")


add("C23", "File collections select, and delete, exactly the files they are asked for",
    "Loading files with a regular expression gives exactly the entries under the root whose full path matches, restricted to files and/or directories and to the depth asked for (an entry is kept if its directory lies no more than depth levels below a first-level one), each once, in a stable order, without touching anything. A collection behaves as a list of (path, exists, is a directory): adding appends, removing by index, indices, expression or a list of them removes exactly those entries as numbered before the call (a refused removal changes nothing), sums and copies share nothing with their operands. Deleting a collection or the matching files of directories removes nothing unless confirmed, only ever removes what is in the collection (and the content of its directories only when recursive or separately confirmed), removes all the files of the collection and its emptied directories, never touches anything else, and leaves existence flags that tell the truth.",
    ["inputs", "histories"], "all small directory trees of the enumerated family x patterns x depths; all operation sequences up to depth 3 (4 thorough) over 26 operations; all subsets of 8 entries x order x answers for deletion",
    "No test covers it, and the code deletes files: a wrong entry among many is a lost file.",
    ["IMTreatment/utils/files.py"], [("Files", "IMTreatment/utils/files.py")],
    "explicit-state search over collection states and directory trees against a list/tree reference model (deletions watched and confined to a scratch directory)")

add("C24", "A memoized function always returns its own result",
    "A memoized function returns, for every call sequence, program restart and state of its cache file (absent, truncated at any byte, or left by an interrupted write), exactly what the undecorated function would return for these arguments, never the result for other arguments; an exception of the function is passed on and never cached, and a repeated call with the same arguments does not compute again.",
    ["histories", "crash_points"], "all call sequences up to depth 4 (6 thorough) over an alphabet of arguments, restarts and cache damages; every truncation of the cache file",
    "Tests do not exercise memoization with an existing or damaged cache.",
    ["IMTreatment/utils/memoization.py"], [("memoize", "IMTreatment/utils/memoization.py")],
    "explicit-state search over call/restart/damage histories against a dictionary model")

add("C25", "Vortex size, properties and circulation are those of its own zone",
    "On evenly spaced fields, the zone of a vortex is the set of points joined (by direct neighbours) to the point nearest to the given centre where the absolute criterion exceeds the given fraction of its maximum in the vortex (first judged with the value at the centre); masked points never belong to it. A vortex property is the integral (Simpson's rule on the grid) of the property criterion over exactly this zone, 0 when the centre is in no zone, or the value at the centre when asked; the radius is that of the disc with the area of the zone of residual vorticity, whatever the direction of rotation, with the zone's centre of mass and a unit that makes it that length; the circulation is the sum of the vorticity over the joined points around the centre where its modulus exceeds the given fraction of the field's maximum, times the cell area. Time evolutions give at each time of the trajectory what the single-field function gives for that time's field and centre. Asking for units or centres never changes the number, and no argument is modified.",
    ["inputs"], "every criterion field over 3 levels (and over levels of both signs with masked points) on small grids x starting points; vortex pairs on several grids; every small speed pattern of the family; trajectories through all the ordered choices of up to 3 of 5 times",
    "No test covers these functions; a wrong label or threshold only shows for particular zone shapes.",
    ["IMTreatment/vortex_properties/vortex_properties.py"], [("get_vortex_property/get_vortex_radius/get_vortex_circulation", "IMTreatment/vortex_properties/vortex_properties.py")],
    "exhaustive enumeration of small criterion fields against a flood-fill reference model")

add("C26", "Potential flow satisfies its walls, whatever the order it is built in",
    "The velocity of a potential-flow system (a uniform stream of given speed and angle around solid bodies given counter-clockwise, open walls, or none) equals at every point off the walls that of the source-panel solution in which no fluid crosses the middle of any panel, each side being cut into panels of the length of the shortest side divided by the resolution; it is tangential to the walls on them, and tends to the stream far away. It only depends on what the system contains when it is asked, not on the order of additions, readings and solutions. Values on a grid or a line are the values at its points, with the points strictly inside solids masked when asked, at the true distance along the line; the pressure coefficient is 1 - (v/u_inf)^2 with the masks of the velocity; the pressure length in front of an obstacle is where the coefficient takes the given value.",
    ["inputs", "histories"], "8 bodies and 5 combinations x resolutions x 4 angles, on 54 points, grids with and without solids, 8 lines; all sequences of up to 3 (4 thorough) additions/readings; all velocity patterns of 6 points for the pressure",
    "No test covers the potential flow module.",
    ["IMTreatment/potential_flow/potential_flow.py"], [("System/Panel", "IMTreatment/potential_flow/potential_flow.py")],
    "explicit-state search over construction histories against a closed-form panel method")

add("C27", "Boundary layer quantities follow their definition along the right axis",
    "For a velocity profile starting at the wall, the boundary layer thickness is the first position where the profile (joined by straight lines) takes the given fraction of its maximum; displacement and momentum thicknesses are the trapezoidal integrals of 1-u/U and u/U(1-u/U) over the points up to the 95% thickness (completed by a zero velocity at the wall, U being the largest velocity there); shape factor, Clauser thickness and wall shear stress (gradient, linear law, logarithmic law) follow, with their units. For a field they are given line by line along the swept axis, at the right positions, in the right units, for both directions. The separation position of a flow whose zero-velocity line is straight is its crossing with the wall, for vector, scalar and time-dependent fields, whatever the number of lines used. Model layers satisfy their theory: Blasius (similarity solution at any given heights, thicknesses, friction, position from thickness, both regimes), Thwaites (analytic for power-law external flows), laws of the wall and of the wake. No argument is modified.",
    ["inputs"], "all profiles of 5 points over 4 (5) levels on 3 axes; all stress profiles of 4 points over 4 levels in two unit systems; all ordered choices of 3 of 5 lines x 2 directions x unit systems; separation lines x walls x numbers of lines; parameter products for the model layers",
    "No test covers the boundary layer module.",
    ["IMTreatment/boundary_layer/boundary_layer.py"], [("get_bl_thickness/.../get_separation_position", "IMTreatment/boundary_layer/boundary_layer.py"), ("BlasiusBL/ThwaitesBL/WallLaw/WakeLaw", "IMTreatment/boundary_layer/boundary_layer.py")],
    "exhaustive enumeration of small profiles and fields against the definitions")

add("C28", "Spectra, correlations, statistics and fits follow their definition",
    "For profiles, fields and points: a spectrum is the one-sided periodogram (or Welch average of half-overlapping Hann segments) of the detrended values, in the interval asked for, with frequencies, amplitudes and units matching the scaling; the spatial spectrum and autocorrelation of a field are the averages of those of its lines; a spectral filter is linear, keeps constants, and passes its band only (band, high and low pass); an autocorrelation is the average over all the possible windows normalised to 1 at its centre and independent of the amplitude; convolutions are the discrete sums, refused for profiles that do not share an evenly spaced step, wherever the axes start; a displaced piece of a profile is found back at its displacement; densities and distributions are Gaussian kernel estimates with the width asked for; histograms count the valid values in each bin, given at the bin's middle; fits recover the parameters of the function that generated the profile; marginal values are exactly those beyond the given number of standard deviations; the centres of the zones where a field lies in an interval are the geometric, weighted or extremal points of each connected zone, on any grid; clusters are a partition of the points; the evolution on a series of fields is the value of that time's field at that time's point. Missing values never count (they are filled first where the function says so), and results carry the right units.",
    ["inputs"], "all words of length 4-6 (8 thorough) over small alphabets x axes x scalings x segments; all subsets of missing values; every 0/1 zone pattern on 3x3 (4x3) grids; all subsets of 6 points",
    "Tests compare with one stored reference per function; several of these functions are not tested at all.",
    ["IMTreatment/core/profile.py", "IMTreatment/core/scalarfield.py", "IMTreatment/core/points.py"], [("Profile.get_spectrum/get_convolution/get_pdf/...", "IMTreatment/core/profile.py"), ("ScalarField.get_histogram/get_zones_centers/get_spatial_spectrum", "IMTreatment/core/scalarfield.py")],
    "exhaustive enumeration of small signals and fields against direct definitions")

add("C29", "Objects are equal exactly when they describe the same data",
    "Comparing two scalar fields, vector fields, profiles, points, oriented points or time series with == gives True exactly when they are of the same class and have the same axes (points, positions, times), the same masks, the same values where they are not masked (the same attached values, the same orientations), and the same units; what hides under a mask does not count. Objects of different sizes, units, dimensions, magnitudes or classes, or anything else, compare unequal without an error; != is the opposite; the comparison is symmetric, holds between an object and its copy, and changes nothing.",
    ["inputs"], "all ordered pairs of 50-180 objects per class that differ by one thing (shape, each axis, each value, each mask, each unit, magnitude, order of insertion), all pairs of states across classes",
    "Every reference test relies on ==, and none tests it: a comparison that is always true would make the whole suite pass.",
    ["IMTreatment/core/scalarfield.py", "IMTreatment/core/vectorfield.py", "IMTreatment/core/profile.py", "IMTreatment/core/points.py", "IMTreatment/core/temporalfields.py", "IMTreatment/core/orientedpoints.py"], [("__eq__ of each class", "IMTreatment/core/")],
    "exhaustive comparison of all pairs of a family of objects against the equality of their models")

add("C30", "Assemblies of fields in space answer for the fields covering a place",
    "A field added to a spatial assembly (SpatialScalarFields, SpatialVectorFields) is stored as a copy in the units of the assembly, without its fully masked borders; the given field is left alone, and a field of another kind or dimension is refused, leaving the assembly as it was. The value at a place is the mean, over the fields whose domain (borders included) contains it and that have a value there, of their own interpolated values, with its unit when asked; there is none (an error, or None, or a masked point on a grid) outside of the fields. A profile gathers, in increasing order, the profiles of all the fields crossed by the position (or having points in the interval). Negation, products, quotients, powers, scaling, rotation, change of origin, removal and copy act on each field exactly as on the field alone, and the units of the assembly follow.",
    ["inputs", "histories"], "assemblies of 1-3 fields out of 7 tiles (adjacent, overlapping, nested, apart, masked, in other units) in every order (a third of the triples in the quick tier); a lattice of all nodes, middles and outer points; all sequences of up to 2 (3 thorough) operations over 16-19 operations",
    "No test covers the spatial assemblies.",
    ["IMTreatment/core/spatialfields.py", "IMTreatment/core/spatialscalarfields.py", "IMTreatment/core/spatialvectorfields.py", "IMTreatment/core/fields.py"], [("SpatialFields.add_field/get_value/get_values_on_grid/get_profile", "IMTreatment/core/spatialfields.py"), ("Fields.scale/rotate/remove_field/set_origin", "IMTreatment/core/fields.py")],
    "explicit-state search over assembly histories against an independent reference model")
