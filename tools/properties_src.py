p("C01", "Operators, queries, displays and non-in-place calls never modify the object",
  "Using a field, profile, point set or time series in an arithmetic operator, a comparison, a query, a display or an export, or calling one of its transformations without asking for in-place modification, leaves every part of that object (coordinates, data, mask, units, time stamps and contained objects) exactly as it was. This holds for every argument combination, including the early-exit and option-specific branches.",
  ["inputs", "histories"], "all objects of the data model, all their non-mutating public operations, all option values and branches",
  "The tests compare results of a few calls on a few fields and rarely compare the source afterwards; option-specific branches and the untested classes (time series, point sets) are not reached at all.",
  CORE, [("non-in-place branches work on a deep copy or on freshly built arrays", "methods with an inplace parameter, operators, get_* methods")],
  observe=["attributes of the receiver after the call"])
p("C02", "Arguments, including default arguments, are never modified",
  "Calling a public function or method never changes an object, array, list or dictionary handed to it as an argument, nor the function's own default values: after the call every argument compares equal to what was passed. Storing an argument inside a container object is allowed, changing it is not.",
  ["inputs", "histories"], "all public functions and methods of the package, all arguments, repeated calls",
  "Tests never look at their inputs after a call, and a modified default value only shows on a later call.",
  CORE + TREAT + IO, [("functions copy arrays or fields before working on them", "whole package")],
  observe=["arguments after the call", "second call with default arguments"])
p("C03", "Results and stored data share no mutable storage with inputs",
  "An object returned by a non-in-place operation, and an object built from arrays supplied by the caller, owns its data: later in-place changes of the source object or of the supplied arrays never show through in it, and the reverse. The explicit no-copy option of the containers is the only exception.",
  ["inputs", "histories"], "all operations returning or filling a data object, followed by any later modification of either side",
  "Sharing is invisible until a second, later mutation; no test performs one.",
  CORE + TREAT, [("deep copies in copy(), np.array copies in setters and constructors", "copy methods, property setters, import_from_arrays")],
  observe=["source and result after modifying the other in place"])
p("C04", "In-place flag is honoured on every path",
  "A transformation called with in-place modification switched off returns, on every path that does not raise, a new object of the data model carrying the result; called with it switched on, it puts the same result into the object itself. Whether something needed doing (nothing masked, trivial factor, already regular) does not change which of the two happens.",
  ["inputs", "configurations"], "every transformation with an in-place option, both option values, all other arguments",
  "Tests exercise one main path per transformation, usually for one of the two option values only.",
  CORE, [("if inplace: ... else: return tmp idiom", "methods with an inplace parameter")],
  observe=["return value and receiver after the call"])
p("C05", "Numbers and the units attached to them stay consistent",
  "Every field, profile, point set or time series produced or modified by the library carries, for each coordinate, data component and time stamp, a unit that matches the numbers stored next to it: operands given in different but compatible units are converted before being combined, and products, quotients, powers, derivatives, rescalings and unit changes update number and unit together, so that the physical quantity is the right one.",
  ["inputs"], "all combinations of units on the operands, all operations building or modifying data objects",
  "Tests use objects sharing one unit, for which wrong, inverted or missing conversions are invisible.",
  CORE + TREAT, [("factor = unit.asNumber(); unit /= factor; data *= factor", "operators, scale, change_unit, gradients and derived fields")],
  observe=["stored numbers times stored unit of the result"])
p("C06", "A masked (missing) point never turns into valid data",
  "In every result computed pointwise from one or several fields or profiles, a point whose value was computed from a masked point is itself masked; combining objects combines their masks. Masked points only become valid through an operation whose purpose is to fill them in.",
  ["inputs"], "all masks on all operands, all pointwise operations, selections and transformations",
  "Tests use one mask shared by the operands, so dropped or half-combined masks are not seen.",
  CORE + TREAT, [("mask = logical_or(self.mask, other.mask) and NaN-carrying getters", "operators and derived fields")],
  observe=["mask of the result"])
p("C07", "Coordinates, data and mask stay aligned point by point",
  "Whenever an operation selects, reverses, reorders, transposes or resamples points, it does the same to the coordinates, to every data component, to the mask and to whatever else is stored per point, so that each value stays attached to its own coordinate. This covers grids, profiles, point sets with values or orientations, and time stamps with their fields.",
  ["inputs"], "all grids, selections, orders and axis directions, all structural operations",
  "Tests use small symmetric grids and check one attribute; a mask or second component left behind stays unseen.",
  CORE + IO, [("the same index expression applied to axes, components and mask", "crop, mirroring, rotate, scale, import_from_arrays, reduce/augment resolution, sort")],
  observe=["axes, data, mask of result"])
p("C08", "x and y never get mixed up",
  "An option that concerns one direction, one component or one axis acts on that one and leaves the others untouched, and each coordinate or component of a result is derived from the same coordinate or component of the operands, unless the operation is a rotation, transposition or explicit combination of both. The treatment of x and y is the same up to exchanging them.",
  ["inputs"], "all asymmetric grids, units, intervals, factors and components",
  "Tests use the same sampling, unit and interval in both directions or check only one of them.",
  CORE, [("parallel code for x and y", "crop, scale, change_unit, set_origin, extend, smooth, operators")],
  observe=["axes, components and units of the result"])
p("C09", "Malformed data is rejected, never stored",
  "Assigning or supplying axes, data, masks, units, coordinates or time stamps of the wrong kind, of a shape or length that does not match the rest of the object, or axes that are not monotonic, raises an error instead of producing an inconsistent object. No operation bypasses these checks by writing another object's internal storage directly.",
  ["inputs"], "every way to assign or supply data, every malformed value",
  "Tests assign valid data.",
  CORE, [("validating property setters", "property setters of the data classes"), ("name-mangled private storage", "data classes")],
  observe=["exception on assignment"])
p("C10", "A rejected call leaves the object unchanged",
  "When an in-place operation or an assignment is rejected because of an invalid argument, the object is exactly as it was before the call: arguments are checked before anything is modified.",
  ["inputs", "fault_sequences"], "all in-place operations and assignments, all invalid arguments",
  "Tests of invalid arguments, where they exist, only check that an error is raised.",
  CORE, [("argument checks at the head of methods", "in-place methods and setters")],
  observe=["object after an exception"])
p("C11", "Equality compares every part of the objects",
  "Two fields, profiles, point sets or collections compare equal only if all their observable parts agree: coordinates, each data component, mask, units and, for collections, time stamps and contents; comparing with an object of another kind or size gives a boolean and no error.",
  ["inputs"], "all pairs of objects differing in exactly one part",
  "Tests compare equal objects; each forgotten part is a separate untested pair.",
  CORE, [("__eq__ methods", "data classes")], observe=["result of == and !="])
p("C12", "Every reachable name, attribute, method and parameter exists",
  "No path through the library ends in a reference to an undefined variable, a missing attribute or method, a wrong number of arguments or an unknown keyword: for every option value a call either does its job or raises an error about its arguments.",
  ["inputs", "configurations"], "all code paths of the package",
  "Python resolves names when a line runs; most option branches and whole modules are never run by the tests.",
  CORE + TREAT + IO + UT + ["IMTreatment/plotlib/plotlib.py"], [("imports, class definitions and call signatures", "whole package")],
  observe=["NameError, UnboundLocalError, AttributeError, TypeError from the library itself"])
p("C13", "Unknown option values are rejected and documented ones accepted",
  "When an option selects between named alternatives (interpolation kind, smoothing method, direction, axis, norm, file kind...), each documented alternative is accepted and any other value raises an error instead of silently doing nothing or something else.",
  ["inputs", "configurations"], "every such option, every string outside its documented set",
  "Tests pass valid option values; the set of invalid ones is infinite.",
  CORE + TREAT + IO, [("validation of option strings and final else: raise", "functions with string options")],
  observe=["exception for a misspelled option value"])
p("C14", "Files are only deleted or overwritten as announced",
  "The file utilities remove or overwrite something on disk only if the user asked for it: interactive functions delete only after an explicit affirmative answer and only the listed entries, and no other part of the library deletes, moves or renames files. Saving functions write only to the path they are given (plus the documented extension or suffix).",
  ["inputs", "histories"], "all answers at the prompts, all file trees, all branches",
  "No test deletes anything or answers a prompt.",
  ["IMTreatment/utils/files.py", "IMTreatment/file_operation/file_operation.py"], [("prompt loops before os.remove / shutil.rmtree", "utils/files.py")],
  observe=["file system"])
p("C15", "Process-wide state and open files are restored on every exit",
  "After any call into the library, whether it returns or raises, the process is as before: garbage collection, numerical error handling, standard output and file descriptors, working directory, random state, recursion and plotting configuration are as they were, and every file the call opened is closed.",
  ["inputs", "fault_sequences"], "all calls, all exits including exceptions raised in the middle",
  "Tests do not inject failures in the middle of a call or compare process state.",
  UT + IO + TREAT, [("paired disable/enable and open/close calls, context managers", "file operations, Fortran output silencer, memoization")],
  observe=["gc.isenabled(), np.geterr(), os.getcwd(), open descriptors"])
p("C16", "Unit strings and data files cannot run arbitrary code",
  "Text taken from a caller or from a measurement file as a unit or a description is only ever interpreted as a product of known unit symbols and numbers; anything else is refused with an error and never executed. No other text coming from outside is executed.",
  ["inputs"], "every string passed as a unit, every imported file header",
  "The set of strings is infinite; tests pass well-formed units.",
  ["IMTreatment/utils/units.py", "IMTreatment/vortex_detection/vortex_detection.py", "IMTreatment/file_operation/file_operation.py"],
  [("character and symbol validation before evaluation", "utils/units.py")], observe=["evaluation of the string"])
p("C17", "What one export function writes, its import counterpart reads the same way",
  "For each supported file format, writer and reader agree on extension, compression, entry names, column order and orientation, for every supported kind of object, so that coordinates, components, masks and units come back in the place they were written from.",
  ["inputs", "configurations"], "every format and object kind",
  "Tests read reference files or write some formats; they do not cover all kind and format pairs.",
  IO, [("export_*/import_* pairs", "file_operation.py")], observe=["object re-imported from an exported file"])
p("C18", "Time series keep every time stamp with its field, in order",
  "Every time series derived from another one gives each derived field the time stamp and time unit of the field it comes from, adding a field converts its time to the unit of the series, and time stamps stay sorted with exactly one per field after every addition, removal, selection or resampling.",
  ["inputs", "histories"], "all series, all derived series, all add/remove/crop/resample histories",
  "Time series are almost untested.",
  ["IMTreatment/core/temporalfields.py", "IMTreatment/core/temporalscalarfields.py", "IMTreatment/core/temporalvectorfields.py",
   "IMTreatment/core/temporalpoints.py"] + TREAT,
  [("add_field(..., time=self.times[i], unit_times=self.unit_times)", "derived time series")], observe=["times and unit_times of the derived series"])
p("C19", "Results depend only on the arguments, not on call history",
  "Calling the same function twice with equal arguments gives equal results: no analysis result depends on hidden module state left by earlier calls, on values cached for other arguments, on the clock or on unseeded random numbers, except for the functions whose documented purpose is random generation.",
  ["histories", "inputs"], "all sequences of calls",
  "A test calls a function once in a fresh process.",
  CORE + TREAT + UT, [("absence of module-level mutable state; memoization keyed by all arguments", "whole package")],
  observe=["results of repeated calls"])
# ---- numerical behaviour: recorded, not decidable by this family
p("N01", "Interpolation reproduces the data at sample points",
  "Interpolated values at original sample points equal the stored values, and interpolation of data linear in the coordinates is exact.",
  ["inputs"], "all grids and all points", "Only a few points are sampled.", CORE, [("scipy interpolators", "get_value, change_resolution, fill")])
p("N02", "POD modes reconstruct the fields they were computed from",
  "Reconstruction with all modes gives back the decomposed time series up to rounding, and modes are orthonormal.",
  ["inputs"], "all series", "Numerical identity over all inputs.", ["IMTreatment/pod/pod.py"], [("modal decomposition", "pod.py")])
p("N03", "Critical points found are exactly those of the bilinear field",
  "Every critical point of the piecewise bilinear velocity field is detected once, with its type and position.",
  ["inputs"], "all velocity fields", "Numerical and topological property over all inputs.", ["IMTreatment/vortex_detection/vortex_detection.py"], [("PBI and level-set solvers", "vortex_detection.py")])
p("N04", "Vortex criteria are invariant under translation and rotation of the frame",
  "Criteria that are Galilean or rotation invariant give the same field after a change of frame.",
  ["inputs"], "all velocity fields and frames", "Numerical property.", ["IMTreatment/vortex_criterions/vortex_criterions.py"], [("criteria formulas", "vortex_criterions.py")])
p("N05", "Parallel and sequential detection give the same result",
  "Running a detection with several processes gives the same result as with one.",
  ["schedules", "inputs"], "all inputs and pool schedules", "Depends on process pool scheduling and result collection order.", ["IMTreatment/vortex_detection/vortex_detection.py", "IMTreatment/utils/multithreading.py"], [("process pools", "vortex_detection.py")])
