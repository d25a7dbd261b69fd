"""Writes /verif/properties.jsonl (kept as code so the list is easy to edit)."""
import json, pathlib

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=hook))

S = "src/harmonica/"
FWD = [S + "_forward/point.py", S + "_forward/dipole.py", S + "_forward/prisms/gravity.py",
       S + "_forward/prisms/magnetic.py", S + "_forward/prisms/layer.py",
       S + "_forward/tesseroid_gravity.py", S + "_forward/_tesseroid_utils.py",
       S + "_forward/_tesseroid_variable_density.py", S + "_forward/tesseroid_layer.py"]
EQS = [S + "_equivalent_sources/cartesian.py", S + "_equivalent_sources/gradient_boosted.py",
       S + "_equivalent_sources/spherical.py", S + "_equivalent_sources/utils.py"]
L = []
L.append(P("C01", "Forward models do not depend on how parallel work is scheduled",
 "For every forward model that can run in parallel (point masses, dipoles, prism gravity and magnetics, tesseroids with constant or variable density, prism and tesseroid layers), the parallel result equals the serial result to rounding error. It does so for any number of worker threads, any split of the observation points among them, any order or interleaving in which they run, and whatever stale data freshly allocated memory happens to contain. The value at an observation point is the same whether it is computed alone or together with any other points.",
 ["schedules", "inputs", "configurations"],
 "every assignment of observation points to 1..N workers, every chunking, completion order and instruction-level interleaving of those workers, every prior memory content, and every mix of observation points and bodies",
 "The suite compares parallel and serial once per field on one or two tiny inputs under whatever schedule the OS picked with 2 threads; most of it runs with the JIT off, where the loops are serial.",
 FWD,
 [("every worker iteration writes only its own output element; scratch is allocated inside the parallel loop", S + "_forward/tesseroid_gravity.py"),
  ("one kernel source compiled twice, with and without parallel", S + "_forward/point.py"),
  ("parallel flag selects the compiled variant", S + "_forward/prisms/gravity.py")],
 state=[("result array", "output shared by all workers, one slot per observation point", "forward kernels"),
        ("stack / small_tesseroids", "per-iteration scratch of the adaptive discretization", S + "_forward/tesseroid_gravity.py")],
 observe=["return value of point_gravity, dipole_magnetic, prism_gravity, prism_magnetic, tesseroid_gravity and the layers' gravity()"]))
L.append(P("C02", "Equivalent-source fits and predictions do not depend on scheduling",
 "Building the sensitivity matrix of equivalent sources, fitting them, and predicting or gridding with them gives the same numbers with the parallel option on as with it off, to rounding error, for any number of worker threads, any split of the work, and any order or interleaving of the workers. The predicted value at a point does not depend on which other points are predicted in the same call.",
 ["schedules", "inputs", "configurations"],
 "every worker count, chunking, completion order and interleaving of the matrix-building and prediction loops, for Cartesian, gradient-boosted and spherical sources, any number of data, sources and prediction points",
 "Two tests compare parallel and serial on one small grid under one uncontrolled schedule each.",
 EQS,
 [("each worker fills one row of the matrix / one predicted value", S + "_equivalent_sources/utils.py"),
  ("predict and jacobian select serial or parallel kernels from one flag", S + "_equivalent_sources/cartesian.py")],
 state=[("jacobian", "matrix shared by workers, one row each", S + "_equivalent_sources/utils.py")],
 observe=["fit().coefs_, predict(), grid(), jacobian()"]))
L.append(P("C03", "IGRF field and grids equal their harmonic synthesis under any schedule",
 "The geomagnetic field returned at scattered points equals the spherical-harmonic synthesis, between the chosen minimum and maximum degrees, of the coefficients linearly interpolated in time to the requested date (secular variation after the last epoch), and a grid equals the point-by-point prediction at its nodes. This holds for any number of points or grid shape, any worker count, split, order or interleaving of the parallel workers, and any prior memory content.",
 ["schedules", "inputs", "configurations"],
 "every date in the model's validity, degree range, point set, grid shape, worker count, chunking, interleaving and memory content",
 "The IGRF tests need a download and compare a few points with published values under one uncontrolled schedule; the grid is compared with point predictions once.",
 [S + "_spherical_harmonics/igrf.py", S + "_spherical_harmonics/legendre.py"],
 [("per-iteration allocation of Legendre and trigonometric scratch inside the parallel loops", S + "_spherical_harmonics/igrf.py"),
  ("time interpolation of the coefficients", S + "_spherical_harmonics/igrf.py")],
 state=[("p, p_deriv, cos_mlon, sin_mlon", "uninitialised scratch reused along the loops", S + "_spherical_harmonics/igrf.py")],
 observe=["IGRF14.predict, IGRF14.grid, IGRF14.coefficients"]))
L.append(P("C04", "A failure inside a parallel worker is never turned into silent numbers",
 "If the calculation at some observation point fails (for example at a singular point, or when the subdivision limits of a tesseroid are exceeded), the call raises an exception, exactly when the serial run of the same call raises one. Whichever worker the failing point lands on, and however workers interleave, a call never returns normally with observation points left incomplete.",
 ["schedules", "fault_sequences", "inputs"],
 "every position of one or more failing points among the data, every assignment of points to workers (calling thread or pool thread), every order and interleaving",
 "No test makes a worker fail in compiled parallel code; whether the error surfaces depends on which thread the failing point is given to.",
 FWD + EQS + [S + "_spherical_harmonics/igrf.py"],
 [("limits of the adaptive discretization raise an overflow error", S + "_forward/_tesseroid_utils.py"),
  ("kernels raise on division by zero in compiled code", "all parallel kernels")],
 observe=["exception or return value of every parallel entry point"]))
L.append(P("C05", "Showing a progress bar never changes the outcome",
 "For every calculation that can display a progress bar, asking for it gives the same result as not asking. Each bar's total is the number of observation points and it reads exactly that total when a call succeeds, whatever the number and interleaving of workers. Once the call has returned or raised, no background updater is left running and the bar is closed.",
 ["schedules", "fault_sequences"],
 "every interleaving of the workers' increments with each other and with the background display thread, every worker count, and failures at any point of the call",
 "Tests only check that passing the flag gives close numbers for tiny inputs; none looks at the count, the background thread or a failing call.",
 [S + "_forward/utils.py", S + "_forward/prisms/gravity.py", S + "_forward/prisms/magnetic.py", S + "_forward/prisms/layer.py", S + "_forward/tesseroid_gravity.py", S + "_forward/tesseroid_layer.py"],
 [("context manager around the bar closes it on success and failure", S + "_forward/utils.py"),
  ("atomic increment per finished observation point", "parallel kernels")],
 state=[("progress counter", "shared counter incremented by all workers", "progress proxy")],
 observe=["return value, bar total and count, live threads"]))
L.append(P("C06", "Concurrent callers get the results they would get alone",
 "When several threads of a program call the library at the same time, sharing input arrays, layers, source models, fitted estimators and field-model objects, each call returns what it would have returned had it run alone. This covers forward models, layer methods, estimator fits on separate objects, predictions and grids from a shared fitted estimator, grid transformations, gravity corrections, readers and a shared geomagnetic model including its first lazy use.",
 ["schedules", "histories"],
 "every interleaving, at Python-statement granularity, of two or more threads making read-only or own-object calls on shared arguments",
 "No test runs two callers concurrently.",
 [S + "_forward", S + "_equivalent_sources", S + "_transformations.py", S + "filters/_utils.py", S + "_spherical_harmonics/igrf.py", S + "_io", S + "_isostasy.py", S + "_gravity_corrections.py"],
 [("no module-level mutable state", "whole package"),
  ("lazy coefficient cache assigned once, complete", S + "_spherical_harmonics/igrf.py"),
  ("options dictionaries and arrays of the caller are not written to", S + "filters/_utils.py")],
 state=[("cached coefficients", "lazily filled on first use", S + "_spherical_harmonics/igrf.py")],
 observe=["return values of the concurrent calls"]))
L.append(P("C07", "Calls leave their arguments untouched and do not influence later calls",
 "No call of the public functions modifies the arrays, data frames, grids, datasets, lists or option dictionaries passed to it (only methods documented to update their own object do), and this stays true when the call fails or is interrupted at any point. The result of a call depends only on its arguments: it is the same whatever successful, failed or interrupted calls were made earlier in the process, and whatever its surroundings (working directory, time zone, random seeds, printing, warning and error settings, stale memory).",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of public calls sharing argument objects, with exceptions, memory exhaustion or keyboard interrupts injected at any statement of any call",
 "Tests check a single fresh call at a time and hardly ever look at the arguments afterwards.",
 [S + "_transformations.py", S + "filters/_utils.py", S + "_forward", S + "_isostasy.py", S + "_gravity_corrections.py", S + "_utils.py", S + "_euler_methods.py", S + "_equivalent_sources", S + "visualization/_prism.py"],
 [("arguments are converted with copies or read-only views before in-place work", "public functions"),
  ("option dictionaries are copied or only read", S + "filters/_utils.py")],
 observe=["argument objects before/after, return values across histories"]))
L.append(P("C08", "A fit is all-or-nothing, forgets earlier fits, and survives queries",
 "When fitting an estimator (equivalent sources in Cartesian, gradient-boosted or spherical form, Euler deconvolution or inversion) fails or is interrupted at any point, the estimator still behaves as before the call: a never-fitted one still refuses to predict, a fitted one predicts what it predicted before. A fit that completes gives the same estimator as fitting a new one with the same settings on the same data. Predicting, gridding, or asking for memory estimates never changes a fitted estimator's later answers.",
 ["histories", "crash_points", "fault_sequences"],
 "every sequence of fits, refits, predictions, grids and memory queries, with an exception, memory exhaustion or interrupt injected at any statement of any operation",
 "Each test fits one new estimator once and nothing interrupts it.",
 EQS + [S + "_euler_methods.py"],
 [("fit assigns depth, points, coefficients and region", S + "_equivalent_sources/cartesian.py"),
  ("fitted state is recognised by the presence of its attributes", "estimators")],
 state=[("coefs_, points_, depth_, region_, window_size_, rmse_per_iteration_", "fitted state", "estimators")],
 observe=["predict(), grid(), fitted attributes"]))
L.append(P("C09", "Reading an ICGEM grid gives the whole correct grid or an error",
 "Reading an ICGEM grid file yields exactly the values, coordinates and metadata stored in the file, however the operating system delivers its bytes (short reads, interrupted system calls, any buffering, from a path or from an open file, with Unix or Windows line endings). If the file is truncated, a line is lost or damaged so that header and data no longer agree, or a read error occurs, the reader raises; it never returns a partial or shifted grid. Files it opened are closed whether it succeeds or fails, and files opened by the caller are left open.",
 ["fault_sequences", "crash_points", "inputs"],
 "every sequence of short reads, interruptions and I/O errors, every truncation point and lost or duplicated row, every grid shape and column set",
 "Tests read a few intact files and a few hand-made broken headers from a fault-free disk.",
 [S + "_io/icgem_gdf.py"],
 [("consistency checks between header attributes, number of rows and coordinate values", S + "_io/icgem_gdf.py"),
  ("files opened by path are held by a context manager", S + "_io/icgem_gdf.py")],
 observe=["returned dataset or exception, open file descriptors"]))
L.append(P("C10", "Reading an Oasis Montaj grid gives the whole correct grid or an error",
 "Reading an Oasis Montaj grid file, plain or compressed, yields exactly the stored values (with dummies as missing and the stored scaling, spacing, ordering and rotation applied), however the operating system delivers its bytes. If the file is truncated at any point, its size contradicts its header, compressed data are damaged, or a read error occurs, the reader raises; it never returns a grid with missing, shifted or stale values. It keeps no file open afterwards.",
 ["fault_sequences", "crash_points", "inputs"],
 "every sequence of short reads, interruptions and I/O errors, every truncation point, any damage to compressed blocks, every grid shape, element type, ordering and rotation the format allows",
 "Tests read a handful of intact files from a fault-free disk.",
 [S + "_io/oasis_montaj_grd.py"],
 [("header parsing and sanity checks", S + "_io/oasis_montaj_grd.py"),
  ("decompression of blocks and size check against the header", S + "_io/oasis_montaj_grd.py")],
 observe=["returned grid or exception, open file descriptors"]))
L.append(P("C11", "IGRF coefficients are the official ones or an error, and recovery is automatic",
 "A geomagnetic model evaluation either raises or uses exactly the official coefficient file interpolated to its date. This holds whatever happens to the download (refused, dropped, truncated, corrupted or wrong responses), to the local cache (missing, damaged, half-written by a crash, full or failing disk) and whichever other processes or threads use the same cache at the same time. A failed attempt leaves nothing behind that spoils a later one: once faults stop, the same object or a new one works, and an intact cached copy is used without any network access.",
 ["fault_sequences", "crash_points", "schedules", "histories"],
 "every sequence of network and disk faults, crash points and interleavings of processes or threads sharing the cache, followed by fault-free retries",
 "The IGRF tests need the real network, use one healthy download and one healthy cache, and check numbers only.",
 [S + "_spherical_harmonics/igrf.py", S + "_utils.py"],
 [("download through a registry of known hash and temporary file", S + "_spherical_harmonics/igrf.py"),
  ("coefficients cached on the object only after load and interpolation", S + "_spherical_harmonics/igrf.py")],
 state=[("cache file", "durable copy of the coefficient file", "user cache folder"),
        ("cached coefficients", "per-object", S + "_spherical_harmonics/igrf.py")],
 observe=["IGRF14.coefficients, predict(), requests made, cache folder"]))
L.append(P("C12", "Gradient-boosted source fits are repeatable and account for every window",
 "Fitting gradient-boosted equivalent sources with a given random state is exactly repeatable, independent of other users of random numbers in the program, and does not disturb a program's global random number stream when a seed is given. In whatever order the random windows are visited, the fit equals boosting every window that contains data and sources exactly once on the residual left by the previous ones, and every data point and source belongs to the windows that cover it, those on the borders of the region included, so that no data point that shares a window with sources is ignored; the reported misfit history has one entry per step plus the initial one and its last entry is the misfit of the final model.",
 ["schedules", "histories", "inputs"],
 "every random window order (the randomness is the schedule), every interleaving with other consumers of random numbers, window sizes, overlaps, weights and data distributions",
 "Tests fit with one fixed seed and check the prediction roughly.",
 [S + "_equivalent_sources/gradient_boosted.py"],
 [("window indices are shuffled with the given random state", S + "_equivalent_sources/gradient_boosted.py"),
  ("residue updated after each window and misfit recorded", S + "_equivalent_sources/gradient_boosted.py")],
 state=[("rmse_per_iteration_", "misfit after each window", S + "_equivalent_sources/gradient_boosted.py")],
 observe=["coefs_, rmse_per_iteration_, predict(), numpy global random state"]))
L.append(P("C13", "Layers stay consistent with their contents through any history",
 "After any history of building a prism or tesseroid layer, moving its surface and reference, changing or adding properties, reading its boundaries and computing its gravity, the layer's bodies, boundaries and gravity are those of its current contents: the gravity equals the sum over the explicit bodies it describes, those without thickness or property being treated as void. A surface update that is rejected or interrupted leaves the layer's geometry as it was, never half moved, and the top is never below the bottom.",
 ["histories", "crash_points", "inputs"],
 "every sequence of layer operations, with rejected updates and interruptions injected at any statement",
 "Tests build a layer and check one operation at a time.",
 [S + "_forward/prisms/layer.py", S + "_forward/tesseroid_layer.py"],
 [("layer methods recompute from the dataset on every call (no caching)", S + "_forward/prisms/layer.py"),
  ("surface below the reference swaps top and bottom", S + "_forward/prisms/layer.py")],
 state=[("top, bottom", "non-dimensional coordinates replaced by an update", S + "_forward/prisms/layer.py")],
 observe=["update_top_bottom, gravity, boundaries, get_prism / get_tesseroid, shape, size, spacing"]))
L.append(P("C14", "An ellipsoid's state is always valid and its field reflects its current state",
 "After any history of assigning semi-axes, rotation angles, centre, density, susceptibility or remanent magnetization to an ellipsoid body, valid or rejected, the field computed for it equals that of a new body built with the currently stored values. A rejected or interrupted assignment changes nothing, and no history brings a body to hold a value its constructor would reject.",
 ["histories", "crash_points", "fault_sequences"],
 "every sequence of valid and invalid assignments and field evaluations, with interruptions injected at any statement",
 "Tests construct a body and check single assignments or rejections.",
 [S + "_forward/ellipsoids/ellipsoids.py", S + "_forward/ellipsoids/gravity.py", S + "_forward/ellipsoids/magnetic.py", S + "_forward/ellipsoids/utils.py"],
 [("setters validate before assigning", S + "_forward/ellipsoids/ellipsoids.py"),
  ("derived quantities (rotation matrix, sorted semi-axes) are recomputed when read", S + "_forward/ellipsoids/ellipsoids.py")],
 observe=["properties of the body, ellipsoid_gravity, ellipsoid_magnetic"]))

L.append(P("C15", "Work deferred to a task scheduler gives the results of direct calls",
 "Transformations, corrections, layers and vector conversions given lazily loaded (chunked) grids or arrays, forward models, readers and estimators called from delayed tasks, and cross-validation of equivalent sources by delayed folds give the values, coordinates and attributes of direct calls on loaded data, or raise, whatever the chunks and whatever the order, interleaving and repetition of the tasks. A failing load never turns into numbers, a retry after it gives the right ones, and stored data, arguments and the estimator being validated are left unchanged.",
 ["schedules", "fault_sequences", "histories"],
 "every chunking and every order, overlap, repetition and retry of tasks, with loads failing at any point",
 "Tests call everything directly, on loaded data, from one thread.",
 [S + "_transformations.py", S + "_gravity_corrections.py", S + "_isostasy.py", S + "filters/_fft.py", S + "filters/_utils.py", S + "_forward/prisms/layer.py",
  S + "_forward/tesseroid_layer.py", S + "_equivalent_sources/cartesian.py", S + "_equivalent_sources/spherical.py", S + "_equivalent_sources/gradient_boosted.py"],
 [("transforms work on copies through array operations that accept chunked data", S + "_transformations.py"),
  ("estimators keep all their state on the instance, so clones are independent", S + "_equivalent_sources/cartesian.py")],
 observe=["returned grids and scores; exceptions; stored data and estimators afterwards"]))
L.append(P("C16", "Work resumed from a saved copy continues as if never interrupted",
 "Estimators (fitted or not), geomagnetic models, ellipsoids, and prism and tesseroid layers can be copied (copy, deep copy, scikit-learn clone), saved (pickle in any protocol; layers also as NetCDF or dictionaries) and restored in another process at any moment of their life, after any history of changes, calculations and failures. The restored object holds the same settings and state and answers, and carries on, exactly as an object that lived the same history in one process without interruption; a clone does as a new object with the same settings. Copying and saving, also when they fail half way, change nothing of the original, and later work on one never shows in the other.",
 ["crash_points", "histories", "fault_sequences"],
 "every history of operations, copies and saves, with crashes at any point, failing or torn saves, and restarts in pristine processes",
 "Tests hardly copy or save anything and never continue the work in another process.",
 [S + "_equivalent_sources/cartesian.py", S + "_equivalent_sources/gradient_boosted.py", S + "_equivalent_sources/spherical.py", S + "_euler_methods.py",
  S + "_spherical_harmonics/igrf.py", S + "_forward/ellipsoids/ellipsoids.py", S + "_forward/prisms/layer.py", S + "_forward/tesseroid_layer.py"],
 [("estimators keep constructor arguments untouched under the same names and all fitted state on the instance", S + "_equivalent_sources/cartesian.py"),
  ("the geomagnetic model keeps its loaded coefficients on the instance", S + "_spherical_harmonics/igrf.py"),
  ("a layer is nothing but its dataset; the accessor holds no state of its own", S + "_forward/prisms/layer.py")],
 observe=["outcomes of every later operation on the original, the copies and the restored objects; exceptions while saving"]))

NA = []
def N(id, title, st, files, why="Tests sample a few inputs; the claim ranges over all of them."):
    NA.append(id)
    L.append(P(id, title, st, ["inputs"], "every valid input", why, files,
               [("pure calculation", files[0])]))
N("N01", "Forward fields are linear in density and additive over bodies",
  "The field of a set of bodies equals the sum of the fields of the individual bodies, and scales linearly with density, mass or magnetization. Splitting a body into parts that fill it exactly leaves the field unchanged.", FWD[:7])
N("N02", "Forward fields are consistent potential fields",
  "Outside the sources, accelerations are gradients of the potential, tensor components are gradients of accelerations, the tensor is symmetric and traceless, and magnetic fields are divergence-free. Far from a body its field tends to that of a point source.", FWD[:4])
N("N03", "Fields agree with analytic solutions",
  "Prism, tesseroid, dipole and ellipsoid fields reproduce known closed-form solutions (infinite slab, spherical shell, sphere limits) within stated accuracy.", FWD[:7] + [S + "_forward/ellipsoids/gravity.py"])
N("N04", "Sign and unit conventions are uniform",
  "Vertical gravity is positive downward and in mGal, tensors in Eotvos, magnetic fields in nT, and upward components are positive upward, in every forward model.", FWD[:4])
N("N05", "Grid transformations implement their frequency responses",
  "Derivatives, continuation, Gaussian filters and reduction to the pole apply their stated frequency responses; low-pass and high-pass of the same grid sum to the grid; continuation by two heights composes.", [S + "_transformations.py", S + "filters/_filters.py"])
N("N06", "Magnetic angle conversions are mutually inverse",
  "Converting intensity, inclination and declination to a vector and back returns the same direction and intensity for every non-null vector, in radians or degrees.", [S + "_utils.py"])
N("N07", "Gravity corrections and isostatic Moho follow their formulas",
  "The Bouguer correction uses the rock density above and the water contrast below the reference, and the Airy Moho balances the column mass for any combination of layers.", [S + "_gravity_corrections.py", S + "_isostasy.py"])
N("N08", "Equivalent sources honour the data they were fitted to",
  "Undamped equivalent sources reproduce noiseless data at the observation points and predict it elsewhere within the accuracy allowed by the source distribution.", EQS)
N("N09", "Euler methods recover ideal sources",
  "For noiseless data of an ideal source of the given structural index, Euler deconvolution and inversion return the source's location and base level.", [S + "_euler_methods.py"])
N("N10", "Associated Legendre functions satisfy their identities",
  "Normalised and unnormalised associated Legendre functions and derivatives satisfy the addition theorem, Legendre's equation and the limits at the poles for every degree and order.", [S + "_spherical_harmonics/legendre.py"])
N("N11", "Longitudes are periodic",
  "Shifting the longitudes of tesseroids or observation points by full turns, or using the 0-360 instead of the -180-180 convention, leaves spherical fields unchanged.", [S + "_forward/_tesseroid_utils.py"])
N("N12", "Invalid bodies and arguments are rejected",
  "Bodies with inverted boundaries, arrays of mismatched sizes and unknown field or coordinate-system names raise an error instead of giving numbers.", FWD[:7])
N("N13", "Visualisation meshes reproduce the bodies",
  "Meshes made from prisms and layers have the bodies' exact vertices and carry the properties on the matching cells, leaving out void bodies.", [S + "visualization/_prism.py"])
pathlib.Path(__file__).parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in L))
