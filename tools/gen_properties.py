#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Two-point pair accounting is exact when no slop is allowed",
  "With bin_slop=0 (or brute=True) every pair of points whose separation, under the chosen metric and coordinate system, lies in [min_sep,max_sep) and whose line-of-sight separation lies in [min_rpar,max_rpar] contributes exactly once (once per unordered pair for auto, once per ordered pair for cross; once in each of the two opposite cells for a TwoD auto-correlation) to the one bin containing its separation, and no other pair contributes. Consequently npairs, weight, meanr and meanlogr equal the brute-force sums over pairs, for every bin type, metric, coordinate system, tree-building option and brute setting.",
  ["inputs", "configurations"],
  "all catalogs (positions incl. duplicates, clusters, collinear, poles, RA wrap; weights incl. zero and negative), all valid (bin_type, metric, coords, rpar, period, split_method, min_top/max_top, brute) combinations",
  "The tests compare with brute force for a few random Gaussian catalogs per metric; the tree walk's pruning decisions (too small, too large, single bin, rpar in/out, early exit) have an input-dependent branch per cell pair, and a slightly wrong bound only loses pairs for special geometries.",
  ["src/Corr2.cpp", "include/Metric.h", "include/BinType.h", "include/Split.h", "src/Cell.cpp", "src/Field.cpp", "treecorr/corr2base.py", "treecorr/nncorrelation.py"],
  [("dual-tree recursion with pruning", "src/Corr2.cpp process11/process2/directProcess11"), ("metric bounds", "include/Metric.h tooSmallDist/tooLargeDist/isRPar*Range"), ("binning", "include/BinType.h singleBin/calculateBinK/isRSqInRange"), ("cell size bounds", "src/Cell.cpp")],
  ["Corr2.process then npairs, weight, meanr, meanlogr"])

p("C02", "Two-point correlation values are the exact projected weighted means",
  "For all supported two-point correlations (counts N, scalar K, complex scalar Z, vector V, shear G, trefoil T, quatrefoil Q) with no slop, the correlation values in a bin equal the weighted mean over that bin's pairs of the product of the two field values after each complex spin-s value has been rotated by s times the angle of the line (great circle) joining the two points. This includes imaginary parts and both the + and - combinations, in flat, spherical and 3-d coordinates.",
  ["inputs", "configurations"],
  "all catalogs and field values, all 22 two-point pairings, flat/spherical/3d coordinates, all metrics, auto and cross, both catalog orders",
  "Tests fix one random seed per pairing, mostly at moderate declinations and with auto = cross shortcuts; the projection formula has coordinate singularities and shortcuts for coincident, polar, antipodal and tiny-separation points.",
  ["src/Corr2.cpp", "include/ProjectHelper.h", "include/Cell.h", "src/Cell.cpp", "treecorr/ggcorrelation.py", "treecorr/kgcorrelation.py", "treecorr/ngcorrelation.py", "treecorr/zzcorrelation.py"],
  [("parallel transport of complex values", "include/ProjectHelper.h"), ("accumulation per pair type", "src/Corr2.cpp DirectHelper2"), ("cell averages of complex fields", "src/Cell.cpp CellData")],
  ["xi, xi_im, xip, xim, xip_im, xim_im after process"])

p("C03", "Approximation error from bin_slop and angle_slop is bounded",
  "With non-zero slop, every pair farther than the allowed slop from a bin edge is still counted in its own bin, no pair is counted more than once, and no pair is counted in a bin farther than the allowed slop from its true separation; so every cumulative pair count and weight lies between the brute-force cumulative counts at the edge shifted down and up by the slop. Field values of pairs are only mixed within cells whose angular extent is limited by angle_slop, and decreasing slop to zero recovers the exact result.",
  ["inputs", "configurations"],
  "all catalogs, all slop settings (including the defaults), all bin types, metrics, split methods and tree depth settings",
  "Tests assert loose tolerances on smooth random data, so a factor error in a cell size, a size bound or a split criterion hides inside the tolerance.",
  ["src/Corr2.cpp", "include/BinType.h", "include/Split.h", "src/Cell.cpp", "treecorr/corr2base.py"],
  [("singleBin criterion", "include/BinType.h"), ("cell size = radius of bounding ball about centroid", "src/Cell.cpp CalculateSizeSq"), ("min/max cell size passed to the tree", "treecorr/corr2base.py _get_minmax_size")],
  ["npairs/weight/xi for a slop setting against the brute-force pair list"])

p("C04", "Three-point triangle accounting and values are exact with no slop",
  "With bin_slop=0 (or brute) the LogRUV and LogSAS three-point correlations NNN, KKK and GGG count every triangle whose shape lies in the binned range exactly once per allowed vertex assignment in the bin of its true shape, with ntri, weight, the mean side lengths, logs, u, v or phi, and the (complex, Gamma0..Gamma3) values equal to the brute-force weighted sums. With ordered=True catalogs 1, 2, 3 supply vertices P1, P2, P3 respectively, and with ordered=False every assignment is allowed.",
  ["inputs", "configurations"],
  "all catalogs; auto, two-catalog and three-catalog processing; ordered and unordered; both triangle binnings and their sub-range options; flat, spherical, 3d; Euclidean, Arc and Periodic metrics",
  "The triangle recursion has many more pruning branches than the two-point one and the test catalogs are tiny fixed random sets with a single binning each (and the GGG tests are not part of the baseline).",
  ["src/Corr3.cpp", "include/Corr3.h", "include/BinType.h", "include/Process3.h", "treecorr/corr3base.py", "treecorr/nnncorrelation.py", "treecorr/kkkcorrelation.py", "treecorr/gggcorrelation.py"],
  [("triangle recursion and vertex sorting", "src/Corr3.cpp process3/process111"), ("shape binning and stop conditions", "include/BinType.h LogRUV/LogSAS"), ("Gamma projections", "include/ProjectHelper.h Project3")],
  ["ntri, weight, meand1.., meanu, meanv, meanphi, zeta, gam0..gam3 after process"])

p("C05", "Multipole three-point sums are exact and convert correctly to LogSAS",
  "With no slop the LogMultipole correlation equals the exact sum over ordered vertex triples (P1; P2 at d3, P3 at d2) of the weighted products times exp(-i n phi) for every |n|<=max_n and every (d2,d3) bin pair with coincident-pair terms excluded, for auto, two- and three-catalog processing. Converting to LogSAS gives, at every phi, the documented Fourier resummation of those multipoles, and process(algo='multipole') on a LogSAS object equals the explicit multipole run followed by toSAS.",
  ["inputs", "configurations"],
  "all catalogs, weights, max_n, binnings, ordered/unordered, patch_method, flat/spherical/3d",
  "The tests compare at one seed with a direct sum; self-pair subtraction (P2=P3), negative n symmetry and the cross-catalog orderings are conditional corrections that small smooth samples barely weigh.",
  ["src/Corr3.cpp", "include/MultipoleScratch.h", "treecorr/corr3base.py", "treecorr/kkkcorrelation.py", "treecorr/gggcorrelation.py", "treecorr/nnncorrelation.py"],
  [("per-vertex multipole accumulation and subtraction of coincident terms", "src/Corr3.cpp multipoleSplit/multipoleFinish, include/MultipoleScratch.h"), ("resummation", "treecorr/corr3base.py toSAS")],
  ["weight, zeta, ntri, meand* of LogMultipole and of toSAS"])

p("C06", "Processing by patches gives the same result as processing the whole",
  "Splitting catalogs into patches changes no correlation result: with no slop, npairs/ntri, weights, means, totals and correlation values from a patched catalog equal those of the unpatched one, for auto and cross, two- and three-point, lists of catalogs, only one side patched, empty or tiny patches, far-apart patches that are skipped, and any metric. The same holds for low_mem, saved patch files, and incremental initialize/finalize runs, and patch_method='local' gives the same correlation values as 'global'.",
  ["inputs", "configurations", "histories"],
  "all partitions of all catalogs into patches, every processing mode (global, local, low_mem, lists, initialize/finalize in pieces)",
  "Tests use a few well-populated kmeans partitions with default slop, where patched and unpatched results agree only approximately; a wrongly skipped or doubly counted patch pair is hidden for compact patches.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/nncorrelation.py", "treecorr/nnncorrelation.py", "treecorr/catalog.py", "src/Corr2.cpp", "src/Corr3.cpp"],
  [("loops over patch pairs/triples", "treecorr/corr2base.py _process_all_auto/_process_all_cross; corr3base.py"), ("skipping far-apart pairs", "_trivially_zero, src/Corr2.cpp triviallyZero"), ("normalization bookkeeping", "nncorrelation.py _add_tot")],
  ["process on patched and unpatched catalogs"])

p("C07", "Patch-based covariances equal their first-principles definitions",
  "For every two- and three-point type, multi-statistic combination and user-supplied func, each row of the jackknife design matrix equals the statistic recomputed after removing that patch's pairs/triangles, sample rows use that patch's, marked-bootstrap and bootstrap rows are the multiplicity-weighted recombination over the drawn patches, and the covariance is the documented normalisation of the centred rows. Covariances are Hermitian positive semi-definite, leave the correlation itself unchanged, are reproducible from the seeded rng, and follow every later change of the correlation's data.",
  ["inputs", "configurations", "histories"],
  "all patch numbers, statistics (xi, compensated estimators with randoms patched or not), methods, funcs and seeds; any order of process, calculateXi and covariance calls",
  "Tests compare covariance with scatter of simulations at tens of percent; index bookkeeping errors that bias the estimate by a few percent or only appear with empty patches, unpatched randoms or repeated use pass.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/nncorrelation.py", "treecorr/ngcorrelation.py", "treecorr/nnncorrelation.py"],
  [("pair iterators", "treecorr/corr2base.py *PairIterator"), ("design matrices and normalisation", "treecorr/corr2base.py _design_*/_cov_*"), ("recombining patch results", "_calculate_xi_from_pairs, _sum")],
  ["estimate_cov, build_cov_design_matrix, estimate_multi_cov, cov, varxi"])

p("C08", "Results do not depend on threads or schedule; parallel code is race-free",
  "For any number of threads and any assignment of work items to threads, two- and three-point processing, field building, kmeans and catalog coordinate generation give the same counts exactly and the same floating-point sums up to rounding of the summation order. No two threads access the same memory without synchronisation where one of them writes.",
  ["schedules", "inputs"],
  "all thread counts and interleavings of the parallel loops in processing (auto, cross, three-point, multipole), field construction, kmeans and coordinate generation",
  "The baseline tests run with a single OpenMP thread, so no interleaving at all is exercised.",
  ["src/Corr2.cpp", "src/Corr3.cpp", "src/Field.cpp", "src/KMeans.cpp", "treecorr/util.py"],
  [("per-thread accumulator copies merged in a critical section", "src/Corr2.cpp, src/Corr3.cpp process"), ("disjoint writes in parallel for", "src/Field.cpp, src/KMeans.cpp")],
  ["all public process/kmeans entry points under ThreadSanitizer with an instrumented OpenMP runtime; results across thread counts"],
  hook="none in /repo: the check links its own pthread-based OpenMP runtime")

p("C09", "Distributing patch work over MPI ranks changes nothing",
  "Running process with an MPI-style communicator over patched catalogs gives on rank 0 the same results, per-patch results and covariances as a single-process run, for any number of ranks, including more ranks than patches; every patch pair (triple) is processed by exactly one rank. Covariance calculation with a communicator gives every rank the single-process covariance.",
  ["schedules", "configurations", "inputs"],
  "all communicator sizes, patch counts, two- and three-point types, auto/cross, global/local",
  "The MPI tests need files that are not available offline, so the baseline contains no passing MPI run; those that exist use 2 or 4 ranks and large patch counts.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py"],
  [("is_my_job partition", "treecorr/corr2base.py, treecorr/corr3base.py"), ("gather on rank 0", "_process_all_* comm blocks"), ("Allreduce of design matrix", "corr2base.py _make_cov_design_matrix")],
  ["process(comm=...), estimate_cov(comm=...)"])

p("C10", "The native code is memory safe and free of undefined behaviour",
  "No sequence of public API calls with valid or rejected-as-invalid arguments makes the compiled extension read or write outside its allocations, use freed or uninitialised memory, leak what it allocates, overflow signed integers, or violate its own internal assertions. Invalid arguments produce Python exceptions, never crashes or hangs.",
  ["inputs", "histories", "configurations"],
  "all public entry points and object lifetimes, degenerate catalogs (1 object, all coincident, huge/tiny coordinates, zero weights), extreme binning, any garbage collection order",
  "The tests run an optimised build with no instrumentation where small overreads, leaks and internal assertion messages go unnoticed.",
  ["src/Cell.cpp", "src/Field.cpp", "src/Corr2.cpp", "src/Corr3.cpp", "src/KMeans.cpp", "include/Cell.h", "include/MultipoleScratch.h"],
  [("manual new/delete of cells", "src/Field.cpp, include/Cell.h"), ("raw array accumulation by bin index", "src/Corr2.cpp, src/Corr3.cpp"), ("Assert macro", "include/dbg.h")],
  ["AddressSanitizer+LeakSanitizer+UndefinedBehaviorSanitizer build of the extension driven from Python; 'Failed Assert' messages"])

p("C11", "Correlation output files round-trip",
  "Writing any two- or three-point correlation and reading it back, by read() into a like-configured object or by from_file() with no configuration, in ASCII, FITS and HDF5, restores the binning, coordinates, metric, means, correlation values, weights, counts and totals to the written precision. With write_patch_results / write_cov the per-patch results, their covariances under every method, associated random-catalog results and the covariance are restored too, so all further calculations give the same answers.",
  ["inputs", "configurations"],
  "all correlation types, bin types, file types, precisions, option combinations (sep_units, metric, rpar, periods, patches, rr/dr/rg..., covariance)",
  "Tests round-trip one configuration per type and file format, usually without non-default metric, units, TwoD shapes or zero-pair patches.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/reader.py", "treecorr/writer.py", "treecorr/config.py", "treecorr/nncorrelation.py", "treecorr/nnncorrelation.py", "treecorr/ngcorrelation.py"],
  [("column and header writers", "_write, _write_data, _write_params"), ("readers", "_read, _read_from_data, from_file"), ("minimal config", "treecorr/config.py make_minimal_config")],
  ["write / read / from_file"])

p("C12", "Catalogs load identically from arrays and from every file format",
  "A Catalog read from ASCII, FITS, HDF5 or Parquet files has exactly the values of a Catalog built from the same arrays, after applying the selected columns, extensions, units, first_row/last_row/every_nth, flips, eval expressions and per-catalog (num) list settings; Catalog.write followed by reading gives an equal Catalog. The loaded result does not depend on whether loading is lazy, repeated after unload, restricted to one patch, or triggered through copies and pickles.",
  ["inputs", "configurations", "histories"],
  "all column subsets, file types, delimiters, row selections, units, flips and lazy-load histories",
  "Tests check particular files; combinations (row slicing with patch selection, reload after unload with flips or flags, list-valued settings) are not covered.",
  ["treecorr/catalog.py", "treecorr/reader.py", "treecorr/writer.py", "treecorr/config.py"],
  [("column selection and slicing", "treecorr/catalog.py _read_file"), ("format readers", "treecorr/reader.py"), ("post-processing", "treecorr/catalog.py _finish_input")],
  ["Catalog attributes after load; Catalog.write"])

p("C13", "Flags, NaNs, weights and units in catalogs are cleaned consistently",
  "Rows that are flagged, have a NaN in any used column, or have zero (position) weight contribute to no weighted sum and, unless keep_zero_weight is set, are absent from the catalog; all other rows survive unchanged, in order and aligned across columns. nobj, ntot, sumw, the field variances and means, angular unit conversion and xyz coordinates equal their definitions on the surviving rows, and the caller's input arrays and configuration are never modified.",
  ["inputs", "configurations"],
  "all column combinations, flag masks, NaN patterns, weights/wpos, keep_zero_weight, unit choices, select() calls",
  "Tests inject NaNs or flags one at a time in one construction style; interaction of NaN, flag, wpos and selection is unexplored.",
  ["treecorr/catalog.py", "src/Field.cpp"],
  [("cleaning pipeline", "treecorr/catalog.py _finish_input/checkForNaN"), ("selection", "treecorr/catalog.py select"), ("xyz generation", "src/Field.cpp GenerateXYZ")],
  ["Catalog attributes after construction; caller's arrays after construction"])

p("C14", "Patches partition the catalog according to their centers",
  "Assigning patches from centers puts each object in a patch whose center is nearest to it, with the same assignment however it is obtained (whole catalog, single-patch load, field method, kmeans result); kmeans returns exactly npatch non-trivial labels whose centers are the weighted mean positions of the patches' objects and never a worse partition than its initial state. The patches of a catalog are disjoint, cover it, preserve every column and summed weight, and survive writing to and reading from patch files, as do patch centers.",
  ["inputs", "configurations"],
  "all catalogs, coordinate systems, patch counts, init methods, algorithms, weights and seeds",
  "Tests check aggregate inertia statistics on large smooth samples; ties, tiny patches, heavy-tailed weights and mixed entry points are not tested for exact agreement.",
  ["src/KMeans.cpp", "treecorr/field.py", "treecorr/catalog.py"],
  [("tree-accelerated nearest-center assignment with bounds", "src/KMeans.cpp"), ("QuickAssign/SelectPatch direct assignment", "src/KMeans.cpp"), ("get_patches/write_patches/read_patches", "treecorr/catalog.py")],
  ["run_kmeans, kmeans_assign_patches, Catalog(patch_centers=...), Catalog.patches"])

p("C15", "Correlation objects obey copy, combine and reuse semantics",
  "Any history of process, process with initialize/finalize split, +=, copy, pickle, clear, cache and covariance operations leaves each correlation object equal to one freshly computed from the data it represents; operations on a copy never affect the original. Processing never alters the catalogs or another correlation, and results do not depend on what was previously computed or cached on the same catalogs.",
  ["histories", "inputs"],
  "all operation sequences over a set of correlation objects and catalogs, for two- and three-point types",
  "Tests exercise fixed scripts of two or three operations; stale caches and shared arrays show only for particular sequences.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/catalog.py", "treecorr/util.py", "treecorr/field.py"],
  [("LRU field cache", "treecorr/util.py LRU_Cache; catalog.py get?Field"), ("lazy C++ object sharing numpy buffers", "corr property"), ("clear/_clear/__iadd__/copy/__getstate__", "treecorr/corr2base.py, corr3base.py")],
  ["object state after each operation compared to a model"])

p("C16", "Field queries and pair sampling return exactly what they promise",
  "count_near and get_near on a Field return exactly the objects within the given separation of the point; sample_pairs returns n pairs (all of them when fewer exist), without repetition, whose indices refer to the catalogs' objects, whose reported separations are their true separations and lie in the requested range, and which are drawn uniformly and reproducibly from the seeded rng.",
  ["inputs", "configurations"],
  "all catalogs, coordinates, metrics, query points, separations, sample sizes and slop settings",
  "Tests query a handful of points in one random catalog per coordinate system.",
  ["src/Field.cpp", "src/Corr2.cpp", "treecorr/field.py", "treecorr/corr2base.py"],
  [("tree search", "src/Field.cpp CountNear/GetNear"), ("reservoir-like sampling", "src/Corr2.cpp SamplePairs")],
  ["Field.count_near, Field.get_near, Corr2.sample_pairs"])

p("C17", "Estimators and shot-noise variances follow their definitions",
  "The xi of count correlations from data and randoms (simple, Landy-Szalay and their cross and three-point forms), the compensated NG/NK/NZ/NV/NT/NQ estimators, and their associated weights and variances equal their defining formulas on the bin sums, for any catalog sizes and weights, with or without cross terms and patches. Shot-noise varxi equals the documented product of field variances divided by the bin weight.",
  ["inputs", "configurations"],
  "all data/random combinations (DD, RR, DR, RD; DDD..RRR), weighted catalogs, patched or not, bins with no random pairs",
  "Tests use large smooth random catalogs and physical tolerances, so errors of normalisation in weighted, mixed or sparse cases pass.",
  ["treecorr/nncorrelation.py", "treecorr/nnncorrelation.py", "treecorr/ngcorrelation.py", "treecorr/nkcorrelation.py", "treecorr/ggcorrelation.py", "treecorr/catalog.py"],
  [("calculateXi", "treecorr/nncorrelation.py"), ("calculateZeta", "treecorr/nnncorrelation.py"), ("finalize", "treecorr/*correlation.py")],
  ["calculateXi/calculateZeta outputs, varxi, cov"])

p("C18", "Derived aperture statistics are the documented transforms of xi",
  "calculateMapSq, calculateGamSq, calculateNMap, NNCorrelation.calculateNapSq, writeNorm and the three-point calculateMap3 return the documented linear transforms of the correlation bins: each output is linear in the correlation values, uses only bins with weight, agrees with the defining kernel sum over bins for any aperture radius, and propagates the diagonal variance accordingly.",
  ["inputs", "configurations"],
  "all correlation contents, binnings, R arrays, m2_uform / k2,k3 options",
  "Tests compare one theoretical shear model within physical tolerance; a wrong kernel branch for a range of r/R or option value passes.",
  ["treecorr/ggcorrelation.py", "treecorr/ngcorrelation.py", "treecorr/nncorrelation.py", "treecorr/gggcorrelation.py"],
  [("kernel sums", "treecorr/ggcorrelation.py calculateMapSq/calculateGamSq; gggcorrelation.py calculateMap3")],
  ["return values of the calculate* functions"])

p("C19", "The corr2 and corr3 programs do what their configuration says",
  "Running corr2/corr3 (as executables or functions) on a configuration in any supported syntax, with command-line overrides, writes for every requested output the same file contents as the corresponding Python API calls on the same inputs, including cross-correlations, randoms, lists of files and patches. Configuration values are parsed and type-checked the same from every source; unknown or invalid parameters are rejected with an error instead of being ignored.",
  ["inputs", "configurations"],
  "all combinations of requested outputs, input files, config syntaxes and overrides",
  "Tests run a handful of fixed configs (several need unavailable data files).",
  ["treecorr/exec_corr2.py", "treecorr/exec_corr3.py", "treecorr/config.py", "scripts/corr2", "scripts/corr3", "treecorr/catalog.py"],
  [("config parsing/merging/checking", "treecorr/config.py"), ("driver", "treecorr/exec_corr2.py, exec_corr3.py"), ("catalog lists", "treecorr/catalog.py read_catalogs")],
  ["output files of corr2/corr3; parsed config"])

p("C20", "Binning is well formed and arguments are validated",
  "Any three consistent binning parameters give contiguous, monotonic bins that cover exactly [min_sep,max_sep] with the documented centers, edges and sizes in the requested units; equivalent specifications give equal binning, also for the u, v, phi and multipole axes. Inconsistent or invalid parameters, catalogs and method calls are rejected by an exception, leaving catalogs and other objects unchanged and the correlation usable (a rejected process() may clear the correlation it was called on).",
  ["inputs", "configurations"],
  "all parameter combinations, units and bin types, and invalid calls",
  "Tests assert on a few parameter sets per bin type; rounding of nbins/bin_size and unit conversion interact for unusual ratios.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/config.py", "treecorr/util.py"],
  [("binning set-up", "Corr2.__init__, Corr3.__init__"), ("validation", "check_config, _set_metric, __iadd__")],
  ["nbins, bin_size, min_sep, max_sep, rnom, edges; exceptions"])

p("C21", "Correlations respect the symmetries of the problem",
  "Results are unchanged (up to rounding) when the objects are permuted, translated or rotated together with their fields (as far as the geometry is symmetric), expressed in other angular units, split into equivalent weights, or rescaled together with the separation range; exchanging the two catalogs of a same-type correlation gives the same or the conjugate result, reflection conjugates it, and scaling weights or field values scales the outputs accordingly.",
  ["inputs", "configurations"],
  "all catalogs and transformations, all two- and three-point types, default and zero slop where the symmetry is exact",
  "Unit tests evaluate one orientation; relations between two runs are rarely tested.",
  ["src/Corr2.cpp", "src/Corr3.cpp", "include/ProjectHelper.h", "include/Metric.h", "treecorr/catalog.py"],
  [("position handling", "include/Position.h"), ("projection", "include/ProjectHelper.h"), ("units", "treecorr/catalog.py, treecorr/corr2base.py")],
  ["pairs of related runs"])

p("C22", "Low-memory processing keeps at most the needed patches loaded",
  "With low_mem=True and file-backed patches, processing never holds more than two patches' data (three for three-point) in memory at a time, leaves the patches unloaded afterwards, and gives results identical to the in-memory run. Field caches never hold more than the configured number of fields, and unload/clear_cache release them.",
  ["histories", "configurations"],
  "all patch counts, auto/cross, two-/three-point, variance methods, cache sizes and operation sequences",
  "Tests measure total memory of one large run with slack; a patch left loaded or a field kept alive goes unnoticed.",
  ["treecorr/corr2base.py", "treecorr/corr3base.py", "treecorr/catalog.py", "treecorr/util.py"],
  [("unload calls in the patch loops", "_process_all_*"), ("LRU_Cache", "treecorr/util.py"), ("Catalog.unload/clear_cache", "treecorr/catalog.py")],
  ["load/unload events of patch catalogs, live field objects"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P), "properties")
