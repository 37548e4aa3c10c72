#!/usr/bin/env python3
"""Writes known_findings.json (open findings and repaired defects) from the lists below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ('C01', 'Arc metric with 3d coordinates folded', 'pairs more than 90 degrees apart were binned at pi minus their separation (Arc, 3d coordinates)'),
 ('C05', 'x-projection of three shears', 'LogMultipole GGG with 3d coordinates: the second shear was never projected'),
 ('C10', 'spurious assert failure for pairs', 'Failed Assert(logr >= _logminsep) for a pair at exactly min_sep'),
 ('C01', 'pairs at wide angles were miscounted', 'min_rpar/max_rpar dropped or kept the wrong pairs when cells span a wide angle; Rlens used the scaled size'),
 ('C01', 'pairs could be put in the wrong bin with very wide', 'bin_slop=0 with bin_size > 1.4 put pairs into a neighbouring bin'),
 ('C01', 'Arc metric underestimated the angular sizes', 'bin_slop=0 with Arc put pairs of large cells into a neighbouring bin'),
 ('C01', 'TwoD binning with min_sep', 'TwoD with min_sep>0 kept pairs below min_sep or dropped pairs above it at bin_slop=0'),
 ('C01', 'OldRperp with brute=True combined', 'OldRperp with brute=True did not split cells at exactly equal distances (inf became nan under -ffast-math)'),
 ('C03', 'Linear and TwoD bin_slop ignored sep_units', 'Linear/TwoD with sep_units other than radians used b in those units: pairs leaked by many bins or far less than asked'),
 ('C03', 'min_rpar and max_rpar leaked by the minimum', 'Euclidean with min_rpar/max_rpar and slop: pairs outside the rpar range counted and pairs inside dropped (cells not split below min_size)'),
 ('C20', 'implicit min_v from max_v', 'max_v, nvbins and vbin_size without min_v could give a negative min_v'),
 ('C20', 'phi_bin_size was taken to be in radians', 'phi_bin_size was not converted from phi_units'),
 ('C20', '+= accepted a two-point correlation with a different bin_type', 'adding a Linear correlation to a Log one with the same ranges was accepted'),
 ('C20', 'reject non-positive nbins', 'nbins or bin_size <= 0 and negative separations were accepted'),
 ('C20', 'metrics invalid for three-point', 'three-point process(metric=Rperp etc.) returned all zeros instead of raising'),
 ('C20', 'Periodic metric with spherical', 'Periodic with spherical coordinates returned all zeros instead of raising'),
 ('C01', 'Arc metric compared cell sizes', 'Arc with 3d coordinates: cells smaller (in length units) than half of min_sep (radians) were dropped, e.g. positions of order 0.01 lost all pairs'),
 ('C04', 'LogSAS with the Arc metric used unnormalised', 'LogSAS, Arc with 3d coordinates: phi computed from unnormalised positions (ntri in wrong phi bins)'),
 ('C04', 'LogSAS meanphi of empty bins', 'LogSAS meanphi of bins without triangles was in radians whatever phi_units'),
 ('C04', 'LogSAS with min_phi > 0 lost triangles', 'LogSAS with min_phi>0 (especially > 1 rad) lost triangles whose points 2, 3 share a small cell'),
 ('C04', 'LogSAS early-stop tests on phi', 'LogSAS with min_phi > pi/2, max_phi < pi/2 or wide Arc separations lost triangles'),
 ('C04', 'LogSAS with ordered=True dropped', 'LogSAS, three catalogs ordered, sphere or 3d: cells of the other orientation were dropped though some of their triangles qualify'),
 ('C04', 'three-point Arc metric compared raw cell', 'three-point Arc used cell sizes in length units instead of radians to decide which cells to skip'),
 ('C04', 'LogSAS with the Periodic metric dropped', 'LogSAS, flat Periodic: triangles in cells straddling the periodic boundary were dropped by the orientation and phi stops (e.g. 3 catalogs, ordered=True)'),
 ('C04', 'LogRUV early-stop tests on v', 'LogRUV with min_v>0 or max_v<1, Arc with separations of order a radian: triangles lost'),
 ('C05', 'LogMultipole meanlogd3 used the wrong', 'LogMultipole, two or three catalogs unordered: meanlogd3 wrong in off-diagonal bins'),
 ('C05', 'LogMultipole with the Arc metric converted', 'LogMultipole, Arc: the angular size of c1 was converted again for each c2, so pairs were dropped or mis-binned (3-d catalogs)'),
 ('C05', 'LogMultipole with the Periodic metric', 'LogMultipole, Periodic: pairs that wrap around entered with exp(i phi) of modulus much different from 1'),
 ('C06', 'between same-numbered patches of different', 'a list of two catalogs with the same patch numbers: pairs between their same-numbered patches were never counted'),
 ('C06', 'keep the tot value of patch pairs', 'NN/NNN tot lost the contribution of patch pairs skipped as too far apart'),
 ('C06', 'patch_method=local keeps all objects', 'patch_method=local dropped objects within max_sep (3-d, Periodic, TwoD corners)'),
 ('C06', 'skip patch triples based on Euclidean', 'three-point patches with the Periodic or 3-d Arc metric: triples skipped although close'),
 ('C06', 'tot of three-point counts with patch_method=local', 'NNN tot three times too large with patch_method=local'),
 ('C06', 'TwoD auto-correlations of patches count pairs', 'TwoD auto-correlation of patches counted cross-patch pairs in only one of the two opposite bins'),
 ('C06', 'save_patch_dir with patch numbers', 'save_patch_dir with patch numbers without objects: wrong files or OSError'),
 ('C06', 'tot of TwoD auto-correlations with patch_method=local', 'TwoD NN auto with patch_method=local: tot twice the value for the same npairs'),
 ('C06', 'low_mem processing of files when some patch centers', 'low_mem with patch_centers that get no objects: ValueError or failed assert'),
 ('C07', 'subtract the imaginary part of the randoms', 'design rows of NG, NV, ... did not subtract the randoms from xi_im'),
 ('C07', 'dummy patch results for compensated', 'NK, NG, ... compensated with patch pairs missing from the data: npairs, meanr and xi_im of an unrelated pair were included'),
 ('C07', 'identify unpatched randoms from the number', 'covariance with unpatched randoms when the selected pairs all start with patch 0, or when the second catalog has no patches'),
 ('C07', 'scale an unpatched RR correctly', 'NN cross-correlation with one patched catalog and unpatched RR: xi of the design rows was scaled by a wrong area fraction'),
 ('C07', 'do not report weight 1 for empty bins', 'NN and NNN design weights of empty bins were 1, so var_method=sample weighted patches wrongly'),
 ('C07', 'patch_method=local when only some of the catalogs', 'covariance after patch_method=local with only the first catalog patched raised IndexError'),
 ('C07', 'recompute variances and covariances after adding', 'varxi and cov were those of the earlier data after += or process(initialize=False)'),
 ('C07', 'covariance after processing more patches with initialize=False', 'patch pairs that appeared in a later process(initialize=False) were left out of the covariance'),
 ('C07', 'forget xi, zeta and the randoms', 'NN and NNN kept the randoms, xi and zeta of earlier data after process or clear'),
 ('C07', 'covariance of NK, NG, ... after calculateXi with different', 'cov after calculateXi() without randoms was still that of the compensated estimate, raw_varxi could be the compensated variance'),
 ('C17', 'shot-noise cov and varxi of NK, NG', 'cov (var_method=shot) of NK, NG, ... never included the randoms term; varxi with patches lacked the rk term given to calculateXi'),
 ('C17', 'use the user-specified variances also', 'vark, varg, ... given by the user were ignored as soon as the catalog has patches'),
 ('C17', 'shape of NNCorrelation.varxi with TwoD', 'NNCorrelation.varxi was flat for TwoD binning'),
 ('C18', 'writeNorm takes the documented rd', 'NGCorrelation.writeNorm ignored/rejected the documented rd parameter'),
 ('C18', 'calculateNMap and calculateNapSq reject', 'calculateNMap, calculateNapSq silently returned wrong integrals for Linear binning'),
 ('C13', 'Catalog.select forgets', 'Catalog.select kept varg, vark, name, fields cached from the unselected data'),
 ('C13', 'flags with an integer patch', 'flag with patch=<int> and ok_flag kept the wrong rows or failed'),
 ('C13', 'rows with NaN values get wpos=0', 'rows with NaN values stayed in the catalog (wpos nonzero) and moved cell centres and ntot'),
 ('C13', 'lists of units and other values', 'lists of units (one per catalog) were rejected by check_config'),
 ('C13', 'patch given as an array with a single element', 'patch given as an array of length 1 was rejected or taken for a column'),
 ('C13', 'check the lengths of flag', 'flag, or ra/dec given with x,y, of another length was accepted and misaligned'),
 ('C13', 'slice made non-contiguous', 'Catalog.select with a strided slice gave arrays whose memory was read with the wrong stride'),
 ('C12', 'allow one component of a field', 'one component of a field as a column and the other as an eval string was rejected'),
 ('C12', 'eval strings with numbers that match ASCII', 'eval strings with numbers: digits within names or numbers were taken for ASCII column numbers'),
 ('C12', 'reading selected rows of Parquet', 'Parquet files with first_row/last_row/every_nth failed or returned the wrong rows'),
 ('C12', 'Catalog ignored patch_eval', 'patch_eval was ignored'),
 ('C12', 'single patch from patch_centers with columns in different', 'reading a single patch by patch_centers with columns in several extensions failed'),
 ('C12', 'reading a single patch with npatch', 'reading a single patch with npatch and row limits, or without objects, failed'),
 ('C12', 'reading a single value from an ASCII', 'ASCII file with a single row and column failed without pandas'),
 ('C12', 'a patch without objects of a catalog file with weights', 'reading a patch without objects of a file with weights raised ValueError'),
 ('C14', 'npatch given along with patch numbers', 'npatch given along with patch numbers was overwritten by max(patch)+1'),
 ('C14', 'read_patches of an unloaded catalog when some', 'read_patches of an unloaded catalog failed when a patch number had no objects'),
 ('C14', 'kmeans tree initialization gave some', 'kmeans init=tree gave points more than one center (duplicate centers)'),
 ('C14', 'kmeans moved the centers of patches without any weight', 'kmeans moved the centre of patches without weight to the origin'),
 ('C14', 'kmeans++ initialization failed when a cell', 'kmeans init=kmeans++ failed an assert with coincident points'),
 ('C14', 'objects equidistant from two patch centers', 'objects equidistant from two patch centers belonged to both single patches'),
 ('C14', 'rejected its documented num_threads', 'Catalog(num_threads=...) was rejected though documented'),
 ('C14', 'read_patches dropped the objects with zero weight', 'read_patches dropped the zero-weight objects despite keep_zero_weight'),
 ('C14', 'get_patches with low_mem ignored num', 'get_patches(low_mem=True) of a file catalog ignored num and is_rand'),
 ('C14', 'unloaded catalog ignored eval strings', 'read_patches of an unloaded catalog dropped columns given by eval strings and ignored num and is_rand'),
 ('C14', 'where all objects have zero weight', 'reading a patch (patch_centers) of a file where all objects have zero weight raised ValueError'),
 ('C14', 'disagree with the whole catalog about rounding', 'objects equidistant from two centers within rounding were in two single patches or in none'),
 ('C06', 'pairs of large patches on the sphere could be skipped', 'patches extending over a large part of the sphere: the distance of patches used the normalized mean position, the size did not, so pairs of patches within range could be skipped'),
 ('C06', 'wrong tot for three-catalog counts with patches', 'NNN process(a, b, b) with patches: patch triples without weight from the last two patches being the same object entered tot with a factor 1/2'),
 ('C06', 'the field variance of a patch of a file without valid objects', 'varxi was NaN when some patch of a catalog file has only zero-weight objects'),
 ('C15', 'the covariance after another process call used the randoms', 'process(initialize=False) after calculateXi(rk): varxi and cov of the new result were computed with the randoms of the earlier call'),
 ('C15', 'clear did not forget the catalogs', 'clear() or initialize=True after process(finalize=False): the variance of the next result included the catalogs of the discarded one'),
 ('C15', 'changing the random correlations after calculateXi', 'calculateXi kept a reference to the given random correlations, so processing those again changed the covariance'),
 ('C15', 'after an error in computing varxi', 'an exception in the lazy computation of varxi left zeros behind, returned by the next access'),
 ('C15', 'operations on a copy of a correlation', 'copy() shared the results dict and the list of processed catalogs with the original'),
 ('C16', 'get_near could return garbage indices', 'get_near: the number of indices found could differ from the number counted before for points at rounding distance from the limit'),
 ('C16', 'assertions in count_near and get_near', 'count_near and get_near aborted with a failed assertion from rounding in cell sizes'),
 ('C16', 'sample_pairs used fields that were built for something else', 'sample_pairs took the last field built from the catalog whatever its min_size, max_size or coordinates'),
 ('C16', 'sample_pairs with ranges that do not match', 'sample_pairs with a range beyond or between the bins of the correlation returned pairs outside of it or none'),
 ('C16', 'sample_pairs could return garbage pairs', 'sample_pairs returned uninitialized entries when fewer pairs were found than counted'),
 ('C16', 'get_near and count_near of spherical fields of catalogs with distances', 'get_near/count_near for ra,dec queries of catalogs with r and min_size > 0 pruned cells by the wrong size'),
 ('C16', 'count_near and get_near with separations larger than 180', 'count_near/get_near with sep > 180 degrees returned few objects instead of all'),
 ('C11', 'processing an object after reading a file corrupted memory', 'process() after read() wrote results to freed arrays'),
 ('C11', 'ASCII file with a covariance matrix but no patch results', 'reading it back failed'),
 ('C11', 'ASCII file whose patch results all have no pairs', 'reading it back failed'),
 ('C11', 'complex covariance matrix could not be read from HDF5', 'estimate_cov/GGG: reading failed'),
 ('C11', 'options given as None could not be written', 'writing to HDF5 failed'),
 ('C11', 'brute=1 or 2 could not be read', 'reading from HDF5 failed'),
 ('C11', 'read kept xi, covariance and patch pairs', 'stale results after read()'),
 ('C11', 'shot-noise covariance was zero after reading', 'cov of an object read from a file was zero'),
 ('C11', 'brute=True read from an HDF5 file', 'brute=True became brute=1, i.e. only field 1 exact'),
 ('C11', '1x1 covariance matrix', 'reading an ASCII file with one bin and cov failed'),
 ('C11', 'complex covariance matrices could not be written to FITS', 'writing or reading failed'),
 ('C11', 'jackknife samples without any pairs', 'rows without pairs corrupted following rows of the covariance'),
 ('C19', 'lists of delimiters or comment markers failed', 'a config value with one delimiter per catalog failed'),
 ('C19', 'lists of variances of the fields', 'vark etc. given as a list of two failed'),
 ('C19', 'flip options failed for catalogs without that field', 'corr2 with flip_g1 and randoms without shear failed'),
 ('C19', 'a single name for extra_cols', 'extra_cols = abc read columns a, b, c'),
 ('C09', 'patch results of concatenated catalogs from several MPI processes', 'per-patch results from several ranks replaced each other instead of adding'),
 ('C09', 'incremental processing with MPI', 'initialize=False calls with comm counted earlier results of ranks>0 again'),
 ('C22', 'resize_cache before the first field', 'Catalog.resize_cache before the first field had no effect (e.g. caching could not be turned off); clear_cache/unload left fields in memory until garbage collection; LRU_Cache with maxsize=0 failed'),
 ('C22', 'patches saved from a file with x_units', 'low_mem with save_patch_dir and a file with x_units: patches were read back in the wrong units; write_patches of lazy patches left all of them loaded'),
 ('C22', 'low_mem processing of three catalogs and expanded', 'low_mem cross-correlations of three catalogs kept 4 patches loaded; an expanded patch without neighbours left one loaded'),
 ('C08', 'data race in the lazily cached norms', 'Position::norm() of cells stored its lazily computed value without synchronisation while other threads read it (ThreadSanitizer)'),
 ('C14', 'kmeans++ centers of brute-force fields', 'kmeans_initialize_centers(init=kmeans++) of a field made with brute=True returned all-zero centers (infinite cell sizes; Failed Assert printed)'),
 ('C10', 'memory leak of the averages', 'memory of the averages of cells above the top layer was never freed'),
 ('C10', '(nearly) endless loops with the Periodic', 'Periodic metric looped (nearly) for ever for positions many periods away'),
 ('C10', 'out of bounds accesses for kmeans centers', 'kmeans_assign_patches / kmeans_refine_centers read and wrote out of bounds for centers of another shape or type'),
 ('C10', 'fields of catalogs without the needed columns', 'KField etc. of a catalog without the column read out of bounds'),
 ('C10', 'undefined bin index of coincident', 'sample_pairs with Log bins and min_sep=0: conversion of -inf to a bin index for coincident objects'),
 ('C10', 'cells with sizes too small for a float', 'get_near and others took cells of size < 1e-38 for leaves and used child pointers as index lists'),
]
OPEN = [
 dict(id='C09-empty-sample-weight', property='C09', status='open',
      where='NNCorrelation/NNNCorrelation._calculate_xi_from_pairs',
      what='With randoms, the weight of a sample that has no pairs at all is the one left by the '
           'sample calculated before it, which with MPI is a different one; the sample covariance '
           'then depends on the number of ranks. (test_nn_jk relies on a non-zero weight.)',
      matched_by='NN/NNN with randoms, rows of the design matrix without pairs'),
 dict(id='C11-nk-randoms', property='C11', status='open',
      where='NKCorrelation.write(rk=), NZ/NV/NG/NT/NQCorrelation.write(rz= ...)',
      what='Files of compensated NK, NG, NV, ... correlations (written with randoms) hold neither '
           'the randoms nor raw_xi: after reading, raw_xi is the compensated xi and covariances '
           'from the patch results are those of the uncompensated correlation.',
      matched_by='objects read from a file that was written with rk=/rz=/rv=/rg=/rt=/rq='),
 dict(id='C14-kmeans-empty', property='C14', status='open',
      what='the standard k-means algorithm can leave patches empty (documented as impossible): an '
           'iteration empties a patch, or tree initialization repeats a center because of '
           'coincident objects'),
 dict(id='C14-catalog-rng', property='C14', status='open',
      what='Catalog(npatch, rng=...) does not use its rng for the k-means patches, so they are not '
           'reproducible (repairing it changes the random sequence that existing tests depend on)'),
 dict(id='C02-periodic-projection', property='C02', status='open',
      where="ProjectHelper<Flat>::Project (include/ProjectHelper.h) called from the two-point accumulation for metric='Periodic'",
      what='Spin fields (V,G,T,Q) with the Periodic metric on flat coordinates: pairs whose separation wraps around the box are projected along the unwrapped p2-p1 instead of the wrapped separation that defines their distance.',
      matched_by='a result that differs from the definition but equals, in every bin, the definition with the unwrapped direction'),
 dict(id='C04-periodic-projection', property='C04', status='open',
      where="ProjectHelper<Flat>::Project for three points, metric='Periodic'",
      what='GGG LogRUV/LogSAS with the Periodic metric on flat coordinates: shears of triangles that wrap around the box are projected toward the unwrapped centroid.',
      matched_by='a result that differs from the definition but equals, in every bin, the definition with the unwrapped centroid'),
 dict(id='C05-periodic-projection', property='C05', status='open',
      where="ProjectHelper<Flat>::ProjectWithSq from DirectHelper<GData,GData,GData>::CalculateGn, metric='Periodic'",
      what='GGG LogMultipole with the Periodic metric on flat coordinates: the shears at points 2 and 3 are projected along the unwrapped separation.',
      matched_by='a result that differs from the definition but equals, in every bin, the definition with unwrapped projection directions'),
 dict(id='C05-coincident', property='C05', status='open',
      where='BaseCorr3::calculateZeta/calculateGn and BaseCell::calculateSumWSq (src/Corr3.cpp, src/Cell.cpp)',
      what='LogMultipole with distinct objects at exactly the same position: triangles with points 2 and 3 at that position are excluded if the objects share a leaf of the tree and included otherwise (e.g. with brute=True).',
      matched_by='a catalog with coincident objects whose result lies within the sum of exactly those triangles of the definition'),
 dict(id='C06-local-selfpairs', property='C06', status='open',
      where="Corr2._process_all_auto with patch_method='local' (treecorr/corr2base.py)",
      what='Linear bins starting at 0 with patch_method=local: every object is also paired with itself (separation 0) and counted in the first bin.',
      matched_by='an auto-correlation whose first bin has exactly the number of objects too many and whose other bins agree'),
 dict(id='C06-sas-incremental', property='C06', status='open',
      where='Corr3.process with bin_type=LogSAS and the (default) multipole algorithm (treecorr/corr3base.py)',
      what='process(..., initialize=False) discards what earlier calls accumulated, so only the last call survives.',
      matched_by='a multi-call LogSAS multipole result equal to that of its last call alone'),
 dict(id='C13-zero-weight-npairs', property='C13', status='open',
      where='BaseCorr2::process11 (src/Corr2.cpp) skips cells with zero weight; keep_zero_weight documentation in treecorr/catalog.py',
      what='With keep_zero_weight the zero-weight objects are documented to be included in npairs; they are left out (with slop they are counted only if they share a cell with weighted objects).',
      matched_by='brute-force npairs of a keep_zero_weight catalog that equals the number of pairs of non-zero-weight objects'),
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines()
fixed = []
for prop, key, what in FIXED:
    m = [l.split()[0] for l in log if key in l]
    assert len(m) == 1, (key, m)
    fixed.append('fixed: property=%s %s %s' % (prop, m[0], what))
json.dump(dict(findings=OPEN, fixed=fixed), open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
