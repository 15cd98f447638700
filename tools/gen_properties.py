"""Writes /verif/properties.jsonl (the source of the properties, one P(...) per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
ROWS = []
def P(id, title, statement, over, qtext, why, files, mechanism, observe, hook=None):
    assert len(title) <= 80, title
    ROWS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

E = 'src/eustace/'; U = 'src/eumopps/'; A = E + 'analysis/'; S = A + 'advanced_standard/'

P('C01', 'A saved catalogue loads back unchanged in every storage format',
  'A catalogue of data sets, their subsets and file matches, and operations, saved as NetCDF or as JSON and loaded again, is the catalogue that was saved: identifier, every file match with its name, time, tags, size and checksum, and every operation with its steps, inputs and outputs. '
  'The reduced reads that the scheduler uses (number of operations, one named operation with its data sets) agree with the full read.',
  ['inputs', 'histories'], 'every catalogue: any number of data sets, subsets, matches (including none), any text in names and tags, missing matches, several save/load generations',
  'Tests round-trip one or two hand-written catalogues; ragged, empty, masked and repeated entries and second-generation files are never generated.',
  [U+'catalogue/fileio/formatnetcdf.py', U+'catalogue/fileio/formatjson.py', U+'netcdfobjects/netcdfobjects.py', U+'jsonobjects/jsonobjects.py', U+'catalogue/catalogue.py', U+'catalogue/dataset.py'],
  [('NetCDF object reader/writer', U+'netcdfobjects/netcdfobjects.py'), ('catalogue NetCDF format', U+'catalogue/fileio/formatnetcdf.py'), ('JSON object encoding', U+'jsonobjects/jsonobjects.py')],
  ['catalogue objects before save and after load', 'files written'])

P('C02', 'Every operation step runs exactly once with the files of its own time',
  'When an operation is resolved against a catalogue and run as numbered tasks or as batches of any size, every step from the first to the last is carried out exactly once, and nothing beyond the last. '
  'Each step is given the input files whose times belong to that step and output names made from that step, a step with a required input missing is never run with other files, and a missing optional input is passed on as missing. '
  'Jobs submitted to the scheduler of the cluster cover the steps of each requested operation likewise, and none may start before the operations of the earlier stages are done.',
  ['inputs', 'configurations', 'histories'], 'every step definition (daily, annual, monthly, once), start and end, batch size, node and task layout, and every pattern of available and missing input files',
  'Tests resolve a handful of fixed step ranges with all files present and check one batch layout; the exactly-once statement quantifies over all ranges, batch sizes and gaps.',
  [U+'catalogue/operation.py', U+'catalogue/operationparameters.py', U+'catalogue/placeholder.py', U+'catalogue/step.py', U+'catalogue/commandrun.py', U+'catalogue/commandcount.py', U+'catalogue/multiplecommandsrun.py', U+'catalogue/jinja/batches.py', 'src/roses/fullstace/advanced_standard/lsf_submission.py', 'src/roses/fullstace/advanced_standard/lsf_submission_group.py', S+'examples/placeholder.py', S+'examples/step.py', S+'fileio/step.py'],
  [('operation reference resolution', U+'catalogue/operation.py'), ('placeholders', U+'catalogue/placeholder.py'), ('batch command', U+'catalogue/commandrun.py'), ('submission to the scheduler', 'src/roses/fullstace/advanced_standard/')],
  ['arguments received by the run function of each task', 'operation counts and batch lists'])

P('C03', 'File search finds exactly the matching files, with their times and checksums',
  'Building the record of a data set from a directory tree lists exactly the files that fit the search patterns of its subsets, each with the time and tags written in its name. '
  'Sizes and checksums recorded are those of the file contents, whatever the number of worker threads and the order in which the file system lists files, a changed file gets another record, and a file that cannot be read is recorded without size and checksum, never with those of another.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'every directory tree, name pattern, tag, time, number of threads, and every later modification or removal of files',
  'Tests use a fixed small directory; wildcard near-misses, duplicate times, threads and later file damage are not explored.',
  [U+'catalogue/dataset.py', U+'catalogue/namepatterns.py', U+'catalogue/storage.py', U+'catalogue/search.py', U+'catalogue/checksum.py', U+'catalogue/build.py'],
  [('name pattern matching', U+'catalogue/namepatterns.py'), ('search and checksum', U+'catalogue/dataset.py')],
  ['matches, non-matches and value errors of the built data set', 'checksum fields'])

P('C04', 'Day numbers, time steps and calendar dates convert without drift',
  'Converting a time to its number in any time base and back gives the same time, numbers increase with time, and a whole day always counts as exactly one day from the epoch, in the Python and the C++ library alike. '
  'For every step definition the index of a step start is the number of that step, each time inside a step belongs to that step and no other, and the number of steps equals the number of indices from first to last.',
  ['inputs', 'configurations'], 'all dates the library handles including leap days, century years, dates before the epoch, times within a day, and all start/end pairs of every step kind',
  'Tests convert a few chosen dates; off-by-one errors sit at leap years, range ends and pre-epoch dates.',
  [U+'timeutils/timebase.py', U+'timeutils/datetime_numeric.py', U+'timeutils/datetime_dictionary.py', U+'catalogue/step.py', E+'timeutils/epoch.py', E+'timeutils/decimaltime.py', S+'examples/stepmidmonth.py', S+'examples/step.py', S+'fileio/step.py', 'src/cpp/eustace/timeutils/timebase.cpp'],
  [('time bases', U+'timeutils/timebase.py'), ('steps', U+'catalogue/step.py'), ('C++ time base', 'src/cpp/eustace/timeutils/timebase.cpp')],
  ['numbers, dates and indices returned'])

P('C05', 'Satellite gridding puts every accepted pixel in its cell exactly once',
  'For any set of satellite pixels and any output grid, the gridded count, mean, minimum, maximum, spread and propagated uncertainties of each cell are those of exactly the pixels that pass quality control and lie within that cell, with the total count conserved over cells. '
  'Cells without pixels are marked missing, pixels outside the grid are never counted in a cell, and the result does not depend on the order of pixels or on how they are divided among input files.',
  ['inputs', 'histories'], 'all pixel sets (empty, on cell edges, masked, all in one cell, many files), grids and quality flag patterns',
  'Tests aggregate a few hand-made pixels; edges, masks, repeated passes and file splits are not enumerated.',
  [E+'satgrid/aggregate.c', E+'satgrid/aggregate_grid.py', E+'satgrid/grid.py', E+'satgrid/file_aggregate_grid.py', E+'satgrid/satellite_file.py', E+'satgrid/filebuilder.py', E+'satgrid/command.py'],
  [('accumulation loops', E+'satgrid/aggregate.c'), ('grid statistics', E+'satgrid/aggregate_grid.py'), ('cell lookup', E+'satgrid/grid.py')],
  ['gridded fields and output files'])

P('C06', 'Bin operations on grids agree with per-cell statistics of their inputs',
  'The general gridding operations (count, sum, maximum, minimum, sum of squares, squared deviation and the pipelines composed of them) yield for every cell the statistic of exactly those unmasked inputs mapped to it, accumulated over successive inputs. '
  'Masked inputs contribute nothing, cells that receive nothing stay at their initial value or missing, and coordinates outside the grid are refused.',
  ['inputs', 'histories'], 'all input arrays, masks, coordinates, grid axes (wrapped longitudes included) and sequences of calls',
  'Tests use single short arrays; sequences, masks and edge coordinates are not explored.',
  [E+'satgrid_iris/gridbin/gridbin.py', E+'satgrid_iris/gridbin/gridfieldlist.py', E+'satgrid_iris/gridbin/operation/count.pyx', E+'satgrid_iris/gridbin/operation/sumcountmaxmin.pyx', E+'satgrid_iris/gridbin/operation/sumsq.pyx', E+'satgrid_iris/gridbin/operation/sumsqdev.pyx', E+'satgrid_iris/gridbin/operation/operation.py', E+'satgrid_iris/pipeline.py', E+'satgrid_iris/satellite.py'],
  [('bin mapping', E+'satgrid_iris/gridbin/gridbin.py'), ('accumulators', E+'satgrid_iris/gridbin/operation/')],
  ['grid fields after each operation'])

P('C07', 'The compiled code never touches memory it does not own',
  'Whatever well-formed arrays or files they are given, the C, Cython and C++ parts (aggregation, bin operations, diagnostics grid, mesh search, partial inverse, observation, location, mesh and break point readers) read and write only inside the buffers they were given or allocated, execute no undefined behaviour and leak nothing per call. '
  'Files that are truncated, empty or of another format are refused or read as the data they hold, never by reading or writing beyond the data.',
  ['inputs', 'fault_sequences'], 'array sizes from empty up, all index values produced by the library, all truncations and corruptions of input files',
  'Functional tests pass when an access strays into neighbouring memory; only instrumented execution sees it.',
  [E+'satgrid/aggregate.c', E+'satgrid_iris/gridbin/operation/', A+'diagnosticgrid_aggregate.pyx', A+'mesh/locator_search_planes.pyx', S+'linalg/qinv.pyx', 'src/cpp/eustace/analysis/'],
  [('native modules', E+'satgrid/aggregate.c'), ('C++ readers', 'src/cpp/eustace/analysis/fileio/rawbinary.cpp'), ('input manager', 'src/cpp/eustace/analysis/inputmanager.cpp')],
  ['AddressSanitizer and UndefinedBehaviorSanitizer reports, process exit'])

P('C08', 'Observations written to daily binary files are read back exactly',
  'For every source and observable, the valid observations of a day written to the binary format are exactly those read back: location, measurement, uncorrelated uncertainty and every locally correlated uncertainty, with masked observations left out and none added. '
  'Location tables and correlation ranges survive the same way, the identifier of the location table links them, and a file of another kind, of an unexpected size, or made with another location table is refused.',
  ['inputs', 'fault_sequences', 'configurations'], 'all observation sets (empty, fully masked, any number of correlation ranges), sources, fixed and mobile locations, days, and damaged or mismatched files',
  'Tests write one small array; masks, several ranges, mismatched location tables and damaged files are not generated.',
  [A+'fileio/observationsource_rawbinary.py', A+'preparedailyfixed.py', A+'preparedailymobile.py', A+'preparelocationlookup.py', A+'preparecorrelationranges.py', S+'examples/inputloader_rawbinary.py', A+'fileio/observationsource_missing.py', A+'observationsource.py'],
  [('binary readers and writers', A+'fileio/observationsource_rawbinary.py'), ('daily preparation', A+'preparedailyfixed.py'), ('input loaders', S+'examples/inputloader_rawbinary.py')],
  ['bytes of files', 'observations returned'])

P('C09', 'The C++ library reads the same observations by day and by location',
  'For any set of daily binary files, the C++ library delivers the same observations, locations, uncertainties, ranges and totals as were written for that day, and its retrieval by location delivers for each location exactly the time series of its observations over all days, using the pointer file prepared for it. '
  'Retrieval does not depend on the order or repetition of requests.',
  ['inputs', 'histories'], 'all collections of days, sources, location subsets, repeated requests and cached reads',
  'The C++ tests read three fixed example files; the pointer file path from Python to C++ is not tested end to end.',
  ['src/cpp/eustace/analysis/inputmanager.cpp', 'src/cpp/eustace/analysis/inputmanager.h', 'src/cpp/eustace/analysis/observationsource.h', 'src/cpp/eustace/analysis/fileio/rawbinary.cpp', 'src/cpp/eustace/analysis/fileio/locationpointers.cpp', A+'fileio/locationpointers.py', A+'preparelocationpointers.py'],
  [('input manager', 'src/cpp/eustace/analysis/inputmanager.cpp'), ('location pointer files', A+'fileio/locationpointers.py')],
  ['records printed by a driver linked with the library'])

P('C10', 'Station break points are attributed to the right station and period',
  'Break point records read from a station file keep the time, station and likelihood of each entry, in Python and in C++, and filtering by station or by likelihood keeps exactly the entries that meet the criterion with their fields still paired. '
  'In the bias model every observation of a station is assigned to the homogeneous period ended by the next break of that station after the observation time, and to no bias if none follows.',
  ['inputs'], 'all station sets, break lists (repeated times, stations without breaks), thresholds, observation times before, at, between and after breaks',
  'Tests use one short break list; ordering, boundaries at break times and stations without breaks are not explored.',
  [E+'preprocess/fileio/insitu_land_breakpoints.py', A+'observationsource.py', S+'fileio/observation_source_surface_effects.py', S+'elements/bias_insitu_land.py', S+'elements/bias.py', S+'elements/spatial_bias.py', 'src/cpp/eustace/analysis/break_points/break_points.cpp', 'src/cpp/eustace/analysis/break_points/insitu_land_break_points.cpp'],
  [('break point source', E+'preprocess/fileio/insitu_land_breakpoints.py'), ('covariate effect', S+'fileio/observation_source_surface_effects.py'), ('C++ break points', 'src/cpp/eustace/analysis/break_points/break_points.cpp')],
  ['break lists, effect indices and design matrices returned'])

P('C11', 'Combining and summarising observations keeps every observation and its errors',
  'Appending observation sets keeps every entry of both in order with locations offset as requested, and averaging maximum and minimum pairs exactly the entries of the same location, giving the mean value and the propagated uncertainties, masked where either is missing. '
  'Diagnostic grids and observation counts report for each cell or day exactly the number, the smallest and largest value and uncertainty, and the weighted mean of the valid observations that fall there, and accumulating in parts equals computing them on all the data at once.',
  ['inputs', 'histories'], 'all observation sets, overlaps of locations, masks and partitions of the data over files',
  'Tests average two or three observations; partial overlaps, masks and partitioned accumulation are not explored.',
  [A+'observationsource.py', A+'diagnosticgrid.py', A+'diagnosticgrid_aggregate.pyx', A+'diagnostic_combine.py', A+'obscount.py', A+'obscountsources.py', A+'inspectinput.py'],
  [('observation algebra', A+'observationsource.py'), ('diagnostic grid', A+'diagnosticgrid.py')],
  ['arrays returned, diagnostic files'])

P('C12', 'The spherical mesh tiles the globe and locates every point in its triangle',
  'At every subdivision level the mesh is a closed triangulation of the sphere with unit-length vertices, no duplicates, the expected numbers of vertices, edges and triangles, and each child triangle inside its parent. '
  'Every direction on the sphere, poles and triangle edges included, is located in a triangle that contains it, its interpolation weights are non-negative, sum to one and reproduce the point, and a mesh written to file is read back the same by Python and C++.',
  ['inputs', 'configurations'], 'all points of the sphere (poles, vertices, edges, dateline) and subdivision levels',
  'Tests locate a few points at low levels; edges, vertices and near-degenerate directions are not sampled.',
  [A+'mesh/mesh.py', A+'mesh/geometry.py', A+'mesh/locator.py', A+'mesh/locator_search_planes.pyx', A+'mesh/writenetcdf.py', A+'mesh/irisconnector.py', 'src/cpp/eustace/analysis/fileio/mesh.cpp', S+'stats/spde/spherical.py'],
  [('subdivision', A+'mesh/mesh.py'), ('locator', A+'mesh/locator.py'), ('mesh file reader', 'src/cpp/eustace/analysis/fileio/mesh.cpp')],
  ['vertices, triangles, located indices, weights'])

P('C13', 'Sparse solvers give the exact solution, variances and determinant',
  'For every symmetric positive definite sparse matrix, solving, the log determinant, the triangular back-substitutions used for sampling, the diagonal of the inverse and the partial inverse on the sparsity pattern equal those of the dense matrix up to rounding, whichever of the available factorisation libraries is used, on repeated use and after refactorisation with new values. '
  'The factorisation used for analyses (PARDISO) reports a matrix that is singular or not positive definite as an error and never answers it with numbers.',
  ['inputs', 'histories', 'configurations'], 'all sizes, sparsity patterns, orderings, right-hand sides and sequences of solver calls',
  'Tests use fixed matrices of order ten; pattern-dependent errors in the partial inverse and state left over from earlier calls need many patterns and histories.',
  [S+'linalg/qinv.pyx', S+'linalg/extendedcholmodwrapper.py', S+'linalg/pardisowrapper.py', S+'linalg/sparse.py', S+'linalg/wrapper.py', S+'linalg/linearsystem.py'],
  [('partial inverse', S+'linalg/qinv.pyx'), ('cholmod wrapper', S+'linalg/extendedcholmodwrapper.py'), ('pardiso wrapper', S+'linalg/pardisowrapper.py')],
  ['vectors and matrices returned by the solvers'])

P('C14', 'Random-field precision matrices are valid and match their derivatives',
  'For every mesh, lattice or time grid and every hyperparameter value, the precision matrix of the random field is symmetric and positive definite, the derivative reported for each hyperparameter is the derivative of that matrix, and the marginal variance follows the amplitude requested. '
  'Observation matrices hold the values of the bases at each place, around wrapping dimensions too; with piecewise linear bases their rows sum to one inside the domain and reproduce node values at nodes, and a local view of the field agrees with the full field on its part of the sphere.',
  ['inputs', 'configurations'], 'all grids, orders, wrapping choices, hyperparameter values and observation points',
  'Tests fix one mesh and one parameter set and compare to stored numbers.',
  [S+'stats/spde/lattice.py', S+'stats/spde/spherical.py', S+'stats/spde/spherical_view.py'],
  [('lattice SPDE', S+'stats/spde/lattice.py'), ('sphere SPDE', S+'stats/spde/spherical.py'), ('sphere view SPDE', S+'stats/spde/spherical_view.py')],
  ['matrices returned'])

P('C15', 'Every model element gives consistent designs, derivatives and priors',
  'For every model element and combination of elements, the design function applied to a state is the product of its design matrix with that state (for the linear ones), its reported Jacobian is its derivative, and each row depends only on the location, time and attributes of its own observation. '
  'Prior precisions are symmetric and positive definite with derivatives matching each hyperparameter, a combination stacks its members without mixing their states or hyperparameters, and interpolated covariates and seasonal, latitude and bias terms equal their defining formulas.',
  ['inputs', 'configurations'], 'all elements, nested combinations, hyperparameter values, observation sets and states',
  'Tests check each element on one small structure; ordering of combined states and hyperparameters is quantified over all combinations.',
  [S+'elements/element.py', S+'elements/combination.py', S+'elements/seasonal.py', S+'elements/kronecker.py', S+'elements/kronecker_annual.py', S+'elements/local.py', S+'elements/local_view.py', S+'elements/covariate.py', S+'elements/geography_based.py', S+'elements/latitudeharmonics.py', S+'elements/latitudespline.py', S+'elements/grandmean.py', S+'elements/factor.py', S+'elements/spacetimespde.py', S+'elements/bias.py'],
  [('element interface', S+'elements/element.py'), ('combination', S+'elements/combination.py')],
  ['design matrices, design functions, priors'])

P('C16', 'Component solutions are the exact Bayesian posterior of their observations',
  'For any model component and any observations, the solved state is the mean, the marginal uncertainties are the standard deviations and the samples have the covariance of the Gaussian posterior defined by the prior and all the observations with their error covariances. '
  'The result is the same however the observations are divided among time steps and sources and in whatever order they are processed, for in-memory and file storage, single or batched, and a component without observations keeps its prior.',
  ['inputs', 'histories', 'configurations'], 'all partitions and orderings of observations over time steps, all storage kinds, nonlinear update sequences',
  'Tests process one fixed sequence per storage class; independence of order and partition is a statement about all histories.',
  [S+'components/component.py', S+'components/spacetime.py', S+'components/spatial.py', S+'components/spatialdelayed.py', S+'components/storage_inmemory.py', S+'components/storage_files.py', S+'components/storage_files_batch.py', S+'linalg/linearsystem.py'],
  [('linear update', S+'linalg/linearsystem.py'), ('component solutions', S+'components/')],
  ['states, marginal deviations and samples read from storage'])

P('C17', 'The multi-component analysis and its gridded output stay additive and consistent',
  'Each component is updated with observations from which the current estimates of all the other components have been removed, so that the total estimate at any place and time is the sum of the component estimates, total uncertainty combines component uncertainties in quadrature, and repeated updates approach the joint solution. '
  'Grid cell values are the area-weighted averages of the estimates inside each cell, independent of blocking, and the influence reported is the reduction of prior variance, or missing when it is undefined.',
  ['inputs', 'histories', 'configurations'], 'all numbers of components, update orders, time sets, grids, cell samplings and block sizes',
  'Tests run one system over a few days; additivity and block independence quantify over all grids and histories.',
  [S+'analysissystem.py', S+'fileio/output_projector.py', S+'fileio/output_structure_rectilinear.py', S+'fileio/observation_structure_source_connector.py', S+'examples/moving_climatology.py'],
  [('analysis system', S+'analysissystem.py'), ('output grids', S+'fileio/output_structure_rectilinear.py'), ('projector', S+'fileio/output_projector.py')],
  ['arrays evaluated at observation and grid locations'])

P('C18', 'Hyperparameter optimisation minimises the true marginal likelihood',
  'The cost evaluated for a set of hyperparameters is, up to a constant, the negative log marginal likelihood of the observations under the model, and its gradient is the derivative of that cost. '
  'Hyperparameters pass through files, arrays and combinations without reordering, and an optimisation never reports parameters that are worse than the starting values.',
  ['inputs', 'configurations'], 'all models, hyperparameter values, observation sets and optimiser sequences',
  'Tests compare the cost at one parameter point with stored values.',
  [S+'linalg/costfunction.py', S+'linalg/optimize.py', S+'optimizationsystem.py', S+'fileio/optimization_inputs.py', S+'elements/element.py'],
  [('cost function', S+'linalg/costfunction.py'), ('optimizer', S+'linalg/optimize.py')],
  ['cost and gradient values'])

P('C19', 'Product files hold the values they were given, on the declared grid and day',
  'Values written to a global field or station product and read back differ from those given by no more than half a packing step, missing values stay missing and valid ones never become missing, and latitude, longitude, time and bounds describe the cells and the day of the data. '
  'A file written by the library passes its own format verification, and a file whose variables have another dimension, type or required attribute, that lacks a coordinate, or that has none of the recognised variables, is rejected.',
  ['inputs', 'fault_sequences'], 'all fields within the packable range, masks, days, stations and all single deviations from the format',
  'Tests write one field and verify one good file; values near packing limits and each possible defect are not enumerated.',
  [E+'outputformats/filebuilder.py', E+'outputformats/globalfield_filebuilder.py', E+'outputformats/globalfield.py', E+'outputformats/outputvariable.py', E+'outputformats/definitions.py', E+'outputformats/iriscubesaver.py', E+'outputformats/stationdata.py', E+'outputformats/stations.py', E+'outputformats/verify/'],
  [('file builders', E+'outputformats/globalfield_filebuilder.py'), ('verification', E+'outputformats/verify/verify.py')],
  ['NetCDF files', 'verification messages'])

P('C20', 'Merging products of several sources keeps and combines every valid value',
  'Merging the files of several sources for a day gives in each cell the mean of the sources that are valid there, with uncertainties combined according to the stated error correlations, and a missing value only where all sources are missing. '
  'The values of each source are kept under its own name, a single source passes through unchanged, files of different days are refused, and absent sources are left out together with their correlations.',
  ['inputs', 'configurations', 'fault_sequences'], 'all numbers of sources, masks, correlations, fields and patterns of absent files',
  'Tests merge two or three files of constants; overlapping masks and absent sources with correlations are not enumerated.',
  [E+'outputformats/filesmerger.py', E+'outputformats/merge_multiple_outputs.py'],
  [('files merger', E+'outputformats/filesmerger.py')],
  ['merged NetCDF files'])

P('C21', 'Quality flags state exactly the conditions met, and masks follow from them',
  'Each daily quality check sets its flag in exactly the cells that meet its condition (thresholds, extremes, areal outliers, location percentiles, constraint counts in day windows and across years, persistence) and leaves every other flag as it was; flags survive saving and loading and merging of flag files. '
  'A cell of the final product is masked exactly when one of the masking combinations holds, is masked alike in all variables, and unmasked values are unchanged. The jobs submitted to the cluster for a range of years run the program of their step for every month of those years, once, with the settings of the submission.',
  ['inputs', 'histories', 'configurations'], 'all fields, flag combinations, windows, missing neighbour days, month lengths and years',
  'Tests cover flag arithmetic on few values; windows with missing days, year ranges and flag combinations are not enumerated.',
  [E+'postprocess/flags.py', E+'postprocess/apply_mask.py', E+'postprocess/merge_flag_files.py', E+'postprocess/threshold_check.py', E+'postprocess/outlier_check.py', E+'postprocess/window_check.py', E+'postprocess/calendar_check.py', E+'postprocess/outlier_window_check.py', E+'postprocess/cell_percentile_calculation.py', E+'postprocess/cell_percentile_threshold.py', E+'postprocess/operation_count.py', E+'postprocess/lsf/'],
  [('checks', E+'postprocess/'), ('masking', E+'postprocess/apply_mask.py')],
  ['flag arrays and masked product files'])

P('C22', 'In-situ sources deliver exactly the valid reports of the requested day',
  'Land station, ship and lake sources deliver for each report its own place, time, temperature in kelvin and uncertainty, restricted to the requested day, with reports that are missing, fail quality control or belong to held-out stations masked and all others kept. '
  'Altitude adjustment moves a temperature by the lapse rate times the height difference from the reference surface at that place and adds the matching uncertainty.',
  ['inputs', 'configurations'], 'all station files, days, masks, quality flags, hold-out lists, altitudes and report files',
  'Tests read one example file with one day; combinations of masks, quality flags and hold-out are not enumerated.',
  [E+'preprocess/fileio/insitu_land.py', E+'preprocess/fileio/insitu_ocean.py', E+'preprocess/fileio/height_adjustment.py', E+'surfaceairmodel/fileio/lake.py', S+'elements/geography_based.py'],
  [('land source', E+'preprocess/fileio/insitu_land.py'), ('ocean source', E+'preprocess/fileio/insitu_ocean.py')],
  ['observations returned'])

P('C23', 'The ice model gives air temperatures only where quality control allows',
  'For any satellite ice surface fields, the air temperature and each uncertainty component equal the published regression for the hemisphere and ice type of the cell, and are present exactly in the cells of land or sea ice that pass every quality control test, independently of all cells outside the local cloud test window. '
  'The two hemispheres are placed at their own latitudes of the global field, and inputs that do not fit together are refused.',
  ['inputs', 'configurations'], 'all temperature, mask, ice fraction and count fields, days and hemispheres',
  'Tests use tiny hand-made grids; combinations of masks and thresholds per cell are not enumerated.',
  [E+'surfaceairmodel/model_ice.py', E+'surfaceairmodel/model_ice_input_processing.py', E+'surfaceairmodel/fileio/ice.py', E+'surfaceairmodel/run_ice.py', E+'surfaceairmodel/fileio/consistent.py'],
  [('ice model', E+'surfaceairmodel/model_ice.py'), ('quality control', E+'surfaceairmodel/model_ice_input_processing.py')],
  ['fields returned and files written'])

P('C24', 'Surface-air products are remapped without losing values, errors or days',
  'Land and ocean model outputs converted to the consistent format carry each field under its new name with the same valid values (ocean temperatures moved to kelvin), total uncertainties equal to the root sum of squares of their components, the day of the input, and no value where any needed component is missing; land cells whose minimum exceeds the maximum are removed from all fields. '
  'Reading products back as an observation source yields every cell once with its place, value and errors, the two ice hemispheres included.',
  ['inputs'], 'all fields, masks, days and grids of the model outputs',
  'Tests remap one file of constants; masks differing between components are not enumerated.',
  [E+'surfaceairmodel/fileio/remap.py', E+'surfaceairmodel/fileio/land.py', E+'surfaceairmodel/fileio/ocean.py', E+'surfaceairmodel/fileio/post_processing.py', E+'surfaceairmodel/fileio/consistent.py', E+'surfaceairmodel/fileio/cubemap.py', E+'surfaceairmodel/fileio/ice.py', E+'surfaceairmodel/model_land.py', E+'surfaceairmodel/model_ocean.py', E+'surfaceairmodel/correlation_ranges.py', E+'surfaceairmodel/run_land.py', E+'surfaceairmodel/run_ocean.py'],
  [('remapping', E+'surfaceairmodel/fileio/remap.py'), ('cube map source', E+'surfaceairmodel/fileio/cubemap.py')],
  ['fields and observations returned'])

P('C25', 'Generated analysis descriptors carry out every iteration on the results it needs',
  'For any number of iterations, period, names, bias switches and choice of input sources, the descriptor generated from the templates (one operation per day, or in batches) has the operations of every iteration in order with nothing left to fill in; builds into a catalogue; '
  'no operation reads a file before another has written it, and none is written twice; the input of a component is given the states of the components before it from the same iteration and of those after it from the previous one, and the inputs of its own days; '
  'and running all operations leaves the states that the same number of iterations gives in memory, with posterior and prior samples of all components after the last.',
  ['inputs', 'histories'], 'all numbers of iterations, periods, names, sources and gaps in the inputs',
  'The tests of the generator are out of date and compare single dictionaries; no test runs a descriptor.',
  ['src/eumopps/catalogue/jsonfiller.py', 'src/eumopps/catalogue/build.py', 'src/eumopps/catalogue/operation.py', 'src/eumopps/catalogue/placeholder.py', E+'analysis/advanced_standard/components/storage_files.py', E+'analysis/advanced_standard/components/storage_files_batch.py', E+'analysis/advanced_standard/analysissystem.py', 'src/roses/fullstace/advanced_standard/templates/advstd_operation_template.json', 'src/roses/fullstace/advanced_standard/templates/advstd_batch_operation_template.json', 'src/roses/fullstace/advanced_standard/templates/advstd_outputgrid_template.json'],
  [('generator', 'src/eumopps/catalogue/jsonfiller.py')],
  ['descriptor files, files read and written, states'])

with open(OUT, 'w') as f:
    for r in ROWS:
        f.write(json.dumps(r) + '\n')
print(len(ROWS))
