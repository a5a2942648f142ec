NOTE = ('Nothing of alta is executed. Real-valued quantities are symbolic (any value); sizes (dimensions, channels, parts, lobes) are instantiated at the listed small values; '
        'equality of two expressions is decided by identity or by evaluating both at many seeded points covering every branch condition found in them, so "holds" is up to the probability of missing a difference. ')

prop('C01', 'Parametrization names, identifiers and dimensions agree',
     'Every parametrization has exactly one name; reading that name gives back the same parametrization, and every other text is read as unknown. '
     'The dimension reported for a parametrization is the number of coordinates its conversions consume and produce, and a parametrization is registered exactly when it can be converted both to and from direction pairs.',
     ['inputs', 'configurations'], 'For every input and output parametrization identifier, and for every text read as a parametrization name.',
     'The tests name a handful of parametrizations; a wrong registration of any of the others shows only when a file using it is read.',
     ['sources/core/params.cpp', 'sources/core/params.h'],
     [('registry table', 'sources/core/params.cpp'), ('parse_input/parse_output/get_name/dimension', 'sources/core/params.cpp'), ('parameters descriptor', 'sources/core/params.h')],
     AI + 'the registry functions are evaluated for every enumerator and compared with the documented identifiers and dimensions', NOTE)

prop('C02', 'Conversions produce the documented coordinates and route any pair',
     'Converting a pair of directions to a parametrization gives the coordinates documented for it (half and difference angles, back direction, projected differences, cosines, stereographic planes). '
     'Converting between any two parametrizations equals going through the pair of directions, and it reads and writes only as many numbers as the two dimensions say.',
     ['inputs', 'configurations'], 'For every pair of directions and every ordered pair of parametrizations, and for every output value and output parametrization pair.',
     'Tests convert a few sampled angles among a few parametrizations; the 529 ordered pairs and the whole domain of each are out of reach.',
     ['sources/core/params.cpp', 'sources/core/params.h', 'sources/core/common.h'],
     [('from_cartesian', 'sources/core/params.cpp'), ('to_cartesian', 'sources/core/params.cpp'), ('convert', 'sources/core/params.cpp')],
     AI + RI + ' against an independent statement of the documented coordinates; footprint from the abstract memory', NOTE)

prop('C03', 'Coordinates survive a round trip and directions stay unit',
     'For every parametrization, converting coordinates inside its domain to a pair of directions and back gives the same coordinates, and the directions produced have length one.',
     ['inputs'], 'For every parametrization and all coordinates in its domain.',
     'The round-trip tests sample a few points of a few parametrizations and skip the rest.',
     ['sources/core/params.cpp', 'sources/core/params.h', 'sources/core/common.cpp'],
     [('to_cartesian / from_cartesian', 'sources/core/params.cpp'), ('half_to_cartesian, rotate_*', 'sources/core/params.h')],
     AI + RI, NOTE + 'Degenerate points (grazing, colinear directions) are excluded from the sampled domain; rounding error is not modelled.')

prop('C04', 'Parameter gradients are the derivatives of the model value',
     'For every analytic model, Fresnel and masking term, the gradient it reports with respect to its parameters is, for each channel and parameter, the derivative of the value it computes.',
     ['inputs', 'configurations'], 'For every model, option and lobe count instantiated, number of channels, parameter vector and input direction.',
     'No test compares a gradient with the value; fitters silently converge to worse results when one entry is wrong.',
     ['sources/plugins', 'sources/core/function.h'],
     [('parametersJacobian', 'sources/plugins/*/function.cpp'), ('value', 'sources/plugins/*/function.cpp')],
     AI + 'symbolic differentiation of the value graph and comparison with the reported gradient graph; ' + RI, NOTE)

prop('C05', 'The parameter vector is what was set, with matching bounds',
     'For every analytic model, reading the parameters after setting them gives the values that were set, in the same order. '
     'The bounds have one entry per parameter with lower not above upper, and after initialisation neither the parameters nor the value depend on storage nobody wrote.',
     ['inputs', 'configurations'], 'For every model, option, lobe count instantiated, channel count and parameter vector.',
     'Tests create a few models with one channel; a parameter stored in the wrong slot of a multi-channel model is not observed.',
     ['sources/plugins', 'sources/core/function.h'],
     [('parameters/setParameters/getParametersMin/getParametersMax', 'sources/plugins/*/function.cpp'), ('bootstrap', 'sources/plugins/*/function.cpp')],
     AI + RI + '; initialisation and bounds from the abstract memory', NOTE)

prop('C08', 'Rational functions are the ratio of their two expansions',
     'A rational function returns, per channel, its numerator over its denominator expansion in the basis it is named after (monomials, Chebyshev or Legendre polynomials, cosine-weighted numerator), evaluated at the input mapped from its domain to [-1,1], with coefficients normalised by the leading one of the denominator. '
     'Coefficients are numbered so that each multi-degree occurs once and total degrees never decrease. '
     'Changing the number of coefficients, copying, printing, saving and loading keep this function.',
     ['inputs', 'configurations'], 'For every basis, coefficient vector, input, domain (points included) and the dimensions and numbers of coefficients tried.',
     'Tests fit a few one-dimensional curves with few coefficients; higher degrees, inputs of several dimensions and resized expansions are never evaluated against the definition.',
     ['sources/core/rational_function.cpp', 'sources/core/rational_function.h', 'sources/plugins/rational_function_chebychev', 'sources/plugins/rational_function_legendre', 'sources/plugins/rational_function_cosine'],
     [('value/p/q/update/resize/index2degree/load/save_call', 'sources/core/rational_function.cpp'), ('p/q/get', 'sources/plugins/rational_function_*/rational_function.cpp')],
     AI + RI + ' against an independent statement of each expansion', NOTE + 'Dimensions and numbers of coefficients are instantiated (up to 6 inputs, degree 9 per input, thorough 13). Exported source code is not part of it.')

prop('C09', 'Sums and products of functions behave as sums and products',
     'A composite function returns the sum or the product of its parts, each evaluated at the input converted to its own parametrization. '
     'Its parameters, bounds and gradient are those of its parts that are not held fixed, in order, and the gradient is the derivative of the composite value with respect to them.',
     ['inputs', 'configurations'], 'For every sum or product (nesting included) of the models, every choice of parts held fixed, channel count, parameter vector and input.',
     'No test builds a composite with parts held fixed or with parts in different parametrizations and compares its values and gradient with the parts.',
     ['sources/core/function.cpp', 'sources/core/function.h'],
     [('compound_function', 'sources/core/function.cpp'), ('product_function', 'sources/core/function.cpp')],
     AI + RI + ' against the parts evaluated separately', NOTE)

prop('C06', 'A saved function loads back as the same function',
     'The file written when a function, a sum or a product is saved is accepted when loaded, and the loaded function has the same model, dimensions, parametrizations and parameters and computes the same values.',
     ['inputs', 'configurations'], 'For every analytic model, lobe type and count, sum and product that a command line can name, every channel count, parameter vector and input.',
     'No test saves a fitted function and reads it back; a key or an order that differs between writer and reader is only noticed by the next tool in the chain.',
     ['sources/plugins', 'sources/core/function.cpp', 'sources/core/plugins_manager.cpp', 'sources/core/args.h'],
     [('save/save_call/save_body', 'sources/plugins/*/function.cpp'), ('load', 'sources/plugins/*/function.cpp'), ('load_function/get_function', 'sources/core/plugins_manager.cpp'), ('save_header', 'sources/core/function.cpp')],
     AI + 'the text save writes is kept as a sequence of literals and symbolic numbers and given to the loader; ' + RI,
     NOTE + 'The printed form of a number is taken to identify it up to the digits the stream is set to. The file system and the dynamic loader are models.')

prop('C07', 'Models compute the formulas they are documented to',
     'Each analytic model, Fresnel and masking term returns, for every channel, the value of its documented formula for the given directions and parameters. '
     'Evaluating it through any of its evaluation entry points gives that same value.',
     ['inputs', 'configurations'], 'For every model, lobe type and lobe count instantiated, channel count, parameter vector and pair of directions.',
     'No test evaluates a model against its formula; a changed exponent or a swapped direction only shows as a poorer fit.',
     ['sources/plugins', 'sources/core/params.cpp', 'sources/core/params.h'],
     [('value/operator()', 'sources/plugins/*/function.cpp'), ('compute_dot/shadowTerm/D/G1/Fresnel', 'sources/plugins/*/function.cpp')],
     AI + RI + ' against an independent statement of each formula', NOTE + 'The Yoo retro-reflection model and the moment lobe have no documented formula and are only held to the evaluation entry points agreeing (and to C04).')

prop('C10', 'Rational fitters state every interval of the data and keep the solution',
     'The program given to the quadratic solver has, for every sample and channel, the two half-spaces that keep the ratio within the interval with the margin asked for, each once, and the energy asked for; an adaptive search may start from a subset but accepts a function only when every remaining sample lies in its interval, and adds a violated one otherwise. '
     'The algebraic and alternating fits set up the linear systems of their residuals. '
     'The solution becomes the coefficients of its channel over the domain of the data, the best split of coefficients is kept, and an unsolvable channel makes the fit fail.',
     ['inputs', 'configurations'], 'For every sample value and interval (symbolic in the one-pass fitters), for each fitter, basis, number of coefficients, channels and samples tried, and every solver outcome tried.',
     'Tests fit a single curve; a missing or weakened constraint or a wrong channel still gives a plausible curve there.',
     ['sources/plugins/rational_fitters'],
     [('rational_fitter_quadprog::fit_data', 'sources/plugins/rational_fitters/quadprog.cpp'), ('rational_fitter_parallel::fit_data', 'sources/plugins/rational_fitters/quadprog_parallel.cpp'), ('quadratic_program', 'sources/plugins/rational_fitters/quadratic_program.h'),
      ('rational_fitter_eigen::fit_data', 'sources/plugins/rational_fitters/eigen.cpp'), ('rational_fitter_leastsquare::fit_data', 'sources/plugins/rational_fitters/leastsquare.cpp')],
     AI + RI + '; the solvers are replaced by stand-ins inside the abstract run that record what they are given', NOTE + 'The solvers themselves are not part of it. Sample positions are instantiated, values and intervals symbolic (instantiated for the adaptive search).')

prop('C11', 'Non-linear fitters minimise the distance between function and data',
     'A non-linear fitter gives its solver the differences between the function, evaluated in its own parametrization at every sample (or the data brought to that parametrization when asked), and every channel of the data (of logarithms or cosine-weighted when asked), together with their exact derivatives. '
     'It starts from the bootstrapped parameters, passes on their bounds where the solver takes them and the stopping criteria of the command line, and leaves in the function the parameters the solver ends with. '
     'A solver that fails, or a function of another kind, makes the fit fail.',
     ['inputs', 'configurations'], 'For every data value and parameter vector (both symbolic), for each fitter, the functions, parametrizations, numbers of channels and samples tried and every solver outcome tried.',
     'Tests only look whether a fit of one data set ends near known parameters; a wrong derivative, missing sample or channel mostly still converges there.',
     ['sources/plugins/nonlinear_fitter_ceres', 'sources/plugins/nonlinear_fitter_eigen', 'sources/plugins/nonlinear_fitter_nlopt'],
     [('f/df/fit_data', 'sources/plugins/nonlinear_fitter_nlopt/fitter.cpp'), ('CeresFunctor/fit_data/set_parameters', 'sources/plugins/nonlinear_fitter_ceres/fitter.cpp'), ('EigenFunctor/fit_data', 'sources/plugins/nonlinear_fitter_eigen/fitter.cpp')],
     AI + RI + '; the solver libraries are replaced by stand-ins inside the abstract run that record what they are given', NOTE + 'Convergence of the solvers is not part of it. Samples and parametrizations are instantiated; data values and parameters are symbolic.')

prop('C12', 'Text data files hold the samples they were made from',
     'Loading the text file written for a data set gives the same dimensions, parametrizations, number, order and values of samples and domain, and the two data sets compare as equal; sets that differ in any of these compare as different. '
     'Comments, blank lines, separators, header order and end markers of the documented format do not change what is read. '
     'A row that lacks numbers never becomes a sample.',
     ['inputs', 'configurations'], 'For every data set: parametrizations, dimensions, number of samples and coordinates; and every layout of the documented format tried.',
     'Tests load two or three files; a layout, dimension or parametrization no test file uses can be misread without any error.',
     ['sources/core/data_storage.cpp', 'sources/core/data.cpp', 'sources/core/args.h', 'sources/core/vertical_segment.cpp'],
     [('save_data_as_text/load_data_from_text', 'sources/core/data_storage.cpp'), ('parse_header', 'sources/core/args.h'), ('load_data', 'sources/core/plugins_manager.cpp'), ('equals', 'sources/core/data.cpp')],
     AI + 'the text the writer produces for symbolic coordinates, and hand-written layouts of symbolic numbers, are given to the loader and the coordinates compared', NOTE + 'Numbers are printed with at least 15 digits (checked); rounding in printing is not modelled.')

prop('C13', 'Binary data files hold samples and intervals bit for bit',
     'The binary file written for a data set has the documented header followed by every number of the data set in row order as an 8-byte value. '
     'Loading it gives the same dimensions, parametrizations, kind of interval, samples, bounds and domain, and the bounds reported are those the stored kind defines. '
     'A stream that ends early never gives a data set.',
     ['inputs', 'configurations'], 'For every data set: parametrizations, dimensions, interval kind, number of samples and values; and every point at which the numbers are cut short.',
     'Tests convert one file without intervals; payload bytes that look like text and the other interval kinds are never exercised.',
     ['sources/core/data_storage.cpp', 'sources/core/args.h', 'sources/core/vertical_segment.cpp', 'sources/core/vertical_segment.h'],
     [('save_data_as_binary/load_data_from_binary', 'sources/core/data_storage.cpp'), ('get/set/matrix_view', 'sources/core/vertical_segment.cpp'), ('parse_header', 'sources/core/args.h')],
     AI + 'streams hold raw 8-byte symbols next to text, so the bytes written and read are compared symbol by symbol and a text read of a raw byte is an error', NOTE)

prop('C14', 'Intervals and filters are the ones the options ask for',
     'The interval around each value is the one the file header and the options define: absolute, relative or the larger of both sizes, the default size for outputs without one, and clamped to zero when positive data is requested. '
     'The bounding-box options keep exactly the samples inside the closed box, in order, and the domain is that of the samples kept. '
     'The cosine correction divides values and bounds by both cosines and drops directions below the horizon.',
     ['inputs', 'configurations'], 'For every interval header, combination of interval options, value and interval size; for the boxes and directions tried.',
     'Tests load a few files with default options; the options change only numbers that no test compares.',
     ['sources/core/data_storage.cpp', 'sources/core/vertical_segment.cpp', 'sources/core/vertical_segment.h', 'sources/core/args.h'],
     [('read_confidence_interval/within_bounds/cosine_correction', 'sources/core/data_storage.cpp'), ('get/set', 'sources/core/vertical_segment.cpp')],
     AI + RI + ' against the documented definition of each option', NOTE + 'Filters and directions are instantiated at listed concrete boxes and points; the values and interval sizes are symbolic.')

prop('C15', 'Tabulated data: samples, bounds and interpolation',
     'A measured or gridded table gives, for every sample index, the sample the file format places there; its coordinates lie within the bounds the table declares, and changing a sample changes that one only. '
     'Evaluating the table at any configuration of its domain reads inside the table and gives the stored sample of the cell (MERL, BRDF slices) or the interpolation of the neighbouring samples (UTIA, grids, scattered points), folded by the symmetries of the parametrization. '
     'Configurations beyond the hemisphere give zero.',
     ['inputs', 'configurations'], 'For every table content, sample index and configuration, of the MERL, UTIA, slice, grid and scattered tables; for every parametrization and the sizes tried of slices and grids.',
     'Tests evaluate a few points of a few tables; a fold, plane offset or border cell read wrongly shows at other configurations only.',
     ['sources/plugins/data_io/merl.cpp', 'sources/plugins/data_io/utia.cpp', 'sources/plugins/data_io/slice.cpp', 'sources/plugins/data_interpolants/grid.cpp', 'sources/plugins/data_interpolants/rbf.cpp'],
     [('get/set/value/min/max', 'sources/plugins/data_io/merl.cpp'), ('get/set/value', 'sources/plugins/data_io/utia.cpp'), ('get/set/value/min/max', 'sources/plugins/data_io/slice.cpp'), ('get/set/value', 'sources/plugins/data_interpolants/grid.cpp'), ('value', 'sources/plugins/data_interpolants/rbf.cpp')],
     AI + RI + '; the content of a table is an uninterpreted function of the index; accesses are decided by interval analysis under the path conditions', NOTE + 'Nearest-neighbour search is replaced by a stand-in that gives a fixed order.')

prop('C16', 'Measured-data files: loading, saving and refusing bad input',
     'Saving a measured or gridded data set in its file format (MERL, UTIA, EXR slice, grid, scattered points) and loading the file gives the same samples, and files of the documented layouts (also ASTM) are read sample by sample as laid out, whichever order an image stores its channels in. '
     'Files that are absent, truncated, malformed or of other dimensions, and outputs that cannot be written, are refused with an error rather than giving a data set.',
     ['inputs', 'faults'], 'For every content of the tables and files; for the formats, layouts, sizes, channel orders and the truncations and mismatches tried of each format.',
     'Tests load a few intact files; a swapped plane, a transposed size or a short read that goes unnoticed needs another file to show, and the tables concerned are too large to compare by hand.',
     ['sources/plugins/data_io/merl.cpp', 'sources/plugins/data_io/utia.cpp', 'sources/plugins/data_io/slice.cpp', 'sources/plugins/data_io/astm.cpp', 'sources/plugins/data_io/EXR_IO.h', 'sources/plugins/data_interpolants/grid.cpp', 'sources/plugins/data_interpolants/rbf.cpp'],
     [('load/save', 'sources/plugins/data_io/merl.cpp'), ('load/save', 'sources/plugins/data_io/utia.cpp'), ('load/save', 'sources/plugins/data_io/slice.cpp'), ('load', 'sources/plugins/data_io/astm.cpp'), ('LoadEXR/SaveEXR', 'sources/plugins/data_io/EXR_IO.h'), ('load/save', 'sources/plugins/data_interpolants/grid.cpp')],
     AI + '; files are sequences of symbolic atoms (blocks of bytes, numbers, text), the stream operations are modelled on them, and the loaders read the atoms the writers produced or the layout prescribes', NOTE + 'The tinyexr library and the nearest-neighbour search are replaced by stand-ins.')

prop('C17', 'Options and header keys reach the program as written',
     'Every option of a command line is seen with exactly the value written after it (a word, a number of either sign, a whole bracketed vector) whichever options surround it, and an option that is absent gives the default asked for. '
     'A command reconstructed from the options parses to the same options. '
     'Header lines are read the same way, up to the documented end of the header, and comments never define a key.',
     ['inputs', 'configurations'], 'For every number given as a value, and every single option and ordered pair of the option forms tried, through each way of building the options.',
     'No test covers parsing of numbers, vectors or flags in combination; a swallowed option silently becomes a default.',
     ['sources/core/args.h'],
     [('arguments constructor, create_arguments, get_*, get_cmd, parse_header', 'sources/core/args.h')],
     AI + 'words hold symbolic numbers, and each accessor is compared with the value written', NOTE + 'Names and layouts are instantiated; the numbers are symbolic. Bracketed vectors nested in one another are not part of the property.')

prop('C18', 'data2data converts, resamples and filters data faithfully',
     'Converting a data set to another parametrization gives the same configurations, described in the new coordinates, with the values and confidence intervals they had; no sample appears that the input does not imply, and only configurations outside the domain are dropped. '
     'Resampling onto a grid gives each node the value the input has, or interpolates, at that configuration; splatting fills exactly the nodes the samples fall on; range options keep exactly the samples inside the ranges.',
     ['inputs', 'configurations'], 'For every value and interval of the samples; for the pairs of parametrizations, grids, formats and options instantiated.',
     'The tests run a few conversions of one file and check that the command ends; a lost, moved or invented sample does not fail them.',
     ['sources/softs/data2data/main.cpp', 'sources/core/data.cpp', 'sources/core/vertical_segment.cpp', 'sources/plugins/data_interpolants/grid.cpp'],
     [('main', 'sources/softs/data2data/main.cpp'), ('convert_with_interpolation', 'sources/softs/data2data/main.cpp'), ('convert_without_interpolation', 'sources/softs/data2data/main.cpp')],
     AI + '; main() of the tool is interpreted on abstract files with concrete configurations and symbolic values, and every number of the output file is compared with the one the input implies', NOTE + 'Configurations are concrete.')

prop('C19', 'Commands report failure exactly when they fail',
     'Every command ends with status zero when it did what it was asked and with another status when an option it needs is missing, an input cannot be opened, is damaged, has missing or unreadable numbers or other dimensions than required, or the output cannot be written. '
     'It never crashes on such input, and never leaves an output file behind that pretends to be a result.',
     ['inputs', 'faults', 'configurations'], 'For each of the eight commands, the failures tried of each of their inputs and outputs, and every model and rational function as damaged input.',
     'Scripts that call the commands rely on the status alone; tests run the commands on good input, where the status is zero anyway.',
     ['sources/softs', 'sources/core/plugins_manager.cpp', 'sources/core/data_storage.cpp', 'sources/core/function.cpp', 'sources/core/rational_function.cpp'],
     [('main of each command', 'sources/softs/data2brdf/main.cpp'), ('load_function / load_data', 'sources/core/plugins_manager.cpp'), ('load of each function', 'sources/core/rational_function.cpp')],
     AI + '; main() of each command is interpreted on command lines and abstract files, intact and damaged, following every exception and exit path, and the status of each end is compared with what the input calls for', NOTE)

prop('C20', 'Parallel loops do not race',
     'Wherever iterations of a loop may run on several threads (the search of the parallel rational fitter, the conversion of data), no two iterations touch the same object, one of them writing, unless both do so under one mutual exclusion; '
     'nothing the iterations call keeps hidden global state. The outcome is therefore the one of running the iterations one after the other in some order.',
     ['schedules', 'inputs'], 'For every schedule and number of threads, over every function reachable from the bodies of the parallel loops, and for the models and data sizes executed abstractly.',
     'A race shows in rare schedules only, and the tests accept any result that looks plausible.',
     ['sources/plugins/rational_fitters/quadprog_parallel.cpp', 'sources/softs/data2data/main.cpp', 'external/quadprog++/QuadProg++.cc'],
     [('fit_data search loop and its critical sections', 'sources/plugins/rational_fitters/quadprog_parallel.cpp'), ('convert_with_interpolation', 'sources/softs/data2data/main.cpp'), ('solve_quadprog_with_guess', 'external/quadprog++/QuadProg++.cc')],
     'Static analysis: effect analysis of variables with static storage over the call graph of every parallel region, and a per-iteration access log of the cells of shared objects in an abstract execution of the region (critical sections as locks).',
     'Nothing of alta is executed. External linear algebra libraries are taken to be re-entrant; the access log covers the paths the abstract data sets take, the rules on static storage and on variables of the enclosing function cover all paths.')

prop('C21', 'Exports of a fitted model hold the values of the model',
     'Exporting a model over the samples of a data set, as data file or plot, writes for each sample the value of the model at that configuration, whatever coordinates the data and the model use, or the difference from or error relative to the measured value, or the value times both cosines, as asked. '
     'Polar plots list the model at the stated angles, and re-saving a model leaves its value unchanged.',
     ['inputs', 'configurations'], 'For every parameter of the models and every measured value; for the models, parametrizations, configurations, grids and options instantiated.',
     'Tests look at whether the commands end; a value taken at converted coordinates of the wrong kind still looks like a BRDF.',
     ['sources/softs/brdf2data/main.cpp', 'sources/softs/brdf2gnuplot/main.cpp', 'sources/softs/brdf2brdf/main.cpp', 'sources/core/function.cpp'],
     [('main', 'sources/softs/brdf2data/main.cpp'), ('main', 'sources/softs/brdf2gnuplot/main.cpp'), ('main', 'sources/softs/brdf2brdf/main.cpp')],
     AI + '; main() of the tools is interpreted on abstract model files with unknown parameters and data files with unknown values, and every number written is compared with the value of the model', NOTE + 'Configurations are concrete.')

prop('C22', 'Error metrics and statistics are the norms they are named after',
     'The distances reported between a model and data, or between two data sets, are the L1, L2, L3 and L-infinity norms, mean squared and root mean squared errors, output by output, of the values at the same configurations, expressed in the coordinates of each side, samples that a mask or an option excludes left out and weights as asked. '
     'Printed means and variances, and the moments of a data set, are those of its samples.',
     ['inputs', 'configurations'], 'For every measured value and every model parameter; for the sample counts, dimensions, masks, grids, parametrizations and options instantiated.',
     'Tests compare one metric of one data set; an error taken against a neighbouring sample or another channel stays plausible.',
     ['sources/core/metrics.cpp', 'sources/core/function.cpp', 'sources/softs/data2stats/main.cpp', 'sources/softs/brdf2stats/main.cpp', 'sources/softs/data2moments/main.cpp'],
     [('errors::compute', 'sources/core/metrics.cpp'), ('function::L2_distance', 'sources/core/function.cpp'), ('main', 'sources/softs/brdf2stats/main.cpp'), ('main', 'sources/softs/data2moments/main.cpp')],
     AI + '; the metrics and main() of the tools are interpreted on abstract data with unknown values, and every number produced is compared with the norm or moment by its definition, evaluated over an interval domain and an algebraic normal form', NOTE + 'Configurations are concrete.')

prop('C23', 'A plugin comes from the first directory of the search path that offers it',
     'A function, data loader or fitter requested by name is the one of the first directory listed in ALTA_PLUGIN_PATH that holds a library of that name offering that kind of object; an empty entry (leading, middle or trailing), or no value at all, stands for the installation directory, and no other directory is used. '
     'When none offers it there is no object, except that a command asking for an unavailable function, or none, gives the default rational function. '
     'A command with several functions, a Fresnel term or fixed parts gives the sum or product of exactly the named parts, in order, with the fixed ones left out of the parameters to fit, and none when a part of a sum cannot be in one.',
     ['configurations', 'fault_sequences'], 'For every state (no library, library without the kind, usable library) of the listed directories, for the shapes of the search path, names and commands instantiated.',
     'Tests run with one plugin directory that has every plugin.',
     ['sources/core/plugins_manager.cpp', 'sources/core/args.h', 'sources/core/function.cpp'],
     [('open_library', 'sources/core/plugins_manager.cpp'), ('plugin_search_path', 'sources/core/plugins_manager.cpp'), ('get_function', 'sources/core/plugins_manager.cpp')],
     AI + '; the plugin manager is interpreted on every state of an abstract file system and dynamic loader, the winning provider compared with the one the search path determines', NOTE + 'Search paths and commands are concrete.')

prop('C24', 'The Python module does what the library does',
     'The Python module offers the functions, data sets, fitters, vectors and options of the library under the documented names, every parametrization under its own name. '
     'Adding or multiplying functions, setting and getting parameters, loading, saving, fitting, evaluating, converting data, evaluating a function over data and comparing data sets give what the library gives on the same objects. '
     'Indices out of range, operands of different sizes and samples that are too short raise an error and change nothing.',
     ['inputs', 'programs'], 'For every value of the vectors, parameters and samples; for the sizes, indices, functions, parametrizations and sequences of calls instantiated.',
     'The Python tests load a few objects and print them; an accepted index beyond the end or a conversion that loses a column goes unseen.',
     ['sources/python/alta.cpp', 'sources/python/wrapper_data.h', 'sources/python/wrapper_vec.h', 'sources/python/wrapper_args.h'],
     [('PYBIND11_MODULE', 'sources/python/alta.cpp'), ('data2data, brdf2data, data2stats', 'sources/python/alta.cpp')],
     AI + '; the function that fills the module is interpreted to obtain the table of names and overloads, whose callables are then interpreted with overloads chosen as pybind11 does, and compared with the library on the same abstract objects', NOTE + 'Sizes, indices and parametrizations are concrete; pybind11 itself is taken to convert values as documented.')

prop('C25', 'Exported shaders compute the model',
     'Exporting a model as a shader gives a well-formed program: every name is declared, defined once and used with the right sizes. '
     'Its value at every pair of directions is the value of the model with its parameters, for single models, sums, and products with Fresnel and shadowing terms, one or three channels, alone or inside an explorer file.',
     ['inputs', 'configurations'], 'For every value of the parameters, at the directions instantiated; for the models and combinations instantiated.',
     'No test reads an exported shader; a term dropped or a brace lost only shows in the renderer, where the picture is merely a different one.',
     ['sources/core/function.cpp', 'sources/plugins/nonlinear_function_*/function.cpp', 'sources/softs/brdf2brdf/main.cpp'],
     [('function::save, compound_function::save_call, product_function::save_call', 'sources/core/function.cpp'), ('save_body and save_call of the models', 'sources/plugins/nonlinear_function_*/function.cpp')],
     AI + '; main() of the export command is interpreted over model files with unknown parameters, and the text it writes is parsed and interpreted over symbolic numbers and compared with the model', NOTE + 'Directions, models and combinations are concrete. Two lobes of one kind but of different types share a name in the text and are not covered; nor are exports to C++ and Matlab.')
