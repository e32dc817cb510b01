"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = 'gravity_toolkit/'

# id, title, statement, quantifier text, why tests cannot, files, mechanism[(name, where)], technique, note
P = []
NA = []


def prop(pid, title, statement, quant, why, files, mech, technique=None, note=None, na=None, over=('inputs',)):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': quant},
        'why_tests_cant': why, 'anchors': {'files': [f if f.startswith('scripts') else G + f for f in files],
        'mechanism': [{'name': n, 'where': w} for n, w in mech]}, '_t': technique, '_n': note, '_na': na})


VN = 'abstract interpretation to value numbers, identity test against published formulas'
NOTE = ('Every output named by the rule table is compared, over all paths and input shapes, with the reference formula by '
    'identity testing of normal forms; undecidable instances are listed in the evidence and raise no alarm. Trusts the '
    'numpy operator semantics in sa/gvn.py and sa/ident.py.')

prop('P01', 'Field arithmetic acts coefficient by coefficient and keeps the epoch',
    'Adding, subtracting, multiplying, dividing, scaling, raising to a power, drifting, convolving, averaging, indexing, '
    'copying or iterating a harmonic, geocenter or gridded field applies exactly the named operation to every coefficient '
    'or grid cell, with cosine and sine coefficients treated alike. Single fields and time series obey the same rule. The '
    'time, month and dimension metadata of the result are those of the matching entries of the operand. Masked arrays made of a field hold each coefficient at its degree and order (sines at negative orders), '
    'or each cell with its mask.',
    'every coefficient array, time series length, scalar or per-degree or per-time factor, and field dimensionality',
    'the tests exercise file round trips and one iteration; no test calls the arithmetic with a time series, a vector factor or a masked grid',
    ['harmonics.py', 'geocenter.py', 'spatial.py'],
    [('field arithmetic methods', 'harmonics.harmonics.add..power, geocenter.geocenter.add..power, spatial.spatial.offset..power')], VN, NOTE)
prop('P02', 'Synthesis, analysis and loads equal their defining sums',
    'Evaluating coefficients on a grid (direct sum, Clenshaw recursion, Fourier transform, smoothed and unit-converted, gradients or geostrophic '
    'currents) gives the sum over exactly the requested degrees and orders of basis function times coefficient. Deriving '
    'coefficients from a grid by integration gives the area-weighted sum over all grid cells, whichever way the grid is '
    'oriented and whether longitudes are negative. Coefficients of point, disc and cap loads equal their closed forms in every '
    'documented unit, degree amplitudes are root sums of squares over orders, and inputs are left unchanged.',
    'every coefficient set, grid, degree and order limit, smoothing radius, unit and Love number set',
    'one test checks one global grid at degree 60 in one unit; truncation in order, loads and gradients have none or one case',
    ['harmonic_summation.py', 'clenshaw_summation.py', 'harmonic_gradients.py', 'gen_stokes.py', 'gen_harmonics.py', 'gen_point_load.py', 'gen_disc_load.py',
    'gen_spherical_cap.py', 'degree_amplitude.py'],
    [('synthesis', 'harmonic_summation.harmonic_summation, harmonic_transform, stokes_summation'), ('analysis', 'gen_stokes.gen_stokes, gen_harmonics.integration'),
    ('loads', 'gen_point_load, gen_disc_load, gen_spherical_cap')], VN, NOTE)
prop('P03', 'Unit conversion factors equal the published degree-dependent formulas',
    'Every degree-dependent factor converting Stokes coefficients to water equivalent, geoid height, crustal uplift, '
    'horizontal displacement, viscoelastic uplift, gravity or pressure, and every factor converting spatial loads to '
    'coefficients, equals its published formula for all degrees and load Love numbers, with the elastic and ellipsoidal '
    'options honoured. The Earth constants and the parameters derived from them have their published values. Unit names, '
    'integer codes and unit attributes all denote the same quantity.',
    'every degree, Love number array, and combination of the elastic and ellipsoidal options',
    'unit tests compare a few ratios of the factors on one set of Love numbers and never vary the options',
    ['units.py'], [('degree-dependent factors', 'units.units.harmonic, units.units.spatial'), ('earth parameters', 'units.units.__init__')], VN, NOTE)
prop('P04', 'Geocenter conversions follow the published relation and invert exactly',
    'Converting degree-one coefficients to Cartesian geocenter motion or to water equivalent follows the published '
    'relation, including gravitational load Love numbers and the uncertainties. Converting back returns the original '
    'coefficients and uncertainties. Degree-one values are taken from and placed at degree 1, order 0 and 1 of the '
    'matching coefficient family.',
    'every coefficient value, load Love number and reference radius', 'no test touches the geocenter class',
    ['geocenter.py'], [('conversions', 'geocenter.geocenter.to_cartesian, from_cartesian, to_cmwe, to_mmwe, from_cmwe, from_mmwe')], VN, NOTE)
prop('P11', 'No code path reads a local result that was never computed',
    'For every combination of documented options, every function of the library and of the processing scripts computes '
    'each local result before using it. An unsupported option is rejected with an explicit error rather than by '
    'failing on a value that was never computed.',
    'every control path allowed by the documented option values',
    'tests execute one option combination of a few functions; the failing paths need particular combinations',
    ['grace_input_months.py', 'read_gfc_harmonics.py', 'time_series/piecewise.py', 'read_love_numbers.py', 'scripts/'],
    [('option dispatch', 'throughout')],
    'path-sensitive definite-assignment dataflow with fact contradiction', 'Loops over data are assumed to run at least once; an option '
    'outside the values dispatched or documented is not considered.', over=('inputs', 'configurations'))
prop('P05', 'Arguments stay unchanged and results own their storage',
    'A library function that computes a result leaves the arrays, lists, dictionaries and objects it is given as they were, and methods '
    'that return something other than their object, or write it to a file, leave the data, dates and attributes of the object as '
    'they were. Objects obtained from another by copying, indexing, subsetting, flattening, flipping, transposing, scaling or '
    'arithmetic share no storage with it, so changing one never changes the other. Only methods that return their own object, '
    'functions that return the very array they mask, and options that ask for it (apply) work in place.',
    'every argument array, object, dictionary and call sequence', 'tests call a function once and look at its result, not at what became of its arguments',
    ['harmonics.py', 'spatial.py', 'geocenter.py', 'read_love_numbers.py', 'mascons.py', 'gen_harmonics.py', 'time_series/'],
    [('object methods', 'harmonics.harmonics, spatial.spatial, geocenter.geocenter'), ('file writers', 'to_netCDF4, to_HDF5'), ('grid functions', 'mascons, gen_harmonics, time_series')],
    'interprocedural storage effect and alias analysis', 'Storage is tracked through names, attributes, containers, numpy views and calls inside the '
    'package; results of other third-party calls are taken to be new storage.', over=('inputs', 'histories'))
prop('P07', 'What is written to a file or dictionary is what is read back',
    'Writing harmonics or a gridded field to ascii, netCDF4 or HDF5 and reading the file back returns the same coefficients or grid values, '
    'errors, mask, coordinates, degree and order dimensions, dates and months, for single fields and time series, with or without dates, and '
    'with the descriptive attributes that were given. This holds for compressed and in-memory files, for renamed fields, for an index of '
    'files (put in date order), for ascii grids given by extent or spacing, and for the dictionaries of harmonics and geocenter objects. '
    'Writing again replaces the previous contents. A file that is not there under the given name is the one of that name in another case.',
    'every coefficient set, grid shape, mask, series length, file format, compression and choice of field names',
    'tests round-trip one square harmonic field per format and no grid, mask, index, compressed or renamed file',
    ['harmonics.py', 'spatial.py', 'geocenter.py'],
    [('writers and readers', 'harmonics.harmonics.to_netCDF4 .. from_index, spatial.spatial.to_ascii .. from_index, spatial.scaling_factors.from_ascii')],
    'abstract interpretation of writer and reader composed over a model of the file libraries, identity test against the written object',
    'The netCDF4, h5py, gzip and zip libraries are taken to keep what they are given (contract in sa/store.py); ascii fields keep the digits of their format.')
prop('P08', 'Monthly series are assembled from the right files, months and corrections',
    'A monthly series holds, for every month of the range that is not listed as missing, the coefficients, errors and date of the file of that month, to the '
    'requested degree and order. The low-degree coefficients and geocenter are replaced by the values of the same month from the file of '
    'the chosen source and release (after the loss of an accelerometer only, except C20), months without a replacement are refused '
    'or modelled by least squares when asked, and atmospheric corrections are those of their period, removed from or added to the right products. '
    'Title, directory and attributes name what was done. Inputs are left unchanged.',
    'every processing centre, release, product, month range, missing month, truncation, replacement source and correction option',
    'no test reads a monthly series: the function needs an archive of files',
    ['grace_input_months.py', 'scripts/geocenter_compare_tellus.py', 'scripts/quick_mascon_plot.py'],
    [('assembly', 'grace_input_months.grace_input_months'), ('corrections', 'grace_input_months.read_ecmwf_corrections'), ('modelling', 'grace_input_months.regress_model')],
    VN, NOTE)
prop('P09', 'Load Love numbers are read, completed and referenced as documented',
    'Reading a table of load Love numbers returns, at every degree the table has, exactly the numbers of the table in the named columns; degrees '
    'missing between two tabulated ones are interpolated linearly, degrees beyond the last one are extrapolated linearly from the two before, '
    'and an infinite degree stands for the largest one. Degree one is moved to the requested reference frame (CF, CL, CH, CM or CE) by its '
    'isomorphic parameter, alike for tables and for Love number objects. Every output format holds the same numbers, the column order, header '
    'length, truncation and Fortran exponents make no difference, and each of the five packaged models is read from its own file by the '
    'columns its header names.',
    'every table of numbers, set of tabulated degrees, truncation, column order, header, frame and output format',
    'tests compare a few degrees of one packaged file; the last tabulated degree, gaps and other frames are not looked at',
    ['read_love_numbers.py'],
    [('reader', 'read_love_numbers.read_love_numbers, extract_love_numbers, love_number_formatter'), ('models', 'read_love_numbers.load_love_numbers'),
        ('object', 'read_love_numbers.love_numbers')],
    'abstract interpretation of the reader over symbolic file lines, identity test against the documented completion and frames',
    'Numbers keep the digits printed in the file; tables of up to ten rows stand for longer ones (the reader treats rows alike).')
prop('P14', 'Replaced low degrees and geocenter are read as their files document',
    'Every reader of satellite laser ranging coefficients (C20, C30, C40, C50, C21/S21, C22/S22 and the weekly and monthly fields to degree five) and of '
    'geocenter files (GravIS, laser ranging, degree one from ocean models, Swenson, Tellus, netCDF4) returns for each line of its file the values and '
    'deviations of the columns its format documents, in its units, with the removed background or mean added back when asked. The date of each value is '
    'that of the line, weekly arcs are averaged over those nearest the asked dates, and the month is the one of the date after the adjustment of doubled '
    'months. Lines without a solution, headers and blank lines are skipped, and a month with two solutions has the flagged one.',
    'every value, number of lines, column order, header and option of each documented file format',
    'no test reads one of these files; they are not part of the package',
    ['SLR/', 'read_SLR_harmonics.py', 'geocenter.py'],
    [('columns', 'SLR/C20.py, C30.py, C40.py, C50.py, CS2.py'), ('fields', 'read_SLR_harmonics.read_SLR_harmonics, convert_weekly'),
        ('geocenter', 'geocenter.geocenter.from_gravis, from_SLR, from_UCI, from_swenson, from_tellus, from_netCDF4')],
    'abstract interpretation of the readers over symbolic file lines, identity test against the documented columns',
    'Numbers keep the digits printed in the file; files of a few lines stand for longer ones. Calendar conversions are decided by P22 and take their documented meaning here.')
prop('P10', 'Command-line options reach the computation they name',
    'Every option a script declares is read, and every value a script reads from its command line is declared. An option reaches '
    'the parameter of the same meaning in every script, and its type is one the receiving library parameter documents. '
    'Arguments carrying the names of parameters are not exchanged between those parameters, and an option other scripts hand on to the '
    'same-named optional parameter of a library function is handed on.',
    'every option of every script and every call between package functions',
    'no test runs a script; a dropped or crossed option still gives a plausible result',
    ['scripts/grace_spatial_maps.py', 'scripts/calc_mascon.py', 'scripts/combine_harmonics.py', 'scripts/'],
    [('option parsers and their main functions', 'scripts/*.py arguments() and main()')],
    'command-line model from value numbering, wiring and deviant-call conformance', 'Compares scripts with each other where a rule needs an '
    'expected route (at least three sites, four fifths agreeing); an option misrouted in every script alike is not seen.', over=('configurations',))
prop('P12', 'Calls, attributes and keys refer to things that exist',
    'Every call between package functions binds to the parameters of its callee, every attribute read from a package object, class or '
    'module is defined, read-only properties are not assigned, and every key, index or tuple read from the result of a package function or '
    'from a mapping built in place is present in it. Every function of numpy, scipy and matplotlib used exists in the installed version and accepts '
    'the arguments given.',
    'every call, attribute read and constant subscript on every path of the library and scripts',
    'tests reach a few functions of the library and no script; the failing paths need particular options',
    ['harmonics.py', 'spatial.py', 'tools.py', 'scripts/'], [('call sites', 'throughout')],
    'call binding, attribute and returned-key conformance on value-numbered summaries', 'Dynamic attributes, keys computed at run time and other '
    'third-party packages are not decided.', over=('inputs', 'configurations'))
prop('P15', 'Models of glacial isostatic adjustment are read as published',
    'Reading a model of glacial isostatic adjustment, as a dictionary or as a gia object, gives the coefficients its file states: each cosine and sine '
    'coefficient at its degree and order, in the units the format documents (1E-11 for IJ05-R2 and ICE6G, divided by the radius in millimetres for Wu10), '
    'zero for every other term up to the asked degree, with no columns past the asked order, and the title built from the name of the file. The order of '
    'the lines, exponents printed with D, headers and absolute sea level blocks do not matter. Formats documented are IJ05-R2, W12a, SM09, ICE6G, ICE6G-D, '
    'AW13-ICE6G, AW13-IJ05, Wu10, Caron, and fields rewritten as ascii, netCDF4 or HDF5, which read back the same.',
    'every coefficient, degree, order, file name of each family and asked limit',
    'no test reads a model; the trend files are not part of the package',
    ['read_GIA_model.py'],
    [('models', 'read_GIA_model.read_GIA_model, gia.from_GIA')],
    'abstract interpretation of the reader over symbolic file lines, identity test against the documented layout',
    'Files of a few degrees stand for longer ones.')

prop('P16', 'Monthly solutions are found, dated and numbered from their file names',
    'The dates of a GRACE/GRACE-FO Level-2, ITSG or Swarm file are those of its name. The table of dates lists every solution of the index of a product in '
    'order with its mid-month date in years, first and last days, days since January 1, 2002 and GRACE month (solutions that share a month get the neighbouring '
    'month without a solution; CNES RL01 and RL02 count 10-day periods), and the returned dictionary maps each month to its file. The months of a product are '
    'those of that table, made when absent, with the first and last, and the months without a solution as missing. The index of the months lists each month '
    'with the dates of every center or marks it missing. Reduction by date keeps the newest version for each date, in order of dates. The search pattern of a '
    'product matches exactly its own granules for the asked mission, solution and version, any when not given.',
    'every list of file names, order, center, release, product, version and gap between months',
    'no test lists a directory, makes a table or an index, or matches a granule',
    ['grace_date.py', 'grace_find_months.py', 'grace_months_index.py', 'time.py', 'utilities.py'],
    [('tables', 'grace_date.grace_date, grace_find_months.grace_find_months, grace_months_index.grace_months_index'),
     ('names', 'time.parse_grace_file, time.parse_gfc_file, time.reduce_by_date, time.adjust_months'), ('patterns', 'utilities.compile_regex_pattern')],
    'abstract interpretation over symbolic names and lines of files, identity test against the documented layout',
    'Pairs of solutions in a month are resolved against their direct neighbours; a pair with no neighbouring month on either side is not judged. Spans of a '
    'handful of solutions stand for longer ones.')

prop('P17', 'Mascons, regions and display grids keep what is where on the Earth',
    'Each cell of a grid made from GSFC or JPL mascons has the value of the mascon it lies in and zero where there is none; the average of a grid over a mascon '
    'weights its points with the cosine of the latitude, in any longitude convention and across the dateline and the poles, and mascons without points are masked. '
    'Ocean and land harmonics are those of the ocean or land points of the mask (islands and lakes are land, isolated points of land dropped on request) up to the '
    'asked degree and order. A shifted global grid begins at the asked longitude and every column keeps its longitude, interpolation of order zero takes the '
    'nearest point and stops at the edges, and places on land (with the asked lakes and ice shelves) are masked. A color table has the colors of the file at its levels.',
    'every grid, mascon layout, mask, longitude and latitude', 'no test converts a mascon, shifts a grid or makes a mask',
    ['mascons.py', 'ocean_stokes.py', 'tools.py'],
    [('mascons', 'mascons.to_gsfc, to_jpl, from_gsfc, from_jpl'), ('regions', 'ocean_stokes.ocean_stokes, land_stokes, find_isolated_points'),
     ('display', 'tools.shift_grid, interp_grid, wrap_longitudes, mask_oceans, from_cpt')],
    'numeric abstract interpretation of the returned expressions, identity test against the geometric definition',
    'Interpolation of order above zero is that of scipy. Mascon layouts and grid spacings are a fixed set; values, masks and places are symbolic.')

prop('P18', 'Downloads, listings and catalogues are those of the remote archives',
    'A remote file is saved under the documented directory exactly when the local one is missing or differs, with the asked permissions (and for FTP the remote time), and is returned in '
    'either case; a damaged download is reported. Listings hold the files that fit the pattern, each with its own time, sorted on request. Queries of the catalogue '
    'name the documented collections, dates and granules, follow all pages, and return each granule with its own address and time. Checksums, split addresses and '
    'times (universal when there is no zone) are those of the given content. Credentials come from the netrc file, the arguments, the environment or the prompt, '
    'and are asked for again until they are accepted; a unique file never replaces one that is there.',
    'every content, address, listing and history of files on disk', 'no test asks a server or saves a file; tests run without a network',
    ['utilities.py'],
    [('transfers', 'utilities.from_http, from_ftp, from_drive, from_csr, from_gfz, from_gsfc, from_figshare'), ('listings', 'utilities.http_list, ftp_list, drive_list, gsfc_list, icgem_list'),
     ('catalogue', 'utilities.cmr, cmr_filter_json, cmr_metadata, cmr_product_shortname'), ('login', 'utilities.attempt_login, get_token')],
    'abstract interpretation against the documented contract of the network and file libraries, identity test of the directory left behind',
    'Servers are tables of addresses and contents and directories tables of files; faults of the network are N04. Contents stand for all others: only their equality matters.')

prop('P20', 'The documented calling interface is the implemented one',
    'Every documented parameter of a function is accepted under its documented name and position, its documented default is the default '
    'used, and for every documented value of an option some path of the function returns a result.',
    'every documented parameter, default and option value', 'tests call few functions and mostly with the same options',
    ['harmonics.py', 'spatial.py', 'utilities.py', 'time_series/', 'SLR/'], [('docstrings against signatures', 'throughout')],
    'docstring-to-signature conformance and abstract execution with each documented value', 'Only literal defaults and option values written in the numpy '
    'docstring form are compared.', over=('configurations',))
prop('P22', 'Calendar, Julian-day and GRACE-month conversions are exact',
    'Days per month and leap years follow the Gregorian calendar, and calendar dates convert to decimal years and modified '
    'Julian days, and Julian days to calendar dates, by the published relations, for scalars and arrays alike. GRACE/GRACE-FO month '
    'numbers convert to calendar year and month and back without loss. Time units have their exact length in seconds, and a text of '
    'a date or of units since a date gives the date in UTC and the length of the unit.',
    'every date from 1896 to 2104 and every optional date field given or absent',
    'tests sample a handful of dates and never mix optional fields',
    ['time.py'], [('conversions', 'time.calendar_days .. time.convert_julian')], VN, NOTE)

prop('P23', 'Monthly Level-2 files are read with their dates and corrections',
    'Reading a GRACE or GRACE-FO Level-2 file returns the cosine and sine coefficients and their standard deviations of every line of the file '
    'at its degree and order up to the requested truncation, zero for terms the file lacks and one for degree zero of the field. The mid-date '
    'in decimal years and the Julian start and end dates are those of the file name, across year ends and leap years. Drift rates are applied '
    'for release 4 fields only, and the pole tide correction is that of the processing centre, the IERS mean pole of the date included, for '
    'GSM fields only. The result does not depend on the header layout, compression, suffix or in-memory form of the file. GRAZ and Swarm gfc '
    'files take the dates of their name, and the tide system, flag and archive form asked for are passed on. Either kind read as a harmonics '
    'object has the coefficients, degrees, orders, parameters, date and month of its file.',
    'every coefficient, truncation, processing centre, product, release, span of dates, header layout and packaging',
    'tests need downloaded files and credentials; none runs offline',
    ['read_GRACE_harmonics.py', 'read_gfc_harmonics.py', 'time.py'],
    [('reader', 'read_GRACE_harmonics.read_GRACE_harmonics, extract_file'), ('dates', 'read_GRACE_harmonics.parse_file, time.convert_calendar_dates'),
        ('gfc', 'read_gfc_harmonics.read_gfc_harmonics')],
    'abstract interpretation of the reader over symbolic file lines, identity test against the documented contents, dates and corrections',
    'Files of degree four stand for larger ones; regular expressions are applied to the literal file names.')
prop('P24', 'Time-series estimates equal their defining formulas',
    'Linear, polynomial, piecewise and harmonic regressions return the least-squares coefficients, uncertainties, residuals and '
    'goodness-of-fit measures of their design matrix, unweighted, weighted or with data errors, at the chosen confidence; moving '
    'average, Loess and Savitzky-Golay smoothing return the window estimates at the matching times. Periodograms return the '
    'power, probability, frequency and period of the requested range, and amplitude and phase combine sine and cosine terms; '
    'input series and uncertainties are left unchanged.',
    'every series, sampling, window, order, set of cycles and extra terms, weighting, and confidence option',
    'no test runs the time-series package',
    ['time_series/regress.py', 'time_series/piecewise.py', 'time_series/smooth.py', 'time_series/savitzky_golay.py', 'time_series/lomb_scargle.py',
    'time_series/amplitude.py', 'time_series/fit.py'],
    [('regressions', 'time_series.regress.regress, time_series.piecewise.piecewise'), ('smoothing', 'time_series.smooth.smooth, time_series.savitzky_golay.savitzky_golay'),
    ('spectra', 'time_series.lomb_scargle.lomb_scargle')], VN, NOTE)
prop('P06', 'Smoothing weights and destriping filters equal their definitions',
    'Gaussian smoothing weights equal the transform of the bell of the given half width at every degree up to the maximum, '
    'constant once they fall below the cutoff, and constant for a zero radius. The averaging kernel coefficients minimize the '
    'combined satellite and leakage error for the given uncertainties, in every unit, to the given degree and order. '
    'Destriping subtracts, separately for even and odd degrees of each order, the running quadratic fit of the window of that '
    'order, in cosine and sine coefficients alike; orders with fewer points than the window are kept or removed as chosen. '
    'Inputs are left unchanged.',
    'every radius, cutoff, coefficient set, uncertainty, degree and order limit, window and option',
    'one test smooths one set of coefficients; no test runs the averaging kernel or the destriping filter',
    ['gauss_weights.py', 'gen_averaging_kernel.py', 'destripe_harmonics.py'],
    [('weights', 'gauss_weights.gauss_weights'), ('kernel', 'gen_averaging_kernel.gen_averaging_kernel'), ('filter', 'destripe_harmonics.destripe_harmonics')], VN, NOTE)
prop('P25', 'Legendre functions, Fourier coefficients and transforms equal their closed forms',
    'Every method for fully normalized associated Legendre functions gives the same functions and first derivatives in '
    'colatitude, to the requested degree and order, for scalar, vector and polar arguments; the Legendre polynomials, '
    'unnormalized functions and gradients of single degrees follow their definitions and normalizations. '
    'Fourier coefficients of the Legendre functions and gradients, summed as series, give the functions back. '
    'Harmonic coefficients derived by the Fourier method equal those derived by integration for every band-limited grid, '
    'however its longitudes and latitudes are arranged. Inputs are left unchanged.',
    'every degree, order, truncation, argument, grid and orientation',
    'the tests compare three methods at one maximum degree; derivatives, truncated orders, gradients and the Fourier method have none',
    ['associated_legendre.py', 'legendre_polynomials.py', 'legendre.py', 'fourier_legendre.py', 'gen_harmonics.py'],
    [('functions', 'associated_legendre.plm_holmes, plm_colombo, plm_mohlenkamp'), ('series', 'fourier_legendre.fourier_legendre, legendre_gradient'),
    ('transform', 'gen_harmonics.fourier')], VN, NOTE)

prop('P13', 'The sea level equation iterates the published relation',
    'The sea level field of a load is the one given by the published iteration: the uniform layer that balances the mass of the load, '
    'then, until the change falls to the stated tolerance or the iteration limit is reached, the geoid minus crust response of the load and of the water, '
    'with polar feedback at degree two order one, limited to the ocean and shifted to conserve mass. Fields vanish where there is no ocean unless '
    'a fill value is given; every documented body tide and fluid Love number, degree limit and orientation of the grid is honoured. Inputs are left unchanged.',
    'every load, land function, grid, degree, iteration limit and Love number set',
    'no test runs the solver',
    ['sea_level_equation.py'],
    [('iteration', 'sea_level_equation.sea_level_equation')], VN, NOTE)

NA_REASONS = {}


def na(pid, title, statement, quant, why, files, mech, reason, over=('inputs',)):
    prop(pid, title, statement, quant, why, files, mech, na=reason, over=over)


na('N01', 'Legendre recursions do not amplify rounding at high degree',
    'The floating-point recursions for associated Legendre functions and the Clenshaw sum stay accurate to the documented tolerance at every degree, order and colatitude, and '
    'transforming a grid to coefficients and back reproduces the field within the truncation error.',
    'every degree, order, colatitude and grid spacing', 'tests sample two degrees at a few colatitudes',
    ['associated_legendre.py', 'gen_harmonics.py', 'harmonic_summation.py', 'clenshaw_summation.py'], [('recursions', 'associated_legendre.plm_holmes')],
    'rounding growth of floating-point recursions over degree is a runtime quantity no static bound in reach controls')
na('N02', 'The sea level iteration converges',
    'For every land function and load the sea level iteration reaches the stated tolerance within its iteration limit.',
    'every load, land function, iteration limit and Love number set', 'no test runs the solver',
    ['sea_level_equation.py'], [('iteration', 'sea_level_equation.sea_level_equation')],
    'whether the iteration contracts depends on the load field at run time; each step, its mass balance and the exit test are decided under P13')
na('N03', 'Monte Carlo and resampling error estimates are unbiased',
    'Monte Carlo geocenter errors and spatial error estimates converge to the propagated covariance as the number of runs grows.',
    'every error model and number of runs', 'no test runs the scripts',
    ['scripts/monte_carlo_degree_one.py', 'scripts/grace_spatial_error.py'], [('sampling loop', 'scripts/monte_carlo_degree_one.py')],
    'a statistical statement about random draws, not about program structure')
na('N04', 'Downloads recover from network and server faults',
    'A connection that fails, stalls or truncates leaves no partial file in place of a complete one and is retried up to the documented limit.',
    'every fault of the network and the remote servers', 'tests run without a network',
    ['utilities.py', 'scripts/podaac_cumulus.py'], [('transfer helpers', 'utilities.from_http, utilities.from_ftp')],
    'quantifies over server and socket behaviour that is not in the source', over=('fault_sequences',))
na('N05', 'Text files keep every digit of the coefficients',
    'Writing a field as text and reading it back loses no more than the printed precision for every magnitude of coefficient.',
    'every floating-point value', 'tests round-trip one model',
    ['harmonics.py', 'spatial.py', 'geocenter.py'], [('text writers', 'harmonics.harmonics.to_ascii')],
    'decimal rounding of runtime values; the column structure is decided statically by other properties, the rounding is not')


def main():
    import importlib.util
    more = os.path.join(ROOT, 'tools', 'props_more.py')
    if os.path.exists(more):
        spec = importlib.util.spec_from_file_location('more', more)
        m = importlib.util.module_from_spec(spec)
        m.prop, m.na, m.VN, m.NOTE = prop, na, VN, NOTE
        spec.loader.exec_module(m)
    P.sort(key=lambda p: (p['_na'] is not None, p['id']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
    for p in P:
        if p['_na']:
            man['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
        else:
            man['checks'].append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}',
                'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough', 'technique': p['_t'], 'level': 'other', 'level_note': p['_n']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
