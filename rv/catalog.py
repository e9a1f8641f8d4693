"""The properties: source of properties.jsonl and MANIFEST.json.

Each entry: id, title, statement, over, text, why, anchors (file: mechanism
pairs), technique, note.  `python3 rv/build_manifest.py` regenerates both
files.
"""
G = 'gravity_toolkit/'
P = []


def prop(id, title, statement, text, why, anchors, note, over=('inputs',),
        technique=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        over=list(over), text=' '.join(text.split()),
        why=' '.join(why.split()), anchors=anchors,
        note=' '.join(note.split()), technique=technique or
        'runtime monitoring: generated workloads on the real code, every '
        'returned value judged online by an independent reference oracle'))


prop('M01', 'Legendre polynomials and functions are correct everywhere', '''
All routines that evaluate Legendre polynomials or fully normalized associated
Legendre functions (every recursion method, single-degree and zonal forms, and
the Fourier-series coefficients) return, for every degree, order and angle they
accept, the true function values and first derivatives to the accuracy of their
floating-point type. All methods agree with each other, entries with order
above degree are zero, and truncation to a maximum order only drops
columns.''', '''
All maximum degrees (including 0, 1 and odd ones, and high degrees in quick
samples), maximum orders, colatitudes (polar, equatorial, random), methods and
output precisions.''', '''
The tests compare the recursion methods with each other at one degree on one
grid; shared errors, low and odd degrees, truncation and near-pole behaviour
are never sampled.''',
    [('associated_legendre.py', 'plm_holmes, plm_colombo, plm_mohlenkamp'),
     ('legendre.py', 'legendre'), ('legendre_polynomials.py', 'legendre_polynomials'),
     ('fourier_legendre.py', 'fourier_legendre, legendre_gradient')],
    '''Exploration with an extended-precision oracle written for the check;
    trusts numpy's 80-bit arithmetic.''')

prop('M02', 'Synthesis evaluates the spherical harmonic series', '''
Summing a set of coefficients onto a grid, an evenly spaced grid by FFT, or a
list of points returns the spherical harmonic series of exactly the requested
degree and order range at each location, whichever routine is used. With units,
Love numbers and a smoothing radius the result is the series of the
coefficients multiplied by the corresponding per-degree factors.''', '''
All coefficient sets, LMIN/LMAX/MMAX combinations, grids and point sets
(including non-uniform and global-wrap longitudes and poles), units and radii.''', '''
The tests check two routines against each other for one month of data; neither
truncation combinations nor an independent value are examined.''',
    [('harmonic_summation.py', 'harmonic_summation, harmonic_transform, stokes_summation'),
     ('clenshaw_summation.py', 'clenshaw_summation, clenshaw_s_m')],
    '''Exploration against direct extended-precision summation.''')

prop('M03', 'Analysis recovers harmonics and inverts synthesis', '''
Converting a global field into harmonics (gridded integration, Fourier-Legendre
analysis, or integration with units and Love numbers) returns the coefficients
of the field in the requested degree and order range, is linear in the field,
does not depend on the orientation of the latitude axis, and undoes synthesis
to the accuracy of the quadrature.''', '''
Band-limited fields on regular grids: node- or cell-centred, closed or open
longitudes, any LMIN/LMAX/MMAX below the grid's resolution, all units.''', '''
The tests do one round trip on one grid; orientation, truncation, units and
grids touching the poles are not sampled.''',
    [('gen_harmonics.py', 'integration, fourier'), ('gen_stokes.py', 'gen_stokes')],
    '''Exploration; gridded integration is judged against an independent
    rectangle rule and at the rectangle rule's accuracy against the truth.''')

prop('M04', 'Gradients and geostrophic currents match their fields', '''
Gradients computed from coefficients equal the analytic zonal and meridional
derivatives of the field those coefficients synthesise, and geostrophic
currents equal the geostrophic balance of that field, for every degree and
order range, with and without smoothing, Love numbers or averaging.''', '''
All coefficient sets, truncations (odd, even, order below degree), and grids
away from the poles and (for currents) the equator.''', '''
The existing test drives one case and compares with a finite difference
loosely; normalization of individual orders, cosine/sine pairing and options
are not settled.''',
    [('harmonic_gradients.py', 'harmonic_gradients, geostrophic_currents'),
     ('fourier_legendre.py', 'legendre_gradient')],
    '''Exploration against analytic derivatives of the reference series; one
    overall sign common to a gradient component is treated as convention.''')

prop('M05', 'Unit factors are the published per-degree conversions', '''
For any maximum degree, load Love numbers and ellipsoid, the conversion factor
for every unit (forward, gridded and inverse) equals its closed-form
definition, and factor look-ups by name or code return the attribute of that
unit with correct metadata, or fail for unknown ones.''', '''
All maximum degrees, Love numbers, ellipsoids, solid-earth options, unit names
and integer codes.''', '''
No test inspects factor values other than through one synthesis; names, codes,
derived constants and low degrees are unsampled.''',
    [('units.py', 'units.harmonic, units.spatial, units.get, units.bycode')],
    '''Exploration against closed forms; some unit definitions (for example
    microGal for a gravity disturbance) follow the library's documentation.''')

prop('M06', 'Load Love numbers are read, interpolated and framed right', '''
Reading load Love numbers returns, for every supported model, maximum degree,
table layout and output format, the tabulated values, linear interpolation in
gaps and linear extrapolation beyond the table, with degree one expressed in
the requested reference frame by one consistent isomorphic parameter.''', '''
All distributed tables, generated tables with gaps, headers and column orders,
maximum degrees below, at and above the table, frames and output formats.''', '''
The tests read the distributed tables at a handful of maximum degrees and
compare a few numbers.''',
    [('read_love_numbers.py', 'read_love_numbers, load_love_numbers, extract_love_numbers, love_numbers')],
    '''Exploration against an independent parser and interpolator.''')

prop('M07', 'Smoothing weights and averaging kernels are correct', '''
Gaussian smoothing weights equal the Legendre expansion of the normalised
Gaussian cap with the given half-width radius for every degree (or vanish where
negligible), never amplify, and damp no less for larger radii; averaging
kernels combine region function, measurement error and smoothing into the
regularised minimum-error form.''', '''
All radii from zero to thousands of kilometres, all maximum degrees, regions
and error models.''', '''
The tests compare a few hand-picked weights with the analytical recursion.''',
    [('gauss_weights.py', 'gauss_weights'), ('gen_averaging_kernel.py', 'gen_averaging_kernel')],
    '''Exploration against quadrature; weights below the truncation level are
    only required to be small.''')

prop('M08', 'Destriping removes only the correlated part', '''
The decorrelation filter subtracts from each coefficient of order 5 and above
the running quadratic fit over degrees of the same parity and order, leaves
every other coefficient untouched, and is linear, so signals without correlated
errors below order 5 pass unchanged and fields quadratic in degree vanish.''', '''
All coefficients, maximum degrees and orders, window-width options.''', '''
The test filters one month and compares with a stored file.''',
    [('destripe_harmonics.py', 'destripe_harmonics')],
    '''Exploration against an independent least-squares implementation.''')

prop('M09', 'Point, disc and cap loads have the harmonics of the load', '''
The coefficients generated for point masses, uniform discs and spherical caps
are those of the surface load with the given position, size and mass in the
given input units, for every degree and order range. They are additive over
loads, rotate with the load and tend to the point load as the size vanishes.''', '''
All positions (including poles and the date line), sizes, units, truncations
and Love numbers.''', '''
The test compares spherical caps with one closed form for one location.''',
    [('gen_point_load.py', 'gen_point_load'), ('gen_disc_load.py', 'gen_disc_load'),
     ('gen_spherical_cap.py', 'gen_spherical_cap')],
    '''Exploration against quadrature of the load and the addition theorem.''')

prop('M10', 'Ocean and land functions describe the mask', '''
The harmonics of the ocean function and land function read from a land-sea mask
are those of the indicator functions over the cells the mask marks as ocean or
land, and together they are the harmonics of a uniform layer; simplifying the
mask changes only isolated coastal cells as decided by their neighbours.''', '''
All categorical masks, grid sizes, orientations, truncations and variable
names.''', '''
No test runs these routines (the distributed masks are not even present).''',
    [('ocean_stokes.py', 'ocean_stokes, land_stokes, find_neighbors')],
    '''Exploration with generated masks against independent quadrature.''')

prop('M11', 'The sea level equation conserves mass and converges', '''
For every load, land mask and Love numbers the solved sea level is a fixed
point (or an iterate) of the sea level equation: it is supported on the ocean,
the ocean mass balances the load mass, responds linearly to the load, and
equals an independent solution with the requested rotational feedback,
density and body-tide options.''', '''
All masks, loads, truncations, polynomial inputs, iteration limits, feedback
options and secular Love numbers.''', '''
No test exercises the solver.''',
    [('sea_level_equation.py', 'sea_level_equation')],
    '''Exploration; conservation and fixed-point monitors plus a reference
    iteration (tolerance 1e-7 of the largest change).''')

prop('M12', 'Degree amplitudes measure the power per degree', '''
The degree amplitude of a set of coefficients or time series is, degree by
degree, the square root of the sum of squared coefficients of that degree over
the requested orders, equals the mean square of the synthesised field by
Parseval's identity, and always reflects the current coefficients.''', '''
All coefficients, degree and order limits and numbers of months.''', '''
The tests exercise one set.''',
    [('degree_amplitude.py', 'degree_amplitude'), ('harmonics.py', 'harmonics.amplitude')],
    '''Exploration against direct sums and field quadrature.''')

prop('H01', 'Harmonics arithmetic is coefficient-wise arithmetic', '''
Adding, subtracting, multiplying, dividing, scaling, convolving, averaging,
raising to a power, drifting and filtering harmonics objects acts on each
coefficient of each month exactly as the same operation on plain numbers, over
the degrees and orders both operands share. The other operand is never
modified, inverse operations undo each other, and derived quantities follow the
current coefficients.''', '''
All objects (sizes, orders, single fields and time series), operands of equal
or different size, scalars and arrays, and sequences of operations.''', '''
The tests apply a few operations to one object.''',
    [('harmonics.py', 'add, subtract, multiply, divide, scale, power, convolve, mean, drift, destripe')],
    '''Exploration; every coefficient compared with the same operation on plain
    arrays and operands snapshotted bit-exactly.''',
    over=('inputs', 'histories'))

prop('H02', 'Structural operations keep each coefficient and its date', '''
Copying, flattening, expanding, indexing, subsetting, merging, truncating,
squeezing, iterating and converting harmonics never change, lose or mislabel a
value: each coefficient stays with its degree, order, date and month, copies
share nothing with the original, and inverse operations restore the
object.''', '''
All objects, selections (single, repeated, missing months), truncations, and
random sequences of operations.''', '''
The tests check a few of these on one or two objects, never sequences.''',
    [('harmonics.py', 'copy, flatten, expand, index, subset, from_list, truncate, squeeze, __next__, to_dict, from_dict')],
    '''Exploration including random histories against a plain-array model.''',
    over=('inputs', 'histories'),
    technique='runtime monitoring: random operation histories on the real '
    'objects, checked step by step against a plain-array model')

prop('H03', 'Harmonics survive being written and read', '''
Harmonics written to any supported format (text, netCDF4, HDF5, index of files)
and read back, compressed or not, by name or file object, have the same
coefficients, limits, dates, months and attributes to the precision of the
format; the stored files carry the documented layout, and overwriting leaves
nothing of an older file.''', '''
All objects, formats, compressions, dated or not, file name cases, attributes,
any order of rows and files.''', '''
The tests round trip one object per format, mostly without compression.''',
    [('harmonics.py', 'from_ascii, from_netCDF4, from_HDF5, from_index, from_file, to_ascii, to_netCDF4, to_HDF5, to_index, to_file')],
    '''Exploration; stored files are also read with netCDF4/h5py directly.''',
    over=('inputs', 'histories'))

prop('S01', 'Arithmetic on gridded data respects values and invalid points', '''
Offsetting, scaling, adding, subtracting, multiplying, dividing, averaging,
anomalies, sums, powers, minima and maxima of spatial objects act on every
valid grid point exactly as on plain numbers; a result is invalid precisely
where an operand is invalid, invalid points never leak into valid ones, and
masks, fill values and the other operand follow the documented rules.''', '''
All grids, single fields and time series, masks, fill values (None, NaN,
sentinels), operands and sequences of operations.''', '''
The tests apply a few operations to unmasked data.''',
    [('spatial.py', 'offset, scale, add, subtract, multiply, divide, mean, kfactor, sum, power, max, min, replace_invalid, replace_masked, update_mask')],
    '''Exploration against numpy masked arithmetic written for the check.''',
    over=('inputs', 'histories'))

prop('S02', 'Structural operations keep each grid point and its date', '''
Copying, indexing, subsetting, merging, iterating, flipping, transposing,
expanding, squeezing and converting spatial objects never change, lose or
mislabel a value: every value stays with its latitude, longitude, date and
month, derived extents and spacing describe the grid, copies share nothing,
and inverse operations restore the object.''', '''
All grids (square, single row, either latitude order), series lengths,
selections, axes and merged lists, dated or not.''', '''
The tests check a few operations on one grid.''',
    [('spatial.py', 'copy, zeros_like, index, subset, from_list, flip, transpose, expand_dims, squeeze, extend_matrix, to_masked_array, __next__')],
    '''Exploration against a plain-array model.''', over=('inputs', 'histories'))

prop('S03', 'Gridded data survives being written and read', '''
Spatial fields written to any supported format (text, netCDF4, HDF5, index of
files) and read back, compressed or not, by name or file object, have the same
values, coordinates, dates, months, invalid points and attributes to the
precision of the format; files follow the documented layout whatever the order
of the stored dimensions or rows, and overwriting leaves nothing of an older
file.''', '''
All grids including square ones, formats, compressions, dimension orders,
missing cells, fill values, dated or not, file name cases.''', '''
The tests round trip one object per format, mostly uncompressed and
non-square.''',
    [('spatial.py', 'from_ascii, from_netCDF4, from_HDF5, from_index, from_file, to_ascii, to_netCDF4, to_HDF5, to_index, to_file')],
    '''Exploration; stored files are also read with netCDF4/h5py directly.''',
    over=('inputs', 'histories'))

prop('S04', 'Scaling factors minimise the difference of the two series', '''
Scaling factors computed between two gridded series are, point by point, the
least-squares factors, with the matching error, magnitude and mask, respond
correctly to scaling of either series, and survive being written and read in
every supported format and being copied.''', '''
All gridded pairs, lengths, masks, fill values and formats.''', '''
The tests never compute or read a scaling factor.''',
    [('spatial.py', 'kfactor, scaling_factors')],
    '''Exploration against an independent least-squares fit.''')

prop('T01', 'Calendar dates, decimal years and Julian days agree', '''
Conversions between calendar dates, days of year, decimal years, Julian days
and lengths of months agree with the proleptic Gregorian calendar for every
date and time, scalars and arrays alike; conversions there and back restore
the date, and the decimal year increases strictly with the date.''', '''
All dates (leap and century years, ends of months and years), times of day,
defaulted fields, scalars, lists and arrays.''', '''
The tests convert one or a few dates.''',
    [('time.py', 'convert_calendar_decimal, convert_julian, calendar_to_julian, calendar_days')],
    '''Exploration against the standard library's datetime arithmetic.''')

prop('T02', 'GRACE/GRACE-FO months number the calendar and special months', '''
GRACE month numbers count calendar months since December 2001 in both
directions, and for every mission record the adjustment for months centred
outside their calendar month gives each solution a number of its own: ordinary
months keep theirs, the documented special months get the number of the month
they belong to, and no month is lost or becomes invalid.''', '''
All month ranges, dates, mission records with any gaps, and centres.''', '''
The tests check one full record.''',
    [('time.py', 'calendar_to_grace, grace_to_calendar, adjust_months')],
    '''Exploration; a special month is judged when its documented rule can
    decide it from the record.''', over=('inputs', 'histories'))

prop('T03', 'Times relative to epochs denote the same instants', '''
Delta times, epochs, scales, units, date strings and datetimes convert to each
other without moving the instant they denote: conversions agree with exact
calendar arithmetic for every epoch and unit, invert each other, and date
strings in every accepted form are read as the date they state.''', '''
All epochs (strings, tuples, numpy dates), dates including century years,
scales, units and date string forms.''', '''
The tests use a handful of epochs.''',
    [('time.py', 'convert_delta_time, convert_calendar_dates, convert_datetime, parse, parse_date_string, split_date_string, datetime_to_list')],
    '''Exploration against the standard library's datetime arithmetic.''')

prop('R01', 'GRACE Level-2 products are read as they were published', '''
The reader of GRACE/GRACE-FO Level-2 spherical harmonic products (GSM, GAC,
GAD, GAA, GAB) of every processing center and release returns exactly the
coefficients, errors, pole tide or drift corrections, dates, spans and header
attributes that the product states, placed at the right degree and order,
truncated to the requested degree and order with absent coefficients zero,
whatever the compression, line order, header form or number notation.''', '''
All centers, releases, file name and header forms, truncations, options,
compressions and sparse or shuffled coefficient tables.''', '''
The tests with real products need the network and credentials, so no reader of
Level-2 products is exercised by the reliable tests.''',
    [('read_GRACE_harmonics.py', 'read_GRACE_harmonics, parse_file, extract_file')],
    '''Exploration; files are generated from a model of the product handbooks
    and read back against the generating numbers.''')

prop('R02', 'Gravity field model files and their months are read correctly', '''
The reader of temporal gravity field models in gfc format (ITSG, Swarm,
GRAZ and other ICGEM providers) returns the coefficients and errors of the
file in the requested tide system, with the dates, days and GRACE month that
the file name states and header attributes unchanged.''', '''
All providers and file name forms, months including ends of years, tide
systems, truncations and errors.''', '''
The tests read no gfc file at all.''',
    [('read_gfc_harmonics.py', 'read_gfc_harmonics'),
     ('time.py', 'parse_gfc_file'), ('harmonics.py', 'from_gfc')],
    '''Exploration; the ICGEM parser itself lives in the geoid_toolkit package,
    which is not installed, so a stand-in written for the check supplies the
    raw coefficients.''')

prop('R03', 'Five by five fields from satellite laser ranging are read exactly', '''
The readers of SLR gravity fields (CSR 5x5 monthly fields with and without the
6,1 coefficients, and the weekly fields with their monthly averages) return
the coefficients, errors, dates and months of every record as written, and
monthly averages weight the weekly fields by their time within the
month.''', '''
All record lengths, gaps, dates, truncations, scales and header forms, and file
names given as strings or paths.''', '''
The tests read no SLR field without the network.''',
    [('read_SLR_harmonics.py', 'read_SLR_harmonics, read_CSR_monthly_6x1, read_GSFC_weekly_6x1, convert_weekly')],
    '''Exploration; generated files are read back against the generating
    numbers.''')

prop('R04', 'Low-degree coefficients from laser ranging match their solutions', '''
The readers of C20, C30, C40, C50, C21/S21 and C22/S22 replacement solutions
return, for every supported provider and layout, the value, error, date and
GRACE month of every valid record, in order, converted to full coefficients
with the documented mean and permanent-tide conventions, skipping invalid
records.''', '''
All providers and layouts (CSR, GFZ, GravIS, TN-05/07/11/14, LARES, GSFC),
record lengths from one month, gaps, invalid lines and number
notations.''', '''
The tests read no SLR solution without the network.''',
    [('SLR/C20.py', 'C20'), ('SLR/C30.py', 'C30'), ('SLR/C40.py', 'C40'),
     ('SLR/C50.py', 'C50'), ('SLR/CS2.py', 'CS2')],
    '''Exploration; generated files are read back against the generating
    numbers. GravIS formal errors are accepted in either unit the code and its
    comments state.''')

prop('R05', 'Glacial isostatic adjustment models keep their uplift rates', '''
Reading a glacial isostatic adjustment model returns the coefficients of the
file normalized to fully normalized geodesy form, in the requested degree and
order range, with the model name, reference and title of that file. Predicting
its drift for a time series adds exactly rate times elapsed time, and reading
works the same for every supported model format and for the toolkit's own
files.''', '''
All supported GIA formats, degrees, orders, coefficients, header forms, and
file names given as strings or paths.''', '''
The tests read no GIA model.''',
    [('read_GIA_model.py', 'read_GIA_model, gia')],
    '''Exploration; generated files are read back against the generating
    numbers.''')

prop('R06', 'Geocenter solutions are read in the stated units and order', '''
Every reader of geocenter variations (Tellus, SLR, monthly SLR with or without
dealiasing products, UCI, Swenson, GravIS, dealiasing products and GAC/GAD
files) returns the value, error, date and GRACE month of every valid record in
order, with degree one coefficients and Cartesian coordinates related by the
radius of the Earth and the stated units, and dealiasing or means applied as
documented.''', '''
All supported solutions and layouts, record lengths, gaps, invalid records,
month duplicates, and units.''', '''
The tests read no geocenter solution without the network.''',
    [('geocenter.py', 'geocenter.from_tellus, from_SLR, from_UCI, from_swenson, from_gravis, from_ascii, from_netCDF4'),
     ('time.py', 'calendar_to_grace, adjust_months')],
    '''Exploration; generated files are read back against the generating
    numbers.''')

prop('R07', 'Dates and months of a data directory follow from its file names', '''
For a directory of monthly fields, the start and end dates, mid-dates, GRACE
month numbers, total days, missing months and newest versions that the toolkit
reports (as dictionaries, date files, and the table of months across centers)
are those that the file names state. Every file is kept under its own month,
no file other than the requested ones is written, and the command line programs
do the same as the functions.''', '''
All processing centers, file name forms, spans (including ends of years,
accelerometer shutoffs and ten-day fields), gaps, versions and single-file
directories.''', '''
The tests parse a few names; gaps, versions, spans over years and whole
directories are not sampled.''',
    [('grace_date.py', 'grace_date'), ('grace_find_months.py', 'grace_find_months'),
     ('grace_months_index.py', 'grace_months_index'),
     ('time.py', 'parse_grace_file, parse_gfc_file, reduce_by_date')],
    '''Exploration; generated directories are compared with the spans they were
    generated from.''')

prop('R08', 'Assembled series replace exactly the requested coefficients', '''
Reading the monthly fields of a center for a range of months returns, for each
available month in order, the coefficients of that month's file, truncated as
requested, with C20 replaced in all months, C21/S21, C22/S22, C30, C40 and C50
only in the months with a single accelerometer (after month 176), degree one
from the chosen geocenter solution (or modeled where it has no value if asked),
and the atmospheric corrections of the right epochs added or removed according
to the product. Nothing else changes, and months that a replacement lacks are
reported.''', '''
All centers, releases, products, month ranges, gaps, truncations, replacement
providers and their combinations, geocenter providers and missing months.''', '''
The tests need data from the network for this and are not run; combinations of
corrections and missing months are not sampled.''',
    [('grace_input_months.py', 'grace_input_months, read_ecmwf_corrections, regress_model'),
     ('SLR/C20.py', 'C20'), ('SLR/CS2.py', 'CS2'),
     ('geocenter.py', 'readers')],
    '''Exploration; generated data directories are compared with the generating
    numbers; composite inputs are read with readers that R02-R06 decide.''')

prop('G01', 'Geocenter objects convert and combine degree one correctly', '''
Geocenter objects convert between coefficients, Cartesian coordinates,
equivalent water height and pressure consistently with the definition of degree
one, also with errors and other Earth radii, and converting there and back
returns the start. Arithmetic between geocenter series (adding, subtracting,
multiplying, dividing, scaling, powers, means, copies) acts element-wise on all
fields they have, and only on the object it is documented to change; degree one
of harmonics and matrices is taken and placed at the right coefficients.''', '''
All lengths of series (including a single month), with and without errors,
radii, sequences of conversions and in-place operations, and iteration.''', '''
No test covers geocenter objects; sequences of conversions and shared arrays
between copies cannot be sampled by hand.''',
    [('geocenter.py', 'geocenter: to_*, from_cartesian, from_cmwe, from_mmwe, add, subtract, multiply, divide, scale, power, mean, get_masked, to_matrix, copy')],
    '''Exploration; a model of arrays is driven through the same sequence.''')

prop('K01', 'Mascon fields and grids convert into each other exactly', '''
Converting mascons of GSFC and JPL to a grid paints every grid cell with the
value of the mascon that contains it (wherever the mascon lies, across the date
line and at the poles); averaging a grid over mascons returns the mean of
exactly the cells that belong to each mascon, weighted as documented, and marks
mascons without cells. Masks and order of mascons are respected and inputs are
not changed.''', '''
All grid spacings and offsets, mascon layouts, masked data and longitude
conventions.''', '''
No test covers mascons.''',
    [('mascons.py', 'to_gsfc, to_jpl, from_gsfc, from_jpl')],
    '''Exploration against direct membership of each cell.''')

prop('F01', 'Regressions are the least-squares fits of their terms', '''
Fitting polynomial, seasonal and aliasing terms to a time series (also in two
pieces that are continuous at a break) returns the least-squares coefficients
relative to the requested epoch, weighted by the errors if asked, the model,
its standard errors and confidence intervals, mean square errors, information
criteria and degrees of freedom of the textbook; signals made of the terms are
recovered exactly, and inputs (including errors) are not changed. Amplitudes and
phases describe the same wave as their sine and cosine.''', '''
All orders, cycles, extra terms, epochs, errors (single, equal, per epoch, lists
or arrays), confidence levels, lengths, gaps and sampling of the series.''', '''
The test fits one synthetic series; weights, errors, epochs, gaps and breaks are
not sampled.''',
    [('time_series/regress.py', 'regress, aliasing_terms'),
     ('time_series/piecewise.py', 'piecewise'), ('time_series/amplitude.py', 'amplitude'),
     ('time_series/fit.py', 'polynomial, seasonal and aliasing terms')],
    '''Exploration against orthogonalization in extended precision.''')

prop('F02', 'Smoothing and periodograms act on each window as defined', '''
Moving averages, Loess filters (plain, linearly or Gaussian weighted),
Savitzky-Golay filters and Lomb-Scargle periodograms return, at every date or
frequency that they report, the value that their definition gives for the
samples of that window alone: mean, value, trend and seasonal terms with their
errors, derivative of the local polynomial, spectral power, probability and
contours. Signals of the fitted form pass unchanged, the dates match the values,
and impossible options are refused.''', '''
All half-widths, lengths, uneven sampling, orders, derivatives, rates, errors,
ways to give a frequency range, and singleton dimensions.''', '''
No test covers smoothing; the spectral test uses one series.''',
    [('time_series/smooth.py', 'smooth'),
     ('time_series/savitzky_golay.py', 'savitzky_golay'),
     ('time_series/lomb_scargle.py', 'lomb_scargle')],
    '''Exploration; each window is fitted alone, in centred coordinates. Mean
    phases across overlapping windows are not claimed (they wrap).''')

prop('U01', 'Map tools keep every value at its place', '''
Shifting a grid to another starting longitude moves every column (and its mask)
to the same longitude modulo the cycle, with and without a repeated last column
and for every start; wrapping longitudes changes them only by full turns;
interpolating a grid returns the nearest value (order 0) or a spline that passes
through all nodes and reproduces polynomials of its order, also beyond the edges
for the nearest value; color tables and named color maps have the colors of
their definitions.''', '''
All grids, starts, cycles, masks, points (inside and outside), orders, palettes
in both color models and with all flags.''', '''
No test covers these tools.''',
    [('tools.py', 'wrap_longitudes, shift_grid, interp_grid, from_cpt, custom_colormap')],
    '''Exploration. The interactive widgets need ipywidgets, which is not
    installed; mask_oceans needs data files that are pointers here.''')

prop('U02', 'File, time and text helpers are exact and safe to share', '''
A unique file is always new: concurrent callers in threads and processes each
get a different file of the numbered sequence, no existing file is changed, and
an impossible file is an error rather than an endless search. Hashes are those
of the whole content, copies keep content, times and permissions, times are
seconds in UTC whatever the local zone, url parts make up the url, arguments in
parameter files are exactly the words outside of comments, and rounding goes the
documented way.''', '''
All names, contents, existing files, numbers of concurrent callers, time zones,
time formats, urls and argument files.''', '''
Tests run single calls in one time zone; concurrency cannot be sampled by
them.''',
    [('utilities.py', 'create_unique_file, get_hash, copy, get_unix_time, isoformat, url_split, s3_bucket, s3_key, convert_arg_line_to_args, even, ceil, reify, import_dependency, get_data_path')],
    '''Exploration; concurrency by threads with a small switch interval and by
    processes that start together.''', over=('inputs', 'schedules'),
    technique='runtime monitoring: generated workloads, and many threads and '
    'processes at once, on the real code; every result and every file judged '
    'by an exactly-once monitor or an independent oracle')

prop('N01', 'Downloads deliver the remote bytes or leave local files alone', '''
Every retrieval over http, https, authenticated drives or ftp (single files and
the collections of a data provider) returns a buffer with exactly the remote
bytes and stores them at the documented place only if the given hash differs; a
missing, denied, truncated, reset or stalled transfer is reported and leaves the
local file as it was. Listings give every matching name with its own time, in
order if asked. Logins use the credentials given, stored or typed (again after a
failure), and tokens are requested with them.''', '''
All contents and sizes, states of the local file, chunk sizes, modes,
redirections, transfer encodings, faults and points of truncation, listings with
patterns and sorting, sources of credentials and numbers of failed attempts.''', '''
Tests of retrieval need the network and are not run; faults in the middle of a
transfer cannot be sampled against real servers.''',
    [('utilities.py', 'from_http, from_drive, from_ftp, http_list, drive_list, ftp_list, gsfc_list, icgem_list, from_json, check_connection, check_credentials, check_ftp_connection, from_figshare, from_csr, from_gfz, from_gsfc, attempt_login, build_opener, get_token, list_tokens, revoke_token, s3_client, s3_bucket, s3_key')],
    '''Exploration against real http, https and ftp servers on the loopback
    interface with injected faults; uploads (to_figshare) are not driven.''',
    over=('inputs', 'fault_sequences'),
    technique='runtime monitoring: the real code against monitored servers with '
    'injected faults; requests, buffers and local files judged after every run')

prop('N02', 'Catalogue queries find exactly the requested granules', '''
A query of the catalogue returns the names, addresses and modification times of
all granules of the requested mission, center, release, level, product,
solution, version, dates and endpoint, and of no others, in order of time,
however the catalogue splits them into pages; the three lists always describe
the same granules. Collections that do not exist are refused, and queries of
collections return the links of the requested kind.''', '''
All combinations of missions, centers, products, solutions, versions, levels,
dates, endpoints, page sizes and ways to end a search, granules that lack an
endpoint, and empty catalogues.''', '''
Tests need the network and are not run; page boundaries and missing links cannot
be sampled against the real catalogue.''',
    [('utilities.py', 'cmr, cmr_filter_json, cmr_metadata, cmr_metadata_json, cmr_product_shortname, cmr_readable_granules')],
    '''Exploration against a catalogue server on the loopback interface that
    filters, sorts and pages like the real one.''')

prop('N03', 'File patterns select the files of one product and no others', '''
The pattern of a center, release, product, mission, solution and version matches
the names of exactly the files of that product: the monthly fields of the
documented resolution, constraint and version, compressed or not, of either
mission when none is stated and of any version when none is stated; it never
matches other products, centers, missions, solutions, checksums, partial
transfers or prefixed copies. The pattern for granules of the catalogue selects
the same files as the pattern for local ones, every selected name gives back its
dates, and unknown missions, centers and products are refused.''', '''
All combinations of centers, releases, products, missions, solutions and
versions (absent, as number or text), over directories with files of all
centers, releases, resolutions, constraints, versions and suffixes and near
misses of their names.''', '''
No test builds a pattern; the naming rules of four centers and three releases
multiply to more cases than examples can list.''',
    [('utilities.py', 'compile_regex_pattern, cmr_readable_granules'),
     ('time.py', 'parse_grace_file')],
    '''Exploration; the model of the file names is written from the published
    naming rules.''')

prop('X01', 'Map programs write the corrected, smoothed series on their grid', '''
The programs that convert between harmonics and maps (convert_harmonics,
combine_harmonics, grace_spatial_maps, grace_spatial_error, scale_grace_maps)
write, for every chosen month and format, exactly the fields their options ask
for: the selected coefficients after exactly the chosen corrections (mean,
glacial isostatic adjustment, removed files, redistribution, destriping,
smoothing, units) summed at each point of the documented grid; or the
coefficients of a given map; or delta errors and scaled maps with their
errors; under the documented names and with the time, units and other
attributes of the fields. No chosen month is skipped and no other is
written.''', '''
All formats, degree and order ranges, grids and bounds, units, smoothing radii,
reference frames, replacement options, missing months, masks, removed files,
single months and stored errors.''', '''
No test runs a program: options combine in ways that no unit test of a library
routine sees (single months, ascii output, truncated orders).''',
    [('../scripts/convert_harmonics.py', 'convert_harmonics'),
     ('../scripts/combine_harmonics.py', 'combine_harmonics'),
     ('../scripts/grace_spatial_maps.py', 'grace_spatial_maps'),
     ('../scripts/grace_spatial_error.py', 'grace_spatial_error'),
     ('../scripts/scale_grace_maps.py', 'scale_grace_maps')],
    '''Exploration by running the programs on generated input trees. Reading of
    replaced low degrees, decorrelation and ocean functions are decided by other
    properties and reused as given.''')

prop('X02', 'Mean and regression programs reduce exactly the chosen months', '''
grace_mean_harmonics writes the average of exactly the chosen months and its
error statistics in every format; regress_grace_maps and piecewise_grace_maps
write, for every point of the maps, the least-squares coefficients, confidence
bounds, amplitudes, phases and fit statistics of the chosen terms under the
name of that term, in every combination of order, cycles and tidal aliasing
terms.''', '''
All formats, months (single, missing), units, grids and bounds, orders, cycles,
aliasing terms in any order, and breakpoints.''', '''
No test runs a program or reads its output files.''',
    [('../scripts/grace_mean_harmonics.py', 'grace_mean_harmonics'),
     ('../scripts/regress_grace_maps.py', 'regress_grace_maps'),
     ('../scripts/piecewise_grace_maps.py', 'piecewise_grace_maps')],
    '''Exploration; regressions are solved again in extended precision at every
    point.''')

prop('X03', 'Mascon estimates, reconstructions and kernels are least squares', '''
calc_mascon writes for every mascon and month the mass of the least-squares fit
of the unit loads to the corrected, smoothed field in the chosen degree and
order range, its error from the given or stored errors, its area and name, and
lists the files; mascon_reconstruct gives back the harmonics of those series
(and only of those mascons and months), so that removing the reconstruction
leaves nothing of the fit; sensitivity kernels are the rows of the same
solution, as harmonics and on the grid.''', '''
All degree and order ranges, fit methods, sets of mascons, formats,
redistribution over the ocean, removed files, replacement options, stored
errors, single months, smoothing and destriping.''', '''
No test runs a program; the fit methods and stored errors interact over three
programs.''',
    [('../scripts/calc_mascon.py', 'calc_mascon'),
     ('../scripts/mascon_reconstruct.py', 'mascon_reconstruct'),
     ('../scripts/calc_sensitivity_kernel.py', 'calc_sensitivity_kernel')],
    '''Exploration with a least-squares oracle in extended precision; the three
    programs are run in sequence on their own output.''')

prop('X04', 'Dealiasing programs keep every epoch of their inputs', '''
The programs that read the 3 and 6-hourly dealiasing archives write one line or
field per epoch of every day (geocenter positions, oblateness, global uplift in
the requested grid), and monthly means over exactly the days of each period,
also across months and years, with matching dates, headers and index; periods
with missing days are not written; outputs are rewritten if and only if their
inputs are newer or the run is forced.''', '''
All releases, products, packings, degrees, formats, centers, periods (single
days, single periods, over the end of a year, with missing days) and orders of
files in an archive.''', '''
No test runs a program; archives of real size are not part of the tests.''',
    [('../scripts/aod1b_geocenter.py', 'aod1b_geocenter'),
     ('../scripts/aod1b_oblateness.py', 'aod1b_oblateness'),
     ('../scripts/dealiasing_monthly_mean.py', 'dealiasing_monthly_mean, dealiasing'),
     ('../scripts/dealiasing_global_uplift.py', 'dealiasing_global_uplift')],
    '''Exploration with archives of full degree and a few days (a full month for
    uplift).''', over=('inputs', 'histories'))

prop('X05', 'Synced archives are complete copies, also after failed runs', '''
A run of a synchronization program updates exactly the local files that are
missing, older than the remote file, different (with checksums) or forced, with
the bytes, time and permissions of the remote file, leaves all others alone, and
lists the usable files of each product in its index, one per month in the newest
version. Listing only changes nothing. If a transfer fails it is reported, no
incomplete file is left under its name, and the next run completes the copy.''',
    '''
All states of the local files, options, releases, missions, centers, products,
versions, archives and their order, pages of listings, and transfers that are
truncated or reset.''', '''
Synchronization needs the network and is not tested; interrupted transfers
cannot be sampled against real servers.''',
    [('../scripts/cnes_grace_sync.py', 'cnes_grace_sync, gzip_copy_file'),
     ('../scripts/itsg_graz_grace_sync.py', 'itsg_graz_grace_sync, http_pull_file'),
     ('../scripts/esa_costg_swarm_sync.py', 'esa_costg_swarm_sync, http_pull_file'),
     ('../scripts/gfz_icgem_costg_ftp.py', 'gfz_icgem_costg_ftp, ftp_mirror_file'),
     ('../scripts/gfz_isdc_dealiasing_ftp.py', 'gfz_isdc_dealiasing_ftp, ftp_mirror_file'),
     ('../scripts/gfz_isdc_grace_ftp.py', 'gfz_isdc_grace_ftp, ftp_mirror_file'),
     ('../scripts/podaac_cumulus.py', 'podaac_cumulus, http_pull_file, s3_pull_file')],
    '''Exploration against http, https and ftp servers on the loopback interface
    and a stand-in for the bucket client (the service itself cannot be reached), with
    injected faults.''', over=('inputs', 'fault_sequences', 'histories'),
    technique='runtime monitoring: sequences of program runs against monitored '
    'servers with injected faults; the whole local tree judged after every run')

prop('X06', 'Degree one closes the mass budget of the oceans', '''
The degree one coefficients that are derived from the other degrees are, for
every month, those for which the mass over the oceans is the water that the land
gave to them (spread evenly or as fingerprint) plus the difference of the ocean
models, with the adjustment and atmospheric corrections restored; repeated
solutions converge the same way, every written part has its stated units, and
sampled solutions scatter about the unperturbed one as the errors imply.''', '''
All centers, releases, months, degrees, orders, masks, solvers, corrections,
ocean models, smoothing and love numbers.''', '''
No test runs the programs; the solutions are not stored for comparison.''',
    [('../scripts/calc_degree_one.py', 'calc_degree_one, model_seasonal_geocenter'),
     ('../scripts/monte_carlo_degree_one.py', 'monte_carlo_degree_one')],
    '''Exploration at low degree on coarse masks with an independent solution of
    the equations; samples are judged by bounds and scatter.''')

prop('X07', 'Raster, fingerprint, index and date programs cover their inputs', '''
Rasters hold, for every cell of exactly the requested extent and projection over
land, the value of the corrected fields of each month at its geodetic position;
fingerprint files hold the sea level of every field of the input; index files
list exactly the newest usable file of each period, and date files and the table
of months every month of the chosen centers, releases and products, leaving
others alone; resolutions are the documented ones.''', '''
All projections, extents and spacings, formats, loads and options of the sea
level equation, file names, versions and folders.''', '''
No test runs a program.''',
    [('../scripts/grace_raster_grids.py', 'grace_raster_grids'),
     ('../scripts/run_sea_level_equation.py', 'run_sea_level_equation'),
     ('../scripts/make_grace_index.py', 'make_grace_index'),
     ('../scripts/run_grace_date.py', 'run_grace_date'),
     ('../scripts/calc_harmonic_resolution.py', 'calc_harmonic_resolution')],
    '''Exploration with small inputs and a stand-in for the raster writer of
    geoid_toolkit, which is not installed.''')

prop('X08', 'Figures and summaries show the series they were given', '''
A saved figure of a geocenter or mascon program holds, for every coordinate or
mascon and every source, the value of exactly the chosen months at their dates
(anomalies from the documented months, in millimeters of geocenter motion), with
breaks where months are missing and the time between the missions marked only if
both are there; printed and written spreads, trends, amplitudes, phases, bounds
and criteria are those of the same series, each under its own name.''', '''
All months and gaps, centers, releases, models, numbers of runs and files, series
with and without months of the second mission, orders, breakpoints and cycles in
any order.''', '''
No test runs a program that plots or summarizes.''',
    [('../scripts/geocenter_processing_centers.py', 'geocenter_processing_centers'),
     ('../scripts/geocenter_ocean_models.py', 'geocenter_ocean_models'),
     ('../scripts/geocenter_compare_tellus.py', 'geocenter_compare_tellus'),
     ('../scripts/geocenter_monte_carlo.py', 'geocenter_monte_carlo'),
     ('../scripts/quick_mascon_plot.py', 'run_plot'),
     ('../scripts/quick_mascon_regress.py', 'run_regress')],
    '''Exploration with the contents of figures recorded at the moment they are
    saved; maps need coastlines that are not in the repository and are not
    drawn.''')

prop('X09', 'Logs of program runs account for what happened', '''
With --log, a processing program that completes leaves exactly one new file, named
after the program, the day and the process, that lists every argument with its
value and exactly the files the run wrote; one that fails leaves a failed-run log
with the arguments and the traceback instead. Earlier logs are never overwritten,
and without --log no log is written.''', '''
All programs with the option, options and inputs, repeated runs within a process,
and storage failures at any write.''', '''
No test runs a program.''',
    [('../scripts/grace_spatial_maps.py', 'output_log_file'),
     ('../scripts/grace_spatial_error.py', 'output_log_file'),
     ('../scripts/scale_grace_maps.py', 'output_log_file'),
     ('../scripts/grace_mean_harmonics.py', 'output_log_file'),
     ('../scripts/regress_grace_maps.py', 'output_log_file'),
     ('../scripts/piecewise_grace_maps.py', 'output_log_file'),
     ('../scripts/calc_mascon.py', 'output_log_file'),
     ('../scripts/calc_sensitivity_kernel.py', 'output_log_file'),
     ('../scripts/dealiasing_global_uplift.py', 'output_log_file'),
     ('../scripts/calc_degree_one.py', 'output_log_file'),
     ('../scripts/monte_carlo_degree_one.py', 'output_log_file'),
     ('../scripts/grace_raster_grids.py', 'output_log_file'),
     ('utilities.py', 'create_unique_file')],
    '''Exploration: the programs run in this process with the inputs of the checks
    of their results; failures are injected where harmonics, grids or permissions
    are written.''', over=('inputs', 'fault_sequences', 'histories'),
    technique='runtime monitoring: program runs with injected storage failures, '
    'an offline checker compares the log with the observed changes of the tree')
prop('X10', 'Maps show the grid they were given at its place', '''
Every map program shows, at each pixel, the value its input grid has (nearest,
bilinear or cubic) at that place after the requested scaling, removed grid and
mask, with invalid and masked cells blank, whatever the spacing, interval, longitude
origin, direction of latitudes and format of the grid; contour levels, mean
contour, color range, titles, labels, scale bar and outlines are those of the
options and the data; movies show each time of the file in one frame in order.''', '''
All map and movie programs and their options, grid layouts, formats and values.''', '''
No test runs a program.''',
    [('../scripts/plot_AIS_GrIS_maps.py', 'plot_grid'),
     ('../scripts/plot_AIS_grid_3maps.py', 'plot_grid'),
     ('../scripts/plot_AIS_grid_4maps.py', 'plot_grid'),
     ('../scripts/plot_AIS_grid_maps.py', 'plot_grid'),
     ('../scripts/plot_AIS_regional_maps.py', 'plot_grid'),
     ('../scripts/plot_GrIS_grid_3maps.py', 'plot_grid'),
     ('../scripts/plot_GrIS_grid_5maps.py', 'plot_grid'),
     ('../scripts/plot_GrIS_grid_maps.py', 'plot_grid'),
     ('../scripts/plot_QML_grid_3maps.py', 'plot_grid'),
     ('../scripts/plot_global_grid_3maps.py', 'plot_grid'),
     ('../scripts/plot_global_grid_4maps.py', 'plot_grid'),
     ('../scripts/plot_global_grid_5maps.py', 'plot_grid'),
     ('../scripts/plot_global_grid_9maps.py', 'plot_grid'),
     ('../scripts/plot_global_grid_maps.py', 'plot_grid'),
     ('../scripts/plot_AIS_grid_movie.py', 'animate_grid'),
     ('../scripts/plot_AIS_regional_movie.py', 'animate_grid'),
     ('../scripts/plot_GrIS_grid_movie.py', 'animate_grid'),
     ('../scripts/plot_global_grid_movie.py', 'animate_grid'),
     ('tools.py', 'interp_grid'),
     ('tools.py', 'shift_grid'),
     ('spatial.py', 'from_ascii')],
    '''Exploration: shapefiles and base data are generated; the contents of figures are
    compared before they are rendered, not the rendered pixels; movie writers are
    replaced by a recorder (no ffmpeg here). Cubic interpolation is not judged for
    grids with invalid cells.''', over=('inputs',),
    technique='runtime monitoring: a hook on the saving of figures records their '
    'images, contours, outlines and texts, an oracle interpolates the input grid')

prop('X11', 'Files state how they were made', '''
Every netCDF4 or HDF5 file a program writes states in its attributes, for any options,
how it was made: the institute, release and product of the months, exactly the data,
mean and removed files that were read (lineage), the Love numbers, reference frame, Earth
constants and truncation that were used, and the smoothing, filtering, GIA model,
replaced low-degree coefficients, geocenter and corrections that were applied and no
others; its variables carry the units and names of what they hold, and its dates the
epoch they count from.''', '''
All programs that write attributes, their options, input files and formats.''', '''
No test runs a program.''',
    [('../scripts/grace_spatial_maps.py', 'grace_spatial_maps'),
     ('../scripts/grace_spatial_error.py', 'grace_spatial_error'),
     ('../scripts/scale_grace_maps.py', 'scale_grace_maps'),
     ('../scripts/grace_mean_harmonics.py', 'grace_mean_harmonics'),
     ('../scripts/regress_grace_maps.py', 'output_data'),
     ('../scripts/piecewise_grace_maps.py', 'output_data'),
     ('../scripts/calc_mascon.py', 'calc_mascon'),
     ('../scripts/calc_sensitivity_kernel.py', 'calc_sensitivity_kernel'),
     ('../scripts/dealiasing_global_uplift.py', 'dealiasing_global_uplift'),
     ('../scripts/calc_degree_one.py', 'calc_degree_one'),
     ('../scripts/monte_carlo_degree_one.py', 'monte_carlo_degree_one'),
     ('../scripts/grace_raster_grids.py', 'grace_raster_grids'),
     ('../scripts/run_sea_level_equation.py', 'run_sea_level_equation'),
     ('../scripts/combine_harmonics.py', 'combine_harmonics'),
     ('../scripts/convert_harmonics.py', 'convert_harmonics'),
     ('grace_input_months.py', 'grace_input_months'),
     ('spatial.py', 'to_netCDF4'),
     ('spatial.py', 'to_HDF5'),
     ('harmonics.py', 'to_netCDF4'),
     ('harmonics.py', 'to_HDF5')],
    '''Exploration: cases are those of the checks of the results; text files carry no
    attributes; attributes of raster files are judged as they are handed to the writer
    of the optional geoid_toolkit (a stand-in here); catalogued names of models are
    compared with a table of the documentation.''', over=('inputs',),
    technique='runtime monitoring: an audit hook records the files a run opens, an '
    'oracle compares the attributes of the files it wrote with them and with the parsed '
    'arguments')

prop('X12', 'Command line options mean what they document', '''
Every program of the scripts folder hands to its calculation exactly what its command
line says: each documented option, in any of its spellings, in any order, on the command
line or in a parameter file, sets the parameters it documents to the stated value and no
others; an option that is left out has its documented default; every documented choice is
accepted, other and malformed values are rejected before anything is calculated; options
that list several data sets calculate each of them. --verbose sets the level of messages,
--log records the files that were written, and a calculation that fails is reported and
logged as one that failed.''', '''
All programs, all subsets, orders, spellings and values of their options, parameter files,
and calculations that succeed or fail.''', '''
No test runs a program or parses a command line.''',
    [('utilities.py', 'convert_arg_line_to_args'),
     ('../scripts/calc_mascon.py', 'arguments'),
     ('../scripts/calc_mascon.py', 'main'),
     ('../scripts/grace_spatial_maps.py', 'arguments'),
     ('../scripts/grace_spatial_maps.py', 'main'),
     ('../scripts/plot_global_grid_maps.py', 'arguments'),
     ('../scripts/plot_global_grid_maps.py', 'main'),
     ('../scripts/podaac_cumulus.py', 'main')],
    '''Exploration: random command lines, with every option alone, every spelling and
    every choice of all 53 programs covered in a run; the table of options (rv/options.py)
    was read from the programs and reviewed against their documentation. Functions or
    parameters that were renamed are not judged.''', over=('inputs',),
    technique='runtime monitoring: main() runs with a recorder in place of the '
    'calculation, an oracle compares the recorded calls with those the command line '
    'asks for')

prop('E01', 'Requests that cannot be met are refused', '''
A request for something the toolkit does not have raises an error instead of returning a
wrong, partial or empty result: units, unit names and codes, methods, reference frames,
Love number sets, isostatic adjustment models, file, date and output formats, hashing
algorithms, missions, centers and products other than the documented ones; months,
indices and files that do not exist; files that are cut off or lack the variable; inputs
whose sizes do not agree, grids that do not span the full circle where needed, windows and
frequency ranges that are not admissible, and required inputs that are left out. The
refused request changes neither its arguments nor any file, and later valid requests are
answered as before.''', '''
All names, codes and sizes outside the documented domains, all missing or cut files, all
objects.''', '''
Tests call the toolkit with valid requests; the invalid ones are unlimited, and an answer
to them passes unnoticed into results.''',
    [('units.py', 'bycode, get, get_attributes'), ('harmonics.py', 'from_file, to_file, '
     'from_index, to_index, subset, index'), ('spatial.py', 'from_file, to_file, '
     'from_index, to_index, subset, index'), ('read_GIA_model.py', 'read_GIA_model'),
     ('read_love_numbers.py', 'read_love_numbers, load_love_numbers, love_numbers.transform'),
     ('time.py', 'parse_date_string, convert_julian'), ('utilities.py', 'get_hash, '
     'compile_regex_pattern, cmr_product_shortname, import_dependency'),
     ('associated_legendre.py', 'associated_legendre'), ('gen_harmonics.py', 'gen_harmonics'),
     ('clenshaw_summation.py', 'clenshaw_summation'), ('harmonic_summation.py',
     'harmonic_transform, stokes_summation'), ('time_series/savitzky_golay.py',
     'savitzky_golay'), ('time_series/lomb_scargle.py', 'lomb_scargle')],
    '''Exploration; any exception counts as a refusal. Refusals by readers of single
    products are checked with those (R01 to R08), by programs with X09 and X12.''',
    over=('inputs',),
    technique='runtime monitoring: each generated valid request is observed together with '
    'one that cannot be met; an online monitor asserts that the latter raises and leaves '
    'arguments, files and later answers unchanged')

prop('P01', 'Calculations depend on their arguments alone and leave them as they were', '''
Every public function and method gives the same result whenever it is called with the
same arguments: not depending on calls made before it, in other threads or in another
order, nor on the layout of arrays in memory or whether they may be written. It leaves
its arguments, the objects it was not asked to change, the files it reads and the state
of the process (error handling of numpy, random numbers, directory, environment,
logging, warnings) as they were, closes what it opens, and returns results that share no
memory with its arguments, so that changing the one never changes the other.''', '''
All calls the generated cases of the other checks make (functions, readers, transforms,
operations on objects), in any order, in several threads, with any layout of arrays.''', '''
Tests call each function once with fresh arguments and never look at the arguments or
the process afterwards.''',
    [('harmonics.py', 'harmonics'), ('spatial.py', 'spatial'), ('geocenter.py', 'geocenter'),
     ('units.py', 'units'), ('gen_stokes.py', 'gen_stokes'),
     ('gen_harmonics.py', 'gen_harmonics'), ('harmonic_summation.py', 'harmonic_summation'),
     ('associated_legendre.py', 'plm_holmes'), ('clenshaw_summation.py', 'clenshaw_summation'),
     ('destripe_harmonics.py', 'destripe_harmonics'),
     ('sea_level_equation.py', 'sea_level_equation'),
     ('read_love_numbers.py', 'read_love_numbers, load_love_numbers'),
     ('read_GIA_model.py', 'read_GIA_model, gia'),
     ('read_GRACE_harmonics.py', 'read_GRACE_harmonics'), ('SLR/C20.py', 'C20'),
     ('SLR/C30.py', 'C30'), ('SLR/CS2.py', 'CS2'), ('time.py', 'convert_julian'),
     ('time_series/regress.py', 'regress'), ('time_series/piecewise.py', 'piecewise'),
     ('time_series/smooth.py', 'smooth'), ('tools.py', 'interp_grid, mask_oceans'),
     ('mascons.py', 'to_gsfc, to_jpl'), ('grace_input_months.py', 'grace_input_months')],
    '''Exploration over the calls of the generated cases. Objects that hand out their own
    arrays by design (units.get, to_dict of Love numbers and harmonics, masked arrays of
    grids, times of smoothed series) are exempt from the test of shared memory; results of
    two calls may differ by rounding of sums.''', over=('inputs', 'histories', 'schedules'),
    technique='runtime monitoring: every public function is wrapped; an online monitor '
    'makes each call twice with poisoned copies and compares results, arguments, global '
    'state, files, descriptors and shared memory; recorded calls are replayed in other '
    'orders, threads and layouts')

prop('P02', 'Options that are left out have their documented values', '''
A call that leaves out an option gives the same result, and a writer the same file, as a
call that states the value the documentation names as its default: maximum degrees and
orders, units, Love numbers, reference frames, epochs, smoothing and fitting options,
names and formats of files, headers and columns.''', '''
All public functions and methods with documented default values, and all other arguments
of their calls.''', '''
Tests that use a default cannot tell which value it has, and tests that state a value do
not use the default.''',
    [('harmonics.py', 'harmonics'), ('spatial.py', 'spatial'), ('geocenter.py', 'geocenter'),
     ('units.py', 'harmonic, spatial'), ('gen_stokes.py', 'gen_stokes'),
     ('gen_disc_load.py', 'gen_disc_load'), ('gen_point_load.py', 'gen_point_load'),
     ('gen_spherical_cap.py', 'gen_spherical_cap'),
     ('gen_averaging_kernel.py', 'gen_averaging_kernel'),
     ('harmonic_summation.py', 'harmonic_summation, harmonic_transform, stokes_summation'),
     ('clenshaw_summation.py', 'clenshaw_summation'),
     ('read_love_numbers.py', 'read_love_numbers, load_love_numbers'),
     ('sea_level_equation.py', 'sea_level_equation'), ('SLR/C20.py', 'C20'),
     ('SLR/C30.py', 'C30'), ('SLR/C50.py', 'C50'), ('SLR/CS2.py', 'CS2'),
     ('time.py', 'convert_calendar_dates, convert_delta_time'),
     ('time_series/regress.py', 'regress'), ('time_series/lomb_scargle.py', 'lomb_scargle'),
     ('time_series/savitzky_golay.py', 'savitzky_golay'),
     ('tools.py', 'interp_grid, mask_oceans')],
    '''Exploration; the documented values are those of the docstrings of the pinned commit
    that name a value. Options whose docstring and signature disagree there (listed in
    DESIGN.md) and options of network functions are not judged.''', over=('inputs',),
    technique='runtime monitoring: every public function is wrapped; an online monitor '
    'repeats calls of generated cases with an option left out and with its documented '
    'value and compares results and files')

prop('W01', 'Controls of the notebooks offer what is published', '''
After any history of selections of center, release and product in tools.widgets, the
controls agree with the published data sets: the releases of the center, the products of
the release, the months found in the directory, the maximum degree (and order, which
follows the degree), and the pole tide and atmosphere corrections of Release-5; other
controls keep what was selected. Directories and files that are typed or picked are
returned as absolute paths, files to be removed as the list that the label shows, units as
their codes, and tools.colormap returns the selected colours, limits and levels.''', '''
All histories of selections from the options offered, typed and picked paths, all ranges
and steps of colours.''', '''
No test drives the controls; their rules act on each other in an order that depends on the
selections before.''',
    [('tools.py', 'widgets, colormap'), ('grace_find_months.py', 'grace_find_months')],
    '''Exploration; ipywidgets is replaced by a stand-in that notifies observers when a
    control is consistent, so the order of the notifications within one change of the real
    package is not covered. Months after a change of the product alone are not judged.''',
    over=('histories', 'inputs'),
    technique='runtime monitoring: random histories of selections on stand-in controls; '
    'an online oracle compares all controls with a table of the published data sets and '
    'the files in the directory after every selection')


prop('W02', 'Notebooks calculate what was selected on their controls', '''
Executing the cells of a notebook in order, with any selection on its controls, completes
and yields what was selected: monthly maps on the selected grid in the selected units,
coefficient triangles, errors from the scatter about the smooth part of the series, and
geostrophic currents over the ocean away from the equator, each from the selected center,
release, product, months, degree, order and replacement series, after the mean of the
months, the selected decorrelation, isostatic adjustment, removed fields (redistributed
over the ocean on request) and smoothing; the file, the fitted terms (where the months determine them), the names of the
terms and every frame of an animation show these fields with their dates, colours and
labels; updating the archive calls the download programs with the selected directory and
endpoint.''', '''
All archives, selections of months and products, truncations, replacement series,
correction files and formats, radii, grids, units, polynomial orders and terms, colours.''', '''
No test executes the notebooks; their results depend on combinations of controls and on
the archive.''',
    [('../notebooks/GRACE-Spatial-Maps.ipynb', 'all cells'),
     ('../notebooks/GRACE-Spatial-Error.ipynb', 'all cells'),
     ('../notebooks/GRACE-Harmonic-Plots.ipynb', 'all cells'),
     ('../notebooks/GRACE-Geostrophic-Maps.ipynb', 'all cells'),
     ('tools.py', 'widgets, colormap')],
    '''Exploration; ipywidgets and IPython are replaced by stand-ins, lines for the shell
    are recorded and coastlines (a download) are not drawn.''',
    over=('inputs', 'histories'),
    technique='runtime monitoring: the cells of the notebooks run with random selections '
    'on stand-in controls; an oracle evaluates the selections independently and compares '
    'grids, coefficients, files, frames and shell commands')
